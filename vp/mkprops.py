"""Writes properties.jsonl (development helper)."""
import json
import os

P = []


def p(id, title, statement, over, qtext, why, files, mech, **k):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[{"name": n, "where": w} for n, w in mech],
                               **{a: [b] if a == "observe_at" else [{"name": b, "where": files[0]}]
                                  for a, b in k.items()})))


p("P01", "Typed encoder writes produce exactly the documented wire bytes",
  "Writing an 8/16/32/64-bit signed or unsigned integer, a float, a double, a string, a binary blob or a file descriptor to a message appends exactly the documented encoding at the current position: type byte, then fixed little endian, base-128 varint (zigzag for signed), or varint size followed by the content. All bytes before the position are unchanged, the position moves just after what was written, and a write on a writable message with enough memory succeeds for every value.",
  ["inputs"], "every value of every type, every message buffer content, capacity and write position, every allocation failure",
  "values and buffer positions range over the whole 64-bit and size spaces; tests sample a few values at the start of a message",
  ["src/pomp_encoder.c", "src/pomp_buffer.c", "src/pomp_prot.h"],
  [("pomp_encoder_write_* functions", "src/pomp_encoder.c"), ("varint and zigzag encoding", "src/pomp_encoder.c encoder_write_varint"), ("buffer append", "src/pomp_buffer.c pomp_buffer_write")],
  observe_at="bytes of the message buffer and encoder position after each write")
p("P02", "Typed reads give back the written values; a wrong type is refused in place",
  "A typed read of an argument encoded for that type at the current position succeeds, returns exactly the value written and moves to the next argument. A read with another type than the one found fails and leaves the position where it was, so that the argument can still be read with the right type; a read never modifies the message.",
  ["inputs"], "every value of every type, at every position of every message content",
  "round trips have to hold for all values at all offsets, tests read back a handful of constants",
  ["src/pomp_decoder.c", "src/pomp_encoder.c", "src/pomp_buffer.c"],
  [("pomp_decoder_read_* functions", "src/pomp_decoder.c"), ("varint and zigzag decoding", "src/pomp_decoder.c decoder_read_varint")],
  observe_at="result, output value and position of the decoder")
p("P03", "Decoding arbitrary received bytes stays inside the message",
  "Whatever the bytes of a message payload, typed reads and the walk over the arguments never access memory outside the message, never return a pointer or a string that is not entirely inside it, and never move the position past the end of the data. Truncated arguments, oversized lengths, varints of more than 10 bytes, unknown types and unterminated strings give an error.",
  ["inputs"], "every payload, of any length, and every decoder position",
  "hostile input is an unbounded space; tests only decode messages made by the encoder",
  ["src/pomp_decoder.c", "src/pomp_buffer.c"],
  [("bounds checks of reads", "src/pomp_buffer.c pomp_buffer_read, pomp_buffer_cread"), ("type, size and termination checks", "src/pomp_decoder.c"), ("walk", "src/pomp_decoder.c pomp_decoder_walk")],
  observe_at="memory accesses, results and position of the decoder")
p("P04", "Strings and blobs: size limits, exact content, copies owned by the caller",
  "A string is accepted for writing only if its size with the terminating null byte fits in 16 bits; a refused string or blob (too long, or null pointer) leaves the message and position unchanged. The pointer-returning reads give the content in place inside the message with its exact length, the copying reads give a separate allocation with the same content, and on error no output pointer is changed by the former and nothing is left allocated by the latter.",
  ["inputs", "fault_sequences"], "every string and blob length and content, every payload, every allocation failure",
  "limits at 16 and 32 bits, embedded bytes and allocation failures are not sampled by tests",
  ["src/pomp_encoder.c", "src/pomp_decoder.c"],
  [("pomp_encoder_write_str/write_buf", "src/pomp_encoder.c"), ("pomp_decoder_read_str/cstr/buf/cbuf", "src/pomp_decoder.c")],
  observe_at="message bytes, returned pointers, live allocations")
p("P05", "Buffers behave as growable byte arrays with exact bounds",
  "A buffer always keeps length <= capacity with that much memory behind it. Writing, appending, copying, resizing and reserving change exactly the bytes, length, capacity and position they are asked to, keep all other bytes, grow automatically when needed, and fail with nothing changed when memory is short or the request is out of bounds (including sizes that overflow); reads succeed exactly when the requested range is inside the length.",
  ["inputs", "fault_sequences"], "every content, length, capacity, position and size argument (full size_t range), every allocation failure",
  "arithmetic near overflow, reallocation and failure paths depend on sizes no test allocates",
  ["src/pomp_buffer.c"],
  [("growth", "src/pomp_buffer.c pomp_buffer_ensure_capacity, buffer_set_capacity"), ("write and append", "src/pomp_buffer.c pomp_buffer_write, pomp_buffer_append_data, pomp_buffer_append_buffer"), ("reads", "src/pomp_buffer.c pomp_buffer_read, pomp_buffer_cread")],
  state="struct pomp_buffer", observe_at="buffer content and results of every public buffer function")
p("P06", "Shared buffers and finished messages are read-only",
  "As long as a buffer has more than one reference, every operation that would change its content, length, capacity or descriptors, directly or through an encoder, is refused with a permission error and changes nothing; the same holds for encoding into a finished message. Taking a reference makes the buffer shared, releasing it makes it writable again when one owner remains, and the memory is freed exactly when the last reference is released.",
  ["inputs", "histories"], "every buffer state, reference count and argument",
  "each mutator must be protected for every state; tests try a few of them once",
  ["src/pomp_buffer.c", "src/pomp_encoder.c"],
  [("reference count checks in mutators", "src/pomp_buffer.c"), ("pomp_buffer_ref/unref", "src/pomp_buffer.c"), ("finished flag", "src/pomp_encoder.c")],
  state="reference count of the buffer, finished flag of the message", observe_at="results and content after each operation")
p("P07", "File descriptors in buffers are duplicated, tracked and closed exactly once",
  "A descriptor put in a buffer is a private duplicate whose number is stored at the recorded position; reading a descriptor succeeds only at a recorded position and at most four fit. Whatever the operation (write, copy, truncate, clear, last release, and all failures including failed duplications), every descriptor owned by a buffer is closed exactly once when it leaves the buffer, never while it is still in it, and never one that the buffer does not own.",
  ["inputs", "fault_sequences", "histories"], "every buffer content and set of recorded descriptors, every failure of duplication or allocation",
  "leaks and double closes only show on failure paths and particular truncations",
  ["src/pomp_buffer.c", "src/pomp_encoder.c", "src/pomp_decoder.c"],
  [("pomp_buffer_write_fd/register_fd/read_fd", "src/pomp_buffer.c"), ("closing of descriptors", "src/pomp_buffer.c pomp_buffer_clear, pomp_buffer_unref, pomp_buffer_set_len"), ("duplication", "src/pomp_buffer.c pomp_buffer_new_copy")],
  state="fdcount and fdoffs of the buffer", observe_at="calls to dup and close")
p("P08", "Message life cycle: header is consistent exactly when the message is finished",
  "Initialising a message gives it an id and an empty buffer of its own; finishing it writes a 12 byte header with the magic, the id and the total size of the buffer in little endian, makes it read-only, and a second finish is refused. A message can only be initialised when it has no buffer, clearing it drops exactly one reference of its buffer, and a copy has the same id, state and content in a buffer that is separate.",
  ["inputs", "histories"], "every id, content, message state, sharing and allocation failure",
  "all states and failure paths of each transition have to be covered, tests do the nominal sequence",
  ["src/pomp_msg.c", "src/pomp_prot.h"],
  [("pomp_msg_init/finish/clear", "src/pomp_msg.c"), ("header", "src/pomp_msg.c pomp_msg_finish")],
  state="struct pomp_msg", observe_at="header bytes, message state and reference counts")
p("P09", "A message made from a received buffer is accepted only if its header is right",
  "Creating a message from an existing buffer succeeds only if the buffer holds at least a complete header, the magic is right and the size in the header is the length of the buffer; the message then has the id of the header, is finished and shares the buffer. Otherwise an error is returned and no reference or memory is kept.",
  ["inputs", "fault_sequences"], "every buffer content and length, every allocation failure",
  "malformed headers are an unbounded space",
  ["src/pomp_msg.c"],
  [("pomp_msg_new_with_buffer", "src/pomp_msg.c")],
  observe_at="result, message and reference count of the buffer")
p("P10", "The stream decoder recovers messages whatever the chunking",
  "Fed with a byte stream cut in any way, the protocol decoder delivers the same messages, with the id and exactly the bytes of the stream between header and end, as if the stream came in one piece. Each call consumes at least one and at most the given number of bytes, never reads past them, and returns at most one message, complete, that belongs to the caller.",
  ["inputs", "histories"], "every decoder state, chunk content and chunk size",
  "the number of ways to cut a stream is exponential, tests try a few chunk sizes",
  ["src/pomp_prot.c"],
  [("pomp_prot_decode_msg state machine", "src/pomp_prot.c")],
  state="struct pomp_prot", observe_at="messages and consumed counts returned by pomp_prot_decode_msg")
p("P11", "The stream decoder resynchronises after garbage and recovers from failures",
  "Bytes that are not part of a message are skipped and the next complete message in the stream is found, even when it directly follows a partial or repeated magic number; a header whose size is smaller than the header itself is rejected. After a failed allocation the decoder is ready for the next message, and nothing is leaked.",
  ["inputs", "fault_sequences"], "every byte sequence before a message, every decoder state, every allocation failure",
  "needs particular overlaps of garbage and magic, or a failure at a particular point",
  ["src/pomp_prot.c"],
  [("magic and header states", "src/pomp_prot.c pomp_prot_decode_msg")],
  state="struct pomp_prot", observe_at="decoder state and messages returned")
p("P12", "Formatted writes are the sequence of the corresponding typed writes",
  "For a printf-like format, each conversion specification with its length modifiers writes its argument exactly as the typed write of the corresponding type does, in order, independently of the specifications before it; unknown characters, unsupported modifiers, and %p without %u are refused, nothing being written for them. Formatted messages are finished with the given id only if everything was written.",
  ["inputs"], "every specification and modifier, argument value and encoder state, and consecutive specifications",
  "formats, modifiers and values combine; tests use one long fixed format",
  ["src/pomp_encoder.c", "src/pomp_msg.c"],
  [("pomp_encoder_writev", "src/pomp_encoder.c encoder_writev_internal"), ("pomp_msg_writev", "src/pomp_msg.c")],
  observe_at="message bytes and result")
p("P13", "Formatted reads match typed reads and release strings on error",
  "For a scanf-like format, each conversion specification reads one argument as the typed read of the corresponding type does and stores it with the right width in the given variable; an argument of another type, an unknown specification or a plain %s fails. When a formatted read fails, every string it had already allocated is freed exactly once and the corresponding variables are reset to null.",
  ["inputs", "fault_sequences"], "every specification and modifier, message content, decoder state, position of the failing argument and allocation failure",
  "failures at each argument position and over-wide stores are not sampled",
  ["src/pomp_decoder.c", "src/pomp_msg.c"],
  [("pomp_decoder_readv", "src/pomp_decoder.c"), ("pomp_msg_readv", "src/pomp_msg.c")],
  observe_at="stored values, memory around them, live allocations")
p("P14", "Writing arguments given as text is safe and equivalent to typed writes",
  "With arguments given as an array of strings, each one is converted and written as its specification says, a missing argument is an error and no element past the given count is accessed. For a blob given in hexadecimal the written bytes are those of the digits, and a string that is too short, or has another character than a digit, a blank or a sign where a byte begins, is refused. Nothing is read or written out of bounds or leaked, whatever the text.",
  ["inputs", "fault_sequences"], "every specification, argument count, hexadecimal text and declared length",
  "argument text is unbounded and errors need particular lengths",
  ["src/pomp_encoder.c"],
  [("pomp_encoder_write_argv", "src/pomp_encoder.c encoder_writev_internal"), ("hexadecimal parsing", "src/pomp_encoder.c parse_buffer_argv")],
  observe_at="message bytes, memory accesses, live allocations")
p("P15", "Dumping a message never overflows and is always terminated",
  "Dumping any message to a caller buffer of any size writes only inside it and leaves a null terminated text, with an ellipsis when it does not fit. The allocating variant gives the complete text of every argument, and when memory is short returns an error with no text and nothing leaked.",
  ["inputs", "fault_sequences"], "every payload, every destination size, every allocation failure",
  "truncation can happen inside each argument of each kind",
  ["src/pomp_decoder.c"],
  [("pomp_decoder_dump, pomp_decoder_adump", "src/pomp_decoder.c dump_append, decoder_dump")],
  observe_at="bytes around the destination, returned text, live allocations")
p("P16", "Addresses are parsed and formatted without overflow and as documented",
  "Parsing an address text accepts exactly the documented forms (inet:addr:port, inet6:addr:port, unix:path and @ for the abstract namespace), fails on anything else, never writes more than the given storage and gives the length of the structure. Formatting writes a terminated text inside the given size for every socket address, including unix paths without terminating null byte.",
  ["inputs"], "every text, every storage size, every socket address content and length",
  "buffer sizes and unterminated paths are not sampled",
  ["src/pomp_addr.c"],
  [("pomp_addr_parse", "src/pomp_addr.c"), ("pomp_addr_format", "src/pomp_addr.c"), ("pomp_addr_get_real_addr and others", "src/pomp_addr.c")],
  observe_at="memory accesses and results")
p("P17", "Sent messages leave in order, completely and once, whatever the socket accepts",
  "On a stream connection the bytes given to the socket are the concatenation of the messages in the order they were sent, with no loss, repetition or reordering, however the socket splits, delays or interrupts the writes; while data is queued new messages are queued behind it and write events are monitored, and monitoring stops when the queue is empty. File descriptors of a message are passed with its first bytes only.",
  ["inputs", "schedules", "fault_sequences"], "every result of each socket write (partial, refused, interrupted, error), with up to three queued buffers",
  "partial writes and wake ups at each point are decided by the kernel",
  ["src/pomp_conn.c"],
  [("pomp_conn_send_msg", "src/pomp_conn.c"), ("write queue", "src/pomp_conn.c pomp_conn_process_write, pomp_io_buffer")],
  state="write queue of struct pomp_conn", observe_at="data given to the socket, monitored events")
p("P18", "Every queued or sent message gets exactly one completion with the true outcome",
  "When a send callback is set, each message that the send function accepted is notified exactly once: as sent when its last byte was given to the socket, with an error if the socket failed, as aborted if the connection is closed with it still queued, and the last one is marked when the queue becomes empty. A message that the send function refused is not notified, and its buffer is released in all cases.",
  ["inputs", "fault_sequences", "histories"], "every socket result and every queue of up to three buffers at disconnection",
  "needs failures and disconnections with data in flight",
  ["src/pomp_conn.c"],
  [("pomp_conn_process_write, pomp_conn_disconnect", "src/pomp_conn.c"), ("pomp_ctx_notify_send", "src/pomp_ctx.c")],
  state="write queue of struct pomp_conn", observe_at="calls of the send callback, references of the buffers")
p("P19", "Received file descriptors go to exactly one owner",
  "Descriptors received with data are all either attached to the message they belong to, at the positions of its descriptor arguments and in order, or closed; none is leaked, attached twice, or closed while attached, including when the message is invalid, when there are more or fewer descriptors than arguments, and when the connection is closed.",
  ["inputs", "fault_sequences"], "every ancillary data with up to the supported number of descriptors and every message payload",
  "mismatches between announced and received descriptors are not produced by the library itself",
  ["src/pomp_conn.c"],
  [("ancillary data", "src/pomp_conn.c pomp_conn_recvmsg"), ("fixup", "src/pomp_conn.c fixup callback")],
  state="fds of struct pomp_conn", observe_at="calls to close, descriptors of the delivered message")
p("P20", "Connection notifications are balanced",
  "Each connection that is established is notified connected once, its messages are notified only between its connected and disconnected notifications, and it is notified disconnected exactly once when it is closed by either side or by stopping the context, after which its socket is closed, it is not monitored any more and its memory is released.",
  ["histories", "fault_sequences"], "every end of connection (peer, error, stop) from every connection state",
  "needs all combinations of origin and state",
  ["src/pomp_ctx.c", "src/pomp_conn.c"],
  [("pomp_conn_new/disconnect/destroy", "src/pomp_conn.c"), ("pomp_ctx_remove_conn, pomp_ctx_notify_event", "src/pomp_ctx.c")],
  state="connection list of struct pomp_ctx", observe_at="event callback calls, close calls")
p("P21", "A client keeps trying to connect until it succeeds or is stopped",
  "A client context whose connection attempt fails, or whose connection ends, always has exactly one retry pending until it is stopped, uses a new socket at each attempt and closes the failed one. Stopping removes pending attempts, timer and sockets.",
  ["fault_sequences", "histories"], "every failure of each system call of an attempt",
  "each system call failure needs to be injected",
  ["src/pomp_ctx.c"],
  [("client_start, client_complete_conn", "src/pomp_ctx.c"), ("reconnection timer", "src/pomp_ctx.c")],
  state="client part of struct pomp_ctx", observe_at="sockets opened and closed, timer settings")
p("P22", "Loop registrations: one per descriptor, exact events, nothing left behind",
  "Adding a descriptor to a loop registers it once with exactly the requested events, updating replaces its events or callback data only, and removing it makes it unknown again; adding one already present, or updating or removing an unknown one, fails and changes nothing. If the kernel refuses an operation or memory is short the loop is unchanged.",
  ["inputs", "histories", "fault_sequences"], "every descriptor, event mask and set of up to three registrations, every failure",
  "states, arguments and failures combine",
  ["src/pomp_loop.c", "src/pomp_loop_linux.c", "src/pomp_loop_posix.c"],
  [("pomp_loop_add/update/update2/remove/has_fd", "src/pomp_loop.c")],
  state="descriptor list of struct pomp_loop", observe_at="results, kernel registration, has_fd")
p("P23", "Loop dispatch calls the right callback with the right events",
  "For every set of ready descriptors reported by the system, the loop calls the callback of each registered ready one with exactly the events that are reported and its own user data, and does not touch a registration removed by an earlier callback of the same round. An interrupted wait is restarted, a timed out one is reported as such; the wait uses the timeout of the caller.",
  ["inputs", "schedules"], "every event mask of the system and every timeout, up to three ready descriptors",
  "which descriptors are ready together and removals during dispatch depend on timing",
  ["src/pomp_loop_linux.c", "src/pomp_loop_posix.c", "src/pomp_loop.c"],
  [("event conversion and dispatch", "src/pomp_loop_linux.c, src/pomp_loop_posix.c do_wait_and_process")],
  observe_at="callbacks called")
p("P24", "Idle functions run once, in order, unless removed",
  "Each function queued for idle execution is called exactly once with its argument, in the order of queueing, in the loop, and not inside the call that queues it; functions removed before (by function and argument, or by cookie) are not called. Functions queued by an idle function are run as well.",
  ["histories", "inputs"], "every queue of up to three entries, every function, argument and cookie",
  "removals and additions from callbacks combine",
  ["src/pomp_loop.c"],
  [("pomp_loop_idle_add/remove, idle dispatch", "src/pomp_loop.c")],
  state="idle list of struct pomp_loop", observe_at="functions called")
p("P25", "A signalled event runs its callback in its loop, a cleared one does not",
  "Signalling an event makes it readable until it is cleared or handled; clearing removes a pending signal and is not an error without one. An event attached to a loop has its callback called when it is signalled, can be attached only once, and cannot be destroyed while attached.",
  ["histories", "fault_sequences"], "every state of the event and result of the system calls",
  "failures and repeated signals are not sampled",
  ["src/pomp_evt.c", "src/pomp_evt_linux.c"],
  [("pomp_evt_signal/clear/attach/detach", "src/pomp_evt.c, src/pomp_evt_linux.c")],
  observe_at="system calls made and results")
p("P26", "Timers are armed with exactly the requested delay and period",
  "Setting a timer arms it with the delay in milliseconds, once or periodically with the given period, clearing it disarms it, and the conversion to seconds and nanoseconds is exact for every 32-bit value. Its callback is called once per expiration read, and creating or destroying it leaves no descriptor or registration behind, including on failures.",
  ["inputs", "fault_sequences"], "every 32-bit delay and period, every failure of a system call",
  "long delays and failures cannot be waited for",
  ["src/pomp_timer.c", "src/pomp_timer_linux.c"],
  [("pomp_timer_set/set_periodic/clear", "src/pomp_timer_linux.c")],
  observe_at="arguments of timerfd_settime, callbacks")
p("P27", "The Python implementation is wire compatible with the C library",
  "Messages encoded by the Python module are decoded by the C library to the same values and conversely.",
  ["programs"], "every format and value",
  "two implementations of one format have to agree on every value",
  ["python/pomp"],
  [("encoder and decoder", "python/pomp")])
p("P28", "Watchdog deadlines are computed exactly",
  "The absolute time at which the watchdog of a loop fires is the current time plus the delay in milliseconds, with a nanosecond field that is always valid, for every current time and delay.",
  ["inputs"], "every current time and 32-bit delay",
  "the carry of nanoseconds occurs for some instants only",
  ["src/pomp_watchdog.c"],
  [("get_absolute_timeout", "src/pomp_watchdog.c")],
  observe_at="deadline given to the condition variable")

if __name__ == "__main__":
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
