"""The obligations: which harness, which contract, for which properties."""


class Ob:
    def __init__(self, harness, entry, fn, props, dfcc=True, unwind=6, bound=24,
                 timeout=600, level="proof", flags=(), defs=(), tier="quick",
                 note="", unwindset=(), native=True, split=0, variant="", cost=10, noshift=False, modular=False, full=False, cadical=None, replace=(), stubs=(), soft=False):
        self.replace, self.stubs, self.soft = list(replace), list(stubs), soft
        self.split, self.cost, self.noshift, self.modular, self.full = split, cost, noshift, modular, full
        self.harness, self.entry, self.fn = harness, entry, fn
        self.cadical = modular if cadical is None else cadical
        self.id = "%s.%s%s" % (harness, entry[2:] if entry[:2] == "h_" else "lemma_" + entry[2:], "@" + variant if variant else "")
        self.props = props.split(",")
        self.dfcc, self.unwind, self.bound = dfcc, unwind, bound
        self.timeout, self.level = timeout, level
        self.flags, self.defs, self.tier = list(flags), list(defs) + (["-DVP_MODULAR_%sOK" % ("READ_" if harness == "decoder" else "")] if modular else []), tier
        self.note, self.unwindset, self.native = note, list(unwindset), native


OBS = []


def add(*a, **k):
    OBS.append(Ob(*a, **k))


def buf(entry, fn, props, **k):
    add("buffer", entry, fn, props, **k)


buf("h_write", "pomp_buffer_write", "P05,P06,P07")
buf("h_append_data", "pomp_buffer_append_data", "P05,P06,P07")
buf("h_append_buffer", "pomp_buffer_append_buffer", "P05,P06")
buf("h_ensure_capacity", "pomp_buffer_ensure_capacity", "P05,P06,P07")
buf("h_set_capacity", "pomp_buffer_set_capacity", "P05,P06,P07")
buf("h_set_len", "pomp_buffer_set_len", "P05,P06,P07", cost=120)
buf("h_clear", "pomp_buffer_clear", "P05,P06,P07")
buf("h_ref", "pomp_buffer_ref", "P05,P06,P07")
buf("h_unref", "pomp_buffer_unref", "P05,P06,P07")
buf("h_is_shared", "pomp_buffer_is_shared", "P06")
buf("h_new", "pomp_buffer_new", "P05")
buf("h_new_get_data", "pomp_buffer_new_get_data", "P05")
buf("h_new_with_data", "pomp_buffer_new_with_data", "P05")
buf("h_new_copy", "pomp_buffer_new_copy", "P05,P06,P07", variant="nofd", defs=["-DVP_FDCOUNT=0"], dfcc=False)
buf("h_new_copy", "pomp_buffer_new_copy", "P07", variant="2fd", defs=["-DVP_FDCOUNT=2", "-DVP_BOUND=8"], dfcc=False, cost=300,
    bound=8, level="bounded", note="exactly 2 file descriptors in a copied buffer of at most 8 bytes")
buf("h_new_copy", "pomp_buffer_new_copy", "P07", variant="2fd-any", defs=["-DVP_FDCOUNT=2"], dfcc=False, tier="thorough", timeout=6000)
buf("h_new_copy", "pomp_buffer_new_copy", "P07", variant="fds", dfcc=False, tier="thorough", timeout=6000)
buf("h_abs_write", "pomp_buffer_write", "P05,P10", dfcc=False)
buf("h_abs_ensure", "pomp_buffer_ensure_capacity", "P05,P10", dfcc=False)
buf("h_get_data", "pomp_buffer_get_data", "P05,P06")
buf("h_get_cdata", "pomp_buffer_get_cdata", "P05")
buf("h_read", "pomp_buffer_read", "P05")
buf("h_cread", "pomp_buffer_cread", "P05")
buf("h_write_fd", "pomp_buffer_write_fd", "P05,P06,P07", cost=60)
buf("h_read_fd", "pomp_buffer_read_fd", "P07", cost=50)
buf("h_register_fd", "pomp_buffer_register_fd", "P06,P07", cost=60)
buf("h_get_fd", "pomp_buffer_get_fd", "P07")


def enc(entry, props, **k):
    add("encoder", "h_" + entry, "pomp_encoder_" + k.pop("fn", "write_" + entry), props, **k)


for t in ("i8", "u8", "i16", "u16", "f32", "f64", "i32", "u32", "i64", "u64"):
    enc(t, "P01,P06,P08", cost=10, dfcc=False, defs=["-DVP_SMALL_COPIES=8"], unwind=12, noshift=t[0] == "i", modular=True, full=True)
enc("str", "P01,P04,P06,P08", dfcc=False, unwind=12, modular=True, full=True)
enc("buf", "P01,P04,P06,P08", dfcc=False, unwind=12, modular=True, full=True)
enc("fd", "P01,P06,P07,P08", cost=100, dfcc=False)
for t in ("init", "clear", "new", "destroy"):
    enc(t, "P01", fn=t)


def dec(entry, props, **k):
    add("decoder", "h_" + entry, "pomp_decoder_" + k.pop("fn", "read_" + entry), props, **k)


for t in ("i8", "u8", "i16", "u16", "f32", "f64", "i32", "u32", "i64", "u64"):
    dec(t, "P02,P03", unwind=12, dfcc=False, modular=True, full=True, defs=["-DVP_SMALL_COPIES=8"])
for t in ("str", "cstr", "buf", "cbuf"):
    dec(t, "P02,P03,P04", unwind=12, dfcc=False, modular=True, full=True, cost=40,
        replace=[] if t[0] == "c" else ["pomp_decoder_read_c" + t])
dec("fd", "P02,P03,P07", unwind=12, dfcc=False, modular=True, full=True, cost=20)
for t in ("init", "clear", "new", "destroy"):
    dec(t, "P02", fn=t)
for t in ("i8", "u8", "i16", "u16", "f32", "f64", "i32", "u32", "i64", "u64", "str", "buf"):
    add("decoder", "l_" + t, "", "P02,P04" if t in ("str", "buf") else "P02", dfcc=False, unwind=12, native=False)


def msg(entry, props, **k):
    add("msg", "h_" + entry, "pomp_msg_" + entry, props, **k)


msg("new", "P08")
msg("new_copy", "P08")
msg("new_with_buffer", "P09")
msg("destroy", "P08")
msg("clear", "P08")
msg("init", "P08")
msg("finish", "P06,P08", dfcc=False, modular=True, full=True)
msg("get_id", "P08")
msg("get_buffer", "P08")


def prot(entry, props, fn, **k):
    add("prot", "h_" + entry, "pomp_prot_" + fn, props, dfcc=False, modular=True,
        unwindset=["mk_prot.0:13", "mk_prot.1:13", "mk_prot.2:13", "prot_copy.0:13", "same.0:13",
                   "payload_header.0:13", "h_header.0:13", "h_header.1:13", "h_header.2:13"] +
        ["h_any.%d:15" % i for i in range(5)], **k)


prot("payload", "P10,P11", "decode_msg", unwind=3, cost=40)
for n in (0, 1, 2, 3, 12):
    prot("header", "P10,P11", "decode_msg", unwind=8, cost=100, variant="n%d" % n, defs=["-DVP_N=%d" % n])
prot("header", "P10,P11", "decode_msg", unwind=4, cost=100, variant="n4-11", defs=["-DVP_NMIN=4"])
prot("any", "P10,P11", "decode_msg", unwind=3, cost=100, variant="1", defs=["-DANY_MAX=1"])
prot("any", "P10,P11", "decode_msg", unwind=5, level="bounded", cost=200, variant="4", defs=["-DANY_MAX=4"],
     note="arbitrary data (garbage included) in chunks of at most 4 bytes, from every decoder state")
prot("new", "P10,P11", "new", unwind=3)
prot("destroy", "P10,P11", "destroy", unwind=6)
prot("release", "P10,P11", "release_msg", unwind=6)


WRITES = ["pomp_encoder_write_" + t for t in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "str", "buf", "f32", "f64", "fd")]


def fmt(entry, fn, props, **k):
    k.setdefault("stubs", WRITES)
    add("format", "h_" + entry, fn, props, dfcc=False, modular=True, full=True, soft=True, **k)


fmt("spec", "pomp_encoder_write", "P12", unwind=8, cost=50)
for n in range(7):
    fmt("pair", "pomp_encoder_write", "P12", unwind=8, cost=60, variant="%d" % n, defs=["-DVP_FIRST=%d" % n])
PREFIXES = [("none", ""), ("pc", "%"), ("l", "%l"), ("ll", "%ll"), ("h", "%h"), ("hh", "%hh"), ("p", "%p"), ("pp", "%p%")]
for n, x in PREFIXES:
    fmt("invalid", "pomp_encoder_write", "P12", unwind=257, flags=("--object-bits", "14"), cost=20, variant=n, defs=['-DVP_PREFIX="%s"' % x])
    fmt("invalid2", "pomp_encoder_write", "P12", unwind=257, flags=("--object-bits", "14"), cost=20, variant=n, defs=['-DVP_PREFIX="%s"' % x])
fmt("null", "pomp_encoder_write", "P12", unwind=9)
MSG = WRITES + ["pomp_msg_init", "pomp_msg_finish"]
fmt("msg", "pomp_msg_write", "P12", unwind=9, stubs=MSG)
fmt("msg", "pomp_msg_write", "P12", unwind=9, stubs=MSG, variant="bad", defs=["-DVP_BAD"])

AF = dict(unwind=32, cost=40, flags=("--object-bits", "12"))
fmt("argv", "pomp_encoder_write_argv", "P14", **AF)
fmt("argv", "pomp_encoder_write_argv", "P14", variant="null", defs=["-DVP_ARGV_NULL=1"], **AF)
fmt("argv2", "pomp_encoder_write_argv", "P14", **AF)
fmt("argv2", "pomp_encoder_write_argv", "P14", variant="2", defs=["-DVP_ARGC=2"], **AF)
fmt("argv2", "pomp_encoder_write_argv", "P14", variant="null", defs=["-DVP_ARGC=2", "-DVP_ARGV_NULL=1"], **AF)
fmt("argv2", "pomp_encoder_write_argv", "P14", variant="3", defs=["-DVP_ARGC=3"], **AF)
for n in (1, 2):
    fmt("blob", "pomp_encoder_write_argv", "P14", unwind=12, cost=60, level="bounded", variant="%d" % n, defs=["-DVP_ARGC=%d" % n], note="texts of at most 7 digits, any declared length")


def sys(entry, fn, props, **k):
    add("sys", "h_" + entry, fn, props, dfcc=False, **k)


INTR = "at most 2 interruptions of the system call"
sys("timer_new", "pomp_timer_new", "P26")
sys("timer_null", "pomp_timer_new", "P26")
for n in range(3):
    sys("timer_set", "pomp_timer_set", "P26", cadical=True, variant="%d" % n, defs=["-DHOW=%d" % n], cost=200)
sys("timer_expire", "pomp_timer_fd_cb", "P26", level="bounded", note=INTR)
sys("timer_posix_set", "pomp_timer_posix_set", "P26", cadical=True)
sys("evt_new", "pomp_evt_new", "P25")
sys("evt_signal", "pomp_evt_signal", "P25", level="bounded", note=INTR)
sys("evt_clear", "pomp_evt_clear", "P25", level="bounded", note=INTR)
sys("evt_run", "pomp_evt_fd_cb", "P25", level="bounded", note=INTR)
sys("evt_attach", "pomp_evt_attach_to_loop", "P25")
sys("evt_destroy", "pomp_evt_destroy", "P25")
sys("wd_enter", "pomp_watchdog_enter", "P28", defs=["-DWD_EXACT"], cost=100, cadical=True)
sys("wd_start", "pomp_watchdog_start", "P28", cadical=True, defs=["-DWD_EXACT"], cost=100)
sys("wd_start", "pomp_watchdog_start", "P28", cadical=True, variant="again", defs=["-DWD_EXACT", "-DWD_AGAIN"], cost=100)
sys("wd_late", "pomp_watchdog_thread_cb", "P28", cadical=True)
sys("wd_thread", "pomp_watchdog_thread_cb", "P28", cadical=True, level="bounded", note="at most 3 waits of the thread")


def loop(entry, fn, props, **k):
    k.setdefault("note", "3 registrations, 4 descriptor numbers (two in the same list)")
    add("loop", "h_" + entry, fn, props, dfcc=False, level="bounded", **k)


for n, f in enumerate(("add", "update", "update2", "remove")):
    loop("regs", "pomp_loop_" + f, "P22", variant=f, defs=["-DOP=%d" % n], cost=40)
loop("new", "pomp_loop_new", "P22", unwind=130)
loop("dispatch", "pomp_loop_epoll_do_wait_and_process", "P23", cost=40, note="3 ready descriptors, 2 interruptions")
loop("wakeup", "pomp_loop_wakeup", "P23", note="one call")
for n, f in enumerate(("pomp_idle_evt_cb", "pomp_loop_idle_remove", "pomp_loop_idle_remove_by_cookie", "pomp_loop_idle_flush", "pomp_loop_idle_flush_by_cookie")):
    loop("idle", f, "P24", variant="%d" % n, defs=["-DIDLE=%d" % n], unwind=8, cost=40, note="3 entries, one action of a callback")
