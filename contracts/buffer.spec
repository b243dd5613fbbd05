# Contracts of src/pomp_buffer.c
#
# vp_env.k is an arbitrary index and vp_env.kbyte the byte of the buffer there
# before the call: as both are arbitrary, what is stated for them holds for
# every byte. vp_env.fd is an arbitrary descriptor number; vp_fd_balance says
# that it was neither lost nor closed twice (see include/vp_buf.h).

contract int pomp_buffer_write(struct pomp_buffer *buf, size_t *pos, const void *p, size_t n)
  requires buf == NULL || (vp_buf_ok(buf) && vp_kb(buf))
  requires pos == NULL || VP_RW(pos, sizeof(*pos))
  requires p == NULL || VP_R(p, n)
  assigns buf != NULL: *buf; pos != NULL: *pos
  assigns buf != NULL && buf->data != NULL: __CPROVER_object_whole(buf->data)
  frees buf != NULL: buf->data
  ensures P05 einval: IMP(buf == NULL || pos == NULL || p == NULL, ret == -EINVAL)
  ensures P06 shared: IMP(buf != NULL && pos != NULL && p != NULL && old(buf->refcount) > 1, ret == -EPERM)
  ensures P05 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P05 succeeds: IMP(buf != NULL && pos != NULL && p != NULL && old(buf->refcount) == 1 && n <= SIZE_MAX - old(*pos)
        && (old(*pos) + n <= old(buf->capacity) || (!vp_env.alloc_failed && old(*pos) + n <= VP_MAX_ALLOC - 256)), ret == 0)
  ensures P05,P06 inv: buf == NULL || vp_buf_post(buf)
  ensures P05 ok_pos: IMP(ret == 0, *pos == old(*pos) + n && *pos >= old(*pos))
  ensures P05 ok_len: IMP(ret == 0, buf->len == (*pos > old(buf->len) ? *pos : old(buf->len)))
  ensures P05 ok_written: IMP(ret == 0 && vp_env.k >= old(*pos) && vp_env.k < *pos, buf->data[vp_env.k] == ((const uint8_t *)p)[vp_env.k - old(*pos)])
  ensures P05 ok_others: IMP(ret == 0 && vp_env.k < old(buf->len) && !(vp_env.k >= old(*pos) && vp_env.k < *pos), buf->data[vp_env.k] == vp_env.kbyte)
  ensures P05,P06 err_pos: IMP(ret < 0 && pos != NULL, *pos == old(*pos))
  ensures P05,P06 err_len: IMP(ret < 0 && buf != NULL, buf->len == old(buf->len))
  ensures P05,P06 err_bytes: IMP(ret < 0 && buf != NULL && vp_env.k < buf->len, buf->data[vp_env.k] == vp_env.kbyte)
  ensures P06 shared_same: IMP(ret == -EPERM && buf != NULL, buf->capacity == old(buf->capacity) && buf->data == old(buf->data))
  ensures P06,P07 meta: buf == NULL || (buf->refcount == old(buf->refcount) && buf->fdcount == old(buf->fdcount))
  ensures P07 slots: buf == NULL || vp_slots_same(buf)
  ensures P05 mem: vp_env.live == old(vp_env.live) + (ret == 0 && buf->data != NULL && old(buf->data) == NULL)

contract int pomp_buffer_append_data(struct pomp_buffer *buf, const void *data, size_t len)
  requires buf == NULL || (vp_buf_ok(buf) && vp_kb(buf))
  requires data == NULL || VP_R(data, len)
  assigns buf != NULL: *buf
  assigns buf != NULL && buf->data != NULL: __CPROVER_object_whole(buf->data)
  frees buf != NULL: buf->data
  ensures P05 einval: IMP(buf == NULL || data == NULL, ret == -EINVAL)
  ensures P06 shared: IMP(buf != NULL && data != NULL && old(buf->refcount) > 1, ret == -EPERM)
  ensures P05 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P05 succeeds: IMP(buf != NULL && data != NULL && old(buf->refcount) == 1 && !vp_env.alloc_failed && len <= VP_MAX_ALLOC / 4 && old(buf->len) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P05,P06 inv: buf == NULL || vp_buf_post(buf)
  ensures P05 ok_len: IMP(ret == 0, buf->len == old(buf->len) + len && buf->len >= old(buf->len))
  ensures P05 ok_written: IMP(ret == 0 && vp_env.k >= old(buf->len) && vp_env.k < buf->len, buf->data[vp_env.k] == ((const uint8_t *)data)[vp_env.k - old(buf->len)])
  ensures P05 ok_others: IMP(ret == 0 && vp_env.k < old(buf->len), buf->data[vp_env.k] == vp_env.kbyte)
  ensures P05,P06 err_len: IMP(ret < 0 && buf != NULL, buf->len == old(buf->len))
  ensures P05,P06 err_bytes: IMP(ret < 0 && buf != NULL && vp_env.k < buf->len, buf->data[vp_env.k] == vp_env.kbyte)
  ensures P06 shared_same: IMP(ret == -EPERM && buf != NULL, buf->capacity == old(buf->capacity) && buf->data == old(buf->data))
  ensures P06,P07 meta: buf == NULL || (buf->refcount == old(buf->refcount) && buf->fdcount == old(buf->fdcount))

contract int pomp_buffer_append_buffer(struct pomp_buffer *buf, struct pomp_buffer *src)
  requires buf == NULL || (vp_buf_ok(buf) && vp_kb(buf))
  requires src == NULL || vp_buf_ok(src)
  assigns buf != NULL: *buf
  assigns buf != NULL && buf->data != NULL: __CPROVER_object_whole(buf->data)
  frees buf != NULL: buf->data
  ensures P05 einval: IMP(buf == NULL || src == NULL, ret == -EINVAL)
  ensures P06 shared: IMP(buf != NULL && src != NULL && old(buf->refcount) > 1 && old(src->len) > 0, ret == -EPERM)
  ensures P05 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P05 succeeds: IMP(buf != NULL && src != NULL && old(buf->refcount) == 1 && !vp_env.alloc_failed && old(src->len) <= VP_MAX_ALLOC / 4 && old(buf->len) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P05,P06 inv: buf == NULL || vp_buf_post(buf)
  ensures P05 ok_len: IMP(ret == 0, buf->len == old(buf->len) + old(src->len))
  ensures P05 ok_written: IMP(ret == 0 && vp_env.k >= old(buf->len) && vp_env.k < buf->len, buf->data[vp_env.k] == src->data[vp_env.k - old(buf->len)])
  ensures P05 ok_others: IMP(ret == 0 && vp_env.k < old(buf->len), buf->data[vp_env.k] == vp_env.kbyte)
  ensures P05,P06 err_len: IMP(ret < 0 && buf != NULL, buf->len == old(buf->len))
  ensures P05,P06 err_bytes: IMP(ret < 0 && buf != NULL && vp_env.k < buf->len, buf->data[vp_env.k] == vp_env.kbyte)
  ensures P06 shared_same: IMP(ret == -EPERM && buf != NULL, buf->capacity == old(buf->capacity) && buf->data == old(buf->data))
  ensures P05 src_same: src == NULL || src == buf || (src->len == old(src->len) && src->data == old(src->data) && src->refcount == old(src->refcount))

contract int pomp_buffer_ensure_capacity(struct pomp_buffer *buf, size_t capacity)
  requires buf == NULL || (vp_buf_ok(buf) && vp_kb(buf))
  assigns buf != NULL: *buf
  frees buf != NULL: buf->data
  ensures P05 einval: IMP(buf == NULL, ret == -EINVAL)
  ensures P06 shared: IMP(buf != NULL && old(buf->refcount) > 1, ret == -EPERM)
  ensures P05 result: IMP(buf != NULL && old(buf->refcount) == 1, ret == 0 || ret == -ENOMEM)
  ensures P05 succeeds: IMP(buf != NULL && old(buf->refcount) == 1 && (capacity <= old(buf->capacity) || (!vp_env.alloc_failed && capacity <= VP_MAX_ALLOC - 256)), ret == 0)
  ensures P05,P06 inv: buf == NULL || vp_buf_post(buf)
  ensures P05 ok: IMP(ret == 0, buf->capacity >= capacity && buf->capacity >= old(buf->capacity))
  ensures P05,P06 len: buf == NULL || buf->len == old(buf->len)
  ensures P05,P06 bytes: buf == NULL || vp_kb(buf)
  ensures P05,P06 err_same: IMP(ret < 0 && buf != NULL, buf->capacity == old(buf->capacity) && buf->data == old(buf->data))
  ensures P06,P07 meta: buf == NULL || (buf->refcount == old(buf->refcount) && buf->fdcount == old(buf->fdcount))

contract int pomp_buffer_set_capacity(struct pomp_buffer *buf, size_t capacity)
  requires buf == NULL || (vp_buf_ok(buf) && vp_kb(buf))
  assigns buf != NULL: *buf
  frees buf != NULL: buf->data
  ensures P05 einval: IMP(buf == NULL, ret == -EINVAL)
  ensures P05 einval_small: IMP(buf != NULL && old(buf->len) > capacity, ret == -EINVAL || ret == -EPERM)
  ensures P06 shared: IMP(buf != NULL && old(buf->refcount) > 1, ret == -EPERM || (ret == -EINVAL && old(buf->len) > capacity))
  ensures P05 succeeds: IMP(buf != NULL && old(buf->refcount) == 1 && old(buf->len) <= capacity && !vp_env.alloc_failed && capacity <= VP_MAX_ALLOC, ret == 0)
  ensures P05 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P05,P06 inv: buf == NULL || vp_buf_post(buf)
  ensures P05 ok: IMP(ret == 0, buf->capacity == capacity)
  ensures P05,P06 len: buf == NULL || buf->len == old(buf->len)
  ensures P05,P06 bytes: buf == NULL || vp_kb(buf)
  ensures P05,P06 err_same: IMP(ret < 0 && buf != NULL, buf->capacity == old(buf->capacity) && buf->data == old(buf->data))
  ensures P06,P07 meta: buf == NULL || (buf->refcount == old(buf->refcount) && buf->fdcount == old(buf->fdcount))

contract int pomp_buffer_set_len(struct pomp_buffer *buf, size_t len)
  requires buf == NULL || (vp_buf_ok(buf) && vp_kb(buf))
  assigns buf != NULL: *buf
  ensures P05 einval: IMP(buf == NULL, ret == -EINVAL)
  ensures P05 einval_big: IMP(buf != NULL && old(buf->capacity) < len, ret == -EINVAL || ret == -EPERM)
  ensures P06 shared: IMP(buf != NULL && old(buf->refcount) > 1, ret == -EPERM || (ret == -EINVAL && old(buf->capacity) < len))
  ensures P05 succeeds: IMP(buf != NULL && old(buf->refcount) == 1 && len <= old(buf->capacity), ret == 0)
  ensures P05 result: ret == 0 || ret == -EINVAL || ret == -EPERM
  ensures P05,P06,P07 inv: buf == NULL || vp_buf_post(buf)
  ensures P05 ok: IMP(ret == 0, buf->len == len)
  ensures P05,P07 bytes: IMP(buf != NULL && vp_env.k < old(buf->len) && vp_env.k < buf->len, buf->data[vp_env.k] == vp_env.kbyte)
  ensures P05 cap: buf == NULL || (buf->capacity == old(buf->capacity) && buf->data == old(buf->data) && buf->refcount == old(buf->refcount))
  ensures P05,P06 err_same: IMP(ret < 0 && buf != NULL, buf->len == old(buf->len) && buf->fdcount == old(buf->fdcount))
  ensures P06,P07 err_noclose: IMP(ret < 0, vp_env.fd_closes == old(vp_env.fd_closes))
  ensures P07 balance: vp_fd_balance(buf)
  ensures P07 kept: IMP(ret == 0 && vp_env.fd_owns0 && vp_env.fd_off <= len && len - vp_env.fd_off >= 4, vp_buf_keeps(buf))
  ensures P07 nonew: buf == NULL || vp_slots_old(buf)

contract int pomp_buffer_clear(struct pomp_buffer *buf)
  requires buf == NULL || (vp_buf_ok(buf) && vp_kb(buf))
  assigns buf != NULL: *buf
  frees buf != NULL: buf->data
  ensures P05 einval: IMP(buf == NULL, ret == -EINVAL)
  ensures P06 shared: IMP(buf != NULL && old(buf->refcount) > 1, ret == -EPERM)
  ensures P05 succeeds: IMP(buf != NULL && old(buf->refcount) == 1, ret == 0)
  ensures P05,P06,P07 inv: buf == NULL || vp_buf_post(buf)
  ensures P05 ok: IMP(ret == 0, buf->len == 0 && buf->capacity == 0 && buf->data == NULL && buf->fdcount == 0)
  ensures P05,P06 err_same: IMP(ret < 0 && buf != NULL, buf->len == old(buf->len) && buf->fdcount == old(buf->fdcount) && vp_kb(buf))
  ensures P06,P07 err_noclose: IMP(ret < 0, vp_env.fd_closes == old(vp_env.fd_closes))
  ensures P07 balance: vp_fd_balance(buf)
  ensures P05,P07 ref: buf == NULL || buf->refcount == old(buf->refcount)
  ensures P05 mem: vp_env.live == old(vp_env.live) - (ret == 0 && old(buf->data) != NULL)

contract void pomp_buffer_ref(struct pomp_buffer *buf)
  requires vp_buf_ok(buf) && buf->refcount < UINT32_MAX
  assigns buf->refcount
  ensures P06,P07 count: buf->refcount == old(buf->refcount) + 1
  ensures P05 inv: vp_buf_post(buf)

contract void pomp_buffer_unref(struct pomp_buffer *buf)
  requires vp_buf_ok(buf) && vp_kb(buf)
  assigns *buf
  frees buf, buf->data
  ensures P06,P07 count: IMP(old(buf->refcount) > 1, buf->refcount == old(buf->refcount) - 1 && vp_buf_post(buf) && vp_kb(buf))
  ensures P07 closed: IMP(old(buf->refcount) == 1, !vp_env.fd_err && vp_env.fd_open == vp_env.fd_open0 - vp_env.fd_owns0)
  ensures P07 notclosed: IMP(old(buf->refcount) > 1, vp_env.fd_closes == old(vp_env.fd_closes) && buf->fdcount == old(buf->fdcount))
  ensures P05,P06 freed: vp_env.live == old(vp_env.live) - (old(buf->refcount) > 1 ? 0 : 1 + (old(buf->data) != NULL))

contract int pomp_buffer_is_shared(const struct pomp_buffer *buf)
  requires buf == NULL || vp_buf_ok(buf)
  ensures P06 result: (ret != 0) == (buf != NULL && buf->refcount > 1)

contract struct pomp_buffer *pomp_buffer_new(size_t capacity)
  ensures P05 nomem: IMP(ret == NULL, vp_env.alloc_failed && vp_env.live == old(vp_env.live))
  ensures P05 ok: IMP(ret != NULL, vp_buf_post(ret) && ret->refcount == 1 && ret->len == 0 && ret->capacity == capacity && ret->fdcount == 0)
  ensures P05 mem: IMP(ret != NULL, vp_env.live == old(vp_env.live) + 1 + (capacity != 0))

contract struct pomp_buffer *pomp_buffer_new_get_data(size_t capacity, void **data)
  requires data == NULL || VP_RW(data, sizeof(*data))
  assigns data != NULL: *data
  ensures P05 nomem: IMP(ret == NULL, vp_env.alloc_failed && vp_env.live == old(vp_env.live))
  ensures P05 ok: IMP(ret != NULL, vp_buf_post(ret) && ret->refcount == 1 && ret->len == 0 && ret->capacity == capacity && ret->fdcount == 0)
  ensures P05 data: IMP(ret != NULL && data != NULL, *data == ret->data)

contract struct pomp_buffer *pomp_buffer_new_with_data(const void *data, size_t len)
  requires VP_R(data, len) || len == 0
  ensures P05 nomem: IMP(ret == NULL, vp_env.alloc_failed && vp_env.live == old(vp_env.live))
  ensures P05 ok: IMP(ret != NULL, vp_buf_post(ret) && ret->refcount == 1 && ret->len == len && ret->fdcount == 0)
  ensures P05 bytes: IMP(ret != NULL && vp_env.k < len, ret->data[vp_env.k] == ((const uint8_t *)data)[vp_env.k])

contract struct pomp_buffer *pomp_buffer_new_copy(const struct pomp_buffer *buf)
  requires buf == NULL || (vp_buf_ok(buf) && vp_kb(buf))
  ensures P05 einval: IMP(buf == NULL, ret == NULL)
  ensures P05 mem: IMP(ret == NULL, vp_env.live == old(vp_env.live))
  ensures P05 succeeds: IMP(buf != NULL && !vp_env.alloc_failed && buf->len <= VP_MAX_ALLOC && buf->fdcount == 0, ret != NULL)
  ensures P07 succeeds_fd: IMP(ret == NULL && buf != NULL && !vp_env.alloc_failed && buf->len <= VP_MAX_ALLOC && vp_all_fds_valid(buf), vp_env.fd_dup_failed)
  ensures P05,P06,P07 ok: IMP(ret != NULL, vp_buf_post(ret) && ret != buf && ret->refcount == 1 && ret->len == buf->len && ret->fdcount == buf->fdcount && (ret->data != buf->data || buf->data == NULL))
  ensures P05,P07 bytes: IMP(ret != NULL && vp_env.k < ret->len && !vp_k_in_slot(buf, vp_env.k), ret->data[vp_env.k] == vp_env.kbyte)
  ensures P07 offs: IMP(ret != NULL, vp_slots_same(ret))
  ensures P07 dups: IMP(ret != NULL, vp_env.fd_dups == old(vp_env.fd_dups) + (int)buf->fdcount && vp_env.fd_closes == old(vp_env.fd_closes))
  ensures P07 errs: !vp_env.fd_err
  ensures P07 src: IMP(buf != NULL, vp_slots_same(buf) && vp_buf_keeps(buf) == vp_env.fd_owns0)
  ensures P07 keepsopen: IMP(vp_env.fd_open0, vp_env.fd_open)
  ensures P07 fail: IMP(ret == NULL, vp_env.fd_open == vp_env.fd_open0)
  ensures P07 owns: IMP(ret != NULL && vp_env.i < ret->fdcount, (vp_slot(ret, ret->fdoffs[vp_env.i]) != vp_env.fd || !vp_env.fd_open0) && IMP(vp_slot(ret, ret->fdoffs[vp_env.i]) == vp_env.fd, vp_env.fd_open))
  ensures P07 noleak: IMP(ret != NULL && vp_env.fd_open && !vp_env.fd_open0, vp_buf_has(ret))

contract int pomp_buffer_get_data(const struct pomp_buffer *buf, void **data, size_t *len, size_t *capacity)
  requires buf == NULL || vp_buf_ok(buf)
  assigns data != NULL: *data; len != NULL: *len; capacity != NULL: *capacity
  ensures P05 einval: IMP(buf == NULL, ret == -EINVAL)
  ensures P06 shared: IMP(buf != NULL && buf->refcount > 1, ret == -EPERM)
  ensures P05 succeeds: IMP(buf != NULL && buf->refcount == 1, ret == 0)
  ensures P05 values: IMP(ret == 0, IMP(data != NULL, *data == buf->data) && IMP(len != NULL, *len == buf->len) && IMP(capacity != NULL, *capacity == buf->capacity))
  ensures P06 err_same: IMP(ret < 0, IMP(data != NULL, *data == old(*data)))

contract int pomp_buffer_get_cdata(const struct pomp_buffer *buf, const void **cdata, size_t *len, size_t *capacity)
  requires buf == NULL || vp_buf_ok(buf)
  assigns cdata != NULL: *cdata; len != NULL: *len; capacity != NULL: *capacity
  ensures P05 einval: IMP(buf == NULL, ret == -EINVAL)
  ensures P05 succeeds: IMP(buf != NULL, ret == 0)
  ensures P05 values: IMP(ret == 0, IMP(cdata != NULL, *cdata == buf->data) && IMP(len != NULL, *len == buf->len) && IMP(capacity != NULL, *capacity == buf->capacity))

contract int pomp_buffer_read(const struct pomp_buffer *buf, size_t *pos, void *p, size_t n)
  requires buf == NULL || vp_buf_ok(buf)
  requires pos == NULL || VP_RW(pos, sizeof(*pos))
  requires p == NULL || VP_RW(p, n)
  assigns pos != NULL: *pos
  assigns p != NULL: __CPROVER_object_whole(p)
  ensures P05 einval: IMP(buf == NULL || pos == NULL || p == NULL, ret == -EINVAL)
  ensures P05 bounds: IMP(buf != NULL && pos != NULL && p != NULL, ret == (old(*pos) <= buf->len && n <= buf->len - old(*pos) ? 0 : -EINVAL))
  ensures P05 ok_pos: IMP(ret == 0, *pos == old(*pos) + n)
  ensures P05 ok_bytes: IMP(ret == 0 && vp_env.k < n, ((uint8_t *)p)[vp_env.k] == buf->data[old(*pos) + vp_env.k])
  ensures P05 err_pos: IMP(ret < 0 && pos != NULL, *pos == old(*pos))

contract int pomp_buffer_cread(const struct pomp_buffer *buf, size_t *pos, const void **p, size_t n)
  requires buf == NULL || vp_buf_ok(buf)
  requires pos == NULL || VP_RW(pos, sizeof(*pos))
  requires p == NULL || VP_RW(p, sizeof(*p))
  assigns pos != NULL: *pos; p != NULL: *p
  ensures P05 einval: IMP(buf == NULL || pos == NULL || p == NULL, ret == -EINVAL)
  ensures P05 bounds: IMP(buf != NULL && pos != NULL && p != NULL, ret == (old(*pos) <= buf->len && n <= buf->len - old(*pos) ? 0 : -EINVAL))
  ensures P05 ok: IMP(ret == 0, *pos == old(*pos) + n && (const uint8_t *)*p == buf->data + old(*pos))
  ensures P05 err_pos: IMP(ret < 0 && pos != NULL, *pos == old(*pos))
  ensures P05 err_p: IMP(ret < 0 && p != NULL, *p == old(*p))

contract int pomp_buffer_write_fd(struct pomp_buffer *buf, size_t *pos, int fd)
  requires buf == NULL || (vp_buf_ok(buf) && vp_kb(buf))
  requires buf == NULL || pos == NULL || vp_slot_free(buf, *pos)
  requires pos == NULL || VP_RW(pos, sizeof(*pos))
  assigns buf != NULL: *buf; pos != NULL: *pos
  assigns buf != NULL && buf->data != NULL: __CPROVER_object_whole(buf->data)
  frees buf != NULL: buf->data
  ensures P07 einval: IMP(buf == NULL || pos == NULL, ret == -EINVAL)
  ensures P06 shared: IMP(buf != NULL && pos != NULL && old(buf->refcount) > 1, ret == -EPERM)
  ensures P07 badfd: IMP(fd < 0, ret < 0)
  ensures P07 toomany: IMP(buf != NULL && pos != NULL && fd >= 0 && old(buf->refcount) == 1 && old(buf->fdcount) == 4, ret == -ENFILE)
  ensures P07 succeeds: IMP(ret < 0 && buf != NULL && pos != NULL && fd >= 0 && old(buf->refcount) == 1 && old(buf->fdcount) < 4 && vp_env.fd_dups != old(vp_env.fd_dups) && old(*pos) < VP_MAX_ALLOC / 4, vp_env.alloc_failed)
  ensures P07 inv: buf == NULL || vp_buf_post(buf)
  ensures P05,P07 ok_pos: IMP(ret == 0, *pos == old(*pos) + 4 && buf->len == (*pos > old(buf->len) ? *pos : old(buf->len)))
  ensures P07 ok_slot: IMP(ret == 0, buf->fdcount == old(buf->fdcount) + 1 && buf->fdoffs[old(buf->fdcount) & 3] == old(*pos))
  ensures P07 ok_dup: IMP(ret == 0, vp_env.fd_dup_src == fd && vp_slot(buf, old(*pos)) == vp_env.fd_dup_dst && vp_env.fd_dups == old(vp_env.fd_dups) + 1)
  ensures P05,P07 ok_others: IMP(ret == 0 && vp_env.k < old(buf->len) && !(vp_env.k >= old(*pos) && vp_env.k < *pos), buf->data[vp_env.k] == vp_env.kbyte)
  ensures P05,P06,P07 err: IMP(ret < 0, IMP(pos != NULL, *pos == old(*pos)) && IMP(buf != NULL, buf->len == old(buf->len) && buf->fdcount == old(buf->fdcount) && vp_kb(buf)))
  ensures P07 err_balance: IMP(ret < 0, vp_fd_balance(buf))
  ensures P07 mine: !vp_env.fd_err && IMP(vp_env.fd_open0, vp_env.fd_open) && vp_env.fd_closes == old(vp_env.fd_closes) + (ret < 0 && vp_env.fd_dups != old(vp_env.fd_dups))
  ensures P07 owns: IMP(ret == 0 && vp_env.fd_open && !vp_env.fd_open0, vp_env.fd_dup_dst == vp_env.fd)
  ensures P07 others: IMP(ret == 0, vp_env.i == old(buf->fdcount) || vp_slots_old(buf)) && IMP(ret < 0 && buf != NULL, vp_slots_same(buf))

contract int pomp_buffer_read_fd(const struct pomp_buffer *buf, size_t *pos, int *fd)
  requires buf == NULL || vp_buf_ok(buf)
  requires pos == NULL || VP_RW(pos, sizeof(*pos))
  requires fd == NULL || VP_RW(fd, sizeof(*fd))
  assigns pos != NULL: *pos; fd != NULL: *fd
  ensures P07 einval: IMP(buf == NULL || pos == NULL || fd == NULL, ret == -EINVAL)
  ensures P07 only_slots: IMP(ret == 0, vp_is_slot(buf, old(*pos)) && *fd == vp_slot(buf, old(*pos)) && *fd >= 0)
  ensures P07 succeeds: IMP(buf != NULL && pos != NULL && fd != NULL && vp_is_slot(buf, old(*pos)) && vp_slot(buf, old(*pos)) >= 0, ret == 0)
  ensures P07 ok_pos: IMP(ret == 0, *pos == old(*pos) + 4)
  ensures P07 err_pos: IMP(ret < 0 && pos != NULL, *pos == old(*pos))
  ensures P07 keeps: vp_env.fd_closes == old(vp_env.fd_closes) && vp_env.fd_dups == old(vp_env.fd_dups)
  ensures P07 result: ret <= 0

contract int pomp_buffer_register_fd(struct pomp_buffer *buf, size_t off, int fd)
  requires buf == NULL || (vp_buf_ok(buf) && vp_kb(buf) && vp_slot_free(buf, off))
  assigns buf != NULL: *buf
  assigns buf != NULL && buf->data != NULL: __CPROVER_object_whole(buf->data)
  ensures P07 einval: IMP(buf == NULL, ret == -EINVAL)
  ensures P06 shared: IMP(buf != NULL && old(buf->refcount) > 1, ret == -EPERM)
  ensures P07 inv: buf == NULL || vp_buf_post(buf)
  ensures P07 iff: IMP(buf != NULL && old(buf->refcount) == 1, (ret == 0) == (vp_slot_in(buf, off) && old(buf->fdcount) < 4))
  ensures P07 ok: IMP(ret == 0, buf->fdcount == old(buf->fdcount) + 1 && buf->fdoffs[old(buf->fdcount) & 3] == off && vp_slot(buf, off) == fd)
  ensures P06,P07 others: IMP(buf != NULL, buf->len == old(buf->len) && buf->refcount == old(buf->refcount) && IMP(vp_env.k < buf->len && !(ret == 0 && vp_env.k >= off && vp_env.k - off < 4), buf->data[vp_env.k] == vp_env.kbyte))
  ensures P06,P07 err: IMP(ret < 0 && buf != NULL, buf->fdcount == old(buf->fdcount))
  ensures P07 owns: IMP(buf != NULL, vp_buf_keeps(buf) == vp_env.fd_owns0)
  ensures P07 noclose: vp_env.fd_closes == old(vp_env.fd_closes) && vp_env.fd_open == vp_env.fd_open0

contract int pomp_buffer_get_fd(const struct pomp_buffer *buf, size_t off)
  requires buf == NULL || vp_buf_ok(buf)
  ensures P07 einval: IMP(buf == NULL || !vp_slot_in(buf, off), ret == -EINVAL)
  ensures P07 value: IMP(buf != NULL && vp_slot_in(buf, off), ret == vp_slot(buf, off))
