# Contracts of src/pomp_msg.c

contract struct pomp_msg *pomp_msg_new(void)
  ensures P08 new: (ret == NULL) == vp_env.alloc_failed
  ensures P08 empty: IMP(ret != NULL, VP_RW(ret, sizeof(*ret)) && ret->buf == NULL && ret->msgid == 0 && !ret->finished && vp_env.live == old(vp_env.live) + 1)
  ensures P08 nomem: IMP(ret == NULL, vp_env.live == old(vp_env.live))

contract struct pomp_msg *pomp_msg_new_copy(const struct pomp_msg *msg)
  requires msg == NULL || (vp_msg_ok(msg) && vp_msg_kb(msg))
  ensures P08 iff: (ret != NULL) == (msg != NULL && !vp_env.alloc_failed)
  ensures P08 same: IMP(ret != NULL, VP_RW(ret, sizeof(*ret)) && ret->msgid == msg->msgid && !ret->finished == !msg->finished && (ret->buf == NULL) == (msg->buf == NULL))
  ensures P08 content: IMP(ret != NULL && ret->buf != NULL, vp_buf_mem(ret->buf) && ret->buf != msg->buf && ret->buf->refcount == 1 && ret->buf->len == msg->buf->len && vp_kb(ret->buf))
  ensures P08 separate: IMP(ret != NULL && ret->buf != NULL && ret->buf->data != NULL, ret->buf->data != msg->buf->data)
  ensures P08 source: IMP(msg != NULL && msg->buf != NULL, msg->buf->len == old(msg->buf->len) && msg->buf->refcount == old(msg->buf->refcount) && vp_kb(msg->buf))
  ensures P08 noleak: IMP(ret == NULL, vp_env.live == old(vp_env.live))

contract struct pomp_msg *pomp_msg_new_with_buffer(struct pomp_buffer *buf)
  requires buf == NULL || (vp_buf_ok(buf) && vp_kb(buf))
  assigns buf != NULL: buf->refcount
  ensures P09 iff: (ret != NULL) == (vp_header_ok(buf) && !vp_env.alloc_failed)
  ensures P09 msg: IMP(ret != NULL, VP_RW(ret, sizeof(*ret)) && ret->msgid == vp_le32(buf, 4) && ret->finished && ret->buf == buf && buf->refcount == old(buf->refcount) + 1 && vp_env.live == old(vp_env.live) + 1)
  ensures P09 error: IMP(ret == NULL, vp_env.live == old(vp_env.live) && IMP(buf != NULL, buf->refcount == old(buf->refcount)))
  ensures P09 content: IMP(buf != NULL, buf->len == old(buf->len) && buf->data == old(buf->data) && buf->capacity == old(buf->capacity) && vp_kb(buf))

contract int pomp_msg_destroy(struct pomp_msg *msg)
  requires msg == NULL || vp_msg_ok(msg)
  assigns msg != NULL: *msg
  assigns msg != NULL && msg->buf != NULL: *(msg->buf)
  assigns msg != NULL && msg->buf != NULL && msg->buf->data != NULL: __CPROVER_object_whole(msg->buf->data)
  frees msg != NULL: msg
  frees msg != NULL && msg->buf != NULL: msg->buf, msg->buf->data
  ensures P08 result: ret == (msg != NULL ? 0 : -EINVAL)
  ensures P08 freed: vp_env.live == old(vp_env.live) - (msg != NULL ? 1 + vp_env.buf_blocks : 0)
  ensures P08 shared: IMP(msg != NULL && vp_env.buf != NULL && vp_env.refs > 1, vp_env.buf->refcount == vp_env.refs - 1)

contract int pomp_msg_clear(struct pomp_msg *msg)
  requires msg == NULL || vp_msg_ok(msg)
  assigns msg != NULL: *msg
  assigns msg != NULL && msg->buf != NULL: *(msg->buf)
  assigns msg != NULL && msg->buf != NULL && msg->buf->data != NULL: __CPROVER_object_whole(msg->buf->data)
  frees msg != NULL && msg->buf != NULL: msg->buf, msg->buf->data
  ensures P08 result: ret == (msg != NULL ? 0 : -EINVAL)
  ensures P08 empty: IMP(msg != NULL, msg->buf == NULL && !msg->finished && msg->msgid == 0)
  ensures P08 freed: vp_env.live == old(vp_env.live) - (msg != NULL ? vp_env.buf_blocks : 0)
  ensures P08 shared: IMP(msg != NULL && vp_env.buf != NULL && vp_env.refs > 1, vp_env.buf->refcount == vp_env.refs - 1)

contract int pomp_msg_init(struct pomp_msg *msg, uint32_t msgid)
  requires msg == NULL || (vp_msg_ok(msg) && vp_msg_kb(msg))
  assigns msg != NULL: *msg
  ensures P08 null: IMP(msg == NULL, ret == -EINVAL)
  ensures P08 used: IMP(msg != NULL && old(msg->buf) != NULL, ret == -EPERM && msg->buf == old(msg->buf) && msg->msgid == old(msg->msgid) && msg->finished == old(msg->finished) && vp_msg_kb(msg))
  ensures P08 iff: IMP(msg != NULL && old(msg->buf) == NULL, ret == (vp_env.alloc_failed ? -ENOMEM : 0))
  ensures P08 ready: IMP(ret == 0, msg->msgid == msgid && !msg->finished && msg->buf != NULL && vp_buf_rep(msg->buf) && msg->buf->refcount == 1 && msg->buf->len == 0 && msg->buf->fdcount == 0)
  ensures P08 nomem: IMP(ret == -ENOMEM, msg->buf == NULL && vp_env.live == old(vp_env.live))

contract int pomp_msg_finish(struct pomp_msg *msg)
  requires msg == NULL || (vp_msg_ok(msg) && vp_msg_kb(msg))
  requires msg == NULL || msg->buf == NULL || msg->buf->len <= UINT32_MAX
  assigns msg != NULL: msg->finished
  assigns msg != NULL && msg->buf != NULL: *(msg->buf)
  assigns msg != NULL && msg->buf != NULL && msg->buf->data != NULL: __CPROVER_object_whole(msg->buf->data)
  frees msg != NULL && msg->buf != NULL: msg->buf->data
  ensures P08 null: IMP(msg == NULL || msg->buf == NULL, ret == -EINVAL)
  ensures P08 twice: IMP(msg != NULL && old(msg->finished), ret < 0)
  ensures P06,P08 shared: IMP(msg != NULL && msg->buf != NULL && old(msg->buf->refcount) > 1, ret < 0)
  ensures P08 succeeds: IMP(msg != NULL && msg->buf != NULL && !old(msg->finished) && old(msg->buf->refcount) == 1, ret == (vp_env.alloc_failed ? -ENOMEM : 0))
  ensures P08 header: IMP(ret == 0, msg->finished && vp_has_header(msg->buf, msg->msgid))
  ensures P08 size: IMP(ret == 0, msg->buf->len == (old(msg->buf->len) < 12 ? 12 : old(msg->buf->len)))
  ensures P08 payload: IMP(ret == 0 && vp_env.k >= 12 && vp_env.k < msg->buf->len, vp_kbyte(msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret < 0 && msg != NULL, !msg->finished == !old(msg->finished) && IMP(msg->buf != NULL, msg->buf->len == old(msg->buf->len) && vp_msg_kb(msg)))
  ensures P08 id: IMP(msg != NULL, msg->msgid == old(msg->msgid) && msg->buf == old(msg->buf))
  ensures P08 inv: IMP(msg != NULL && msg->buf != NULL, vp_buf_rep(msg->buf) && msg->buf->refcount == old(msg->buf->refcount))

contract uint32_t pomp_msg_get_id(const struct pomp_msg *msg)
  requires msg == NULL || vp_msg_ok(msg)
  ensures P08 value: ret == (msg != NULL ? msg->msgid : 0)

contract struct pomp_buffer *pomp_msg_get_buffer(const struct pomp_msg *msg)
  requires msg == NULL || vp_msg_ok(msg)
  ensures P08 value: ret == (msg != NULL ? msg->buf : NULL)
