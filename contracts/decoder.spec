# Contracts of src/pomp_decoder.c (typed reads)

contract int pomp_decoder_read_i8(struct pomp_decoder *dec, int8_t *v)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 1), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P03 iff: IMP(v != NULL, (ret == 0) == (vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 1) && dec->msg->buf->len - old(dec->pos) >= 2))
  ensures P02 value: IMP(ret == 0, vp_w_1(dec->msg->buf, old(dec->pos), dec->pos, 1, (uint8_t)*v))

contract int pomp_decoder_read_u8(struct pomp_decoder *dec, uint8_t *v)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 2), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P03 iff: IMP(v != NULL, (ret == 0) == (vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 2) && dec->msg->buf->len - old(dec->pos) >= 2))
  ensures P02 value: IMP(ret == 0, vp_w_1(dec->msg->buf, old(dec->pos), dec->pos, 2, *v))

contract int pomp_decoder_read_i16(struct pomp_decoder *dec, int16_t *v)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 3), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P03 iff: IMP(v != NULL, (ret == 0) == (vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 3) && dec->msg->buf->len - old(dec->pos) >= 3))
  ensures P02 value: IMP(ret == 0, vp_w_2(dec->msg->buf, old(dec->pos), dec->pos, 3, (uint16_t)*v))

contract int pomp_decoder_read_u16(struct pomp_decoder *dec, uint16_t *v)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 4), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P03 iff: IMP(v != NULL, (ret == 0) == (vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 4) && dec->msg->buf->len - old(dec->pos) >= 3))
  ensures P02 value: IMP(ret == 0, vp_w_2(dec->msg->buf, old(dec->pos), dec->pos, 4, *v))

contract int pomp_decoder_read_f32(struct pomp_decoder *dec, float *v)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 11), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P03 iff: IMP(v != NULL, (ret == 0) == (vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 11) && dec->msg->buf->len - old(dec->pos) >= 5))
  ensures P02 value: IMP(ret == 0, vp_w_4(dec->msg->buf, old(dec->pos), dec->pos, 11, vp_f32_bits(*v)))

contract int pomp_decoder_read_f64(struct pomp_decoder *dec, double *v)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 12), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P03 iff: IMP(v != NULL, (ret == 0) == (vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 12) && dec->msg->buf->len - old(dec->pos) >= 9))
  ensures P02 value: IMP(ret == 0, vp_w_8(dec->msg->buf, old(dec->pos), dec->pos, 12, vp_f64_bits(*v)))

contract int pomp_decoder_read_i32(struct pomp_decoder *dec, int32_t *v)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 5), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P03 iff: IMP(v != NULL, (ret == 0) == (vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 5) && vp_env.rsize > 0))
  ensures P02 pos: IMP(ret == 0, dec->pos == old(dec->pos) + 1 + vp_env.rsize)
  ensures P02 value: IMP(ret == 0, IMP(vp_env.rvalue <= UINT32_MAX, vp_zz(*v) == vp_env.rvalue))

contract int pomp_decoder_read_u32(struct pomp_decoder *dec, uint32_t *v)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 6), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P03 iff: IMP(v != NULL, (ret == 0) == (vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 6) && vp_env.rsize > 0))
  ensures P02 pos: IMP(ret == 0, dec->pos == old(dec->pos) + 1 + vp_env.rsize)
  ensures P02 value: IMP(ret == 0, IMP(vp_env.rvalue <= UINT32_MAX, *v == vp_env.rvalue))

contract int pomp_decoder_read_i64(struct pomp_decoder *dec, int64_t *v)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 7), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P03 iff: IMP(v != NULL, (ret == 0) == (vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 7) && vp_env.rsize > 0))
  ensures P02 pos: IMP(ret == 0, dec->pos == old(dec->pos) + 1 + vp_env.rsize)
  ensures P02 value: IMP(ret == 0, vp_zz(*v) == vp_env.rvalue)

contract int pomp_decoder_read_u64(struct pomp_decoder *dec, uint64_t *v)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 8), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P03 iff: IMP(v != NULL, (ret == 0) == (vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 8) && vp_env.rsize > 0))
  ensures P02 pos: IMP(ret == 0, dec->pos == old(dec->pos) + 1 + vp_env.rsize)
  ensures P02 value: IMP(ret == 0, *v == vp_env.rvalue)

contract int pomp_decoder_read_cstr(struct pomp_decoder *dec, const char * *v)
  havoc if (dec != NULL) dec->pos = IN_LEN();
  havoc if (ret == 0 && vp_dec_full(dec) && v != NULL) *v = (const char *)dec->msg->buf->data + IN_LEN();
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 9), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P03 bounds: IMP(ret == 0, vp_str_in(dec, *v) && dec->msg->buf->data[dec->pos - 1] == 0)
  ensures P02,P04 iff: IMP(v != NULL && vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 9) && vp_env.rvalue <= 0xffff, (ret == 0) == vp_r_str_ok(dec->msg->buf, old(dec->pos) + 1))
  ensures P02,P04 value: IMP(ret == 0 && vp_env.rvalue <= 0xffff, vp_off(dec->msg->buf, *v) == old(dec->pos) + 1 + vp_env.rsize && dec->pos == vp_off(dec->msg->buf, *v) + vp_env.rvalue)
  ensures P04 invalid: IMP(ret < 0 && v != NULL, *v == old(*v))

contract int pomp_decoder_read_str(struct pomp_decoder *dec, char * *v)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 9), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P04 iff: IMP(v != NULL && vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 9) && vp_env.rvalue <= 0xffff, (ret == 0) == (vp_r_str_ok(dec->msg->buf, old(dec->pos) + 1) && !vp_env.alloc_failed))
  ensures P02 pos: IMP(ret == 0 && vp_env.rvalue <= 0xffff, dec->pos == old(dec->pos) + 1 + vp_env.rsize + vp_env.rvalue)
  ensures P02,P04 copy: IMP(ret == 0 && vp_env.rvalue <= 0xffff, vp_env.live == old(vp_env.live) + 1 && vp_is_copy(dec->msg->buf, old(dec->pos) + 1 + vp_env.rsize, *v))
  ensures P04 noleak: IMP(ret < 0, vp_env.live == old(vp_env.live))

contract int pomp_decoder_read_cbuf(struct pomp_decoder *dec, const void * *v, uint32_t *n)
  havoc if (dec != NULL) dec->pos = IN_LEN();
  havoc if (n != NULL) *n = IN_U32();
  havoc if (ret == 0 && vp_dec_full(dec) && v != NULL) *v = dec->msg->buf->data + IN_LEN();
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  requires n == NULL || VP_RW(n, sizeof(*n))
  assigns dec != NULL: dec->pos; v != NULL: *v; n != NULL: *n
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL || n == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && n != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 10), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P03 bounds: IMP(ret == 0, *n <= dec->pos && dec->pos <= dec->msg->buf->len && (const uint8_t *)*v == dec->msg->buf->data + (dec->pos - *n))
  ensures P02,P04 iff: IMP(v != NULL && n != NULL && vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 10) && vp_env.rvalue <= UINT32_MAX, (ret == 0) == (vp_r_buf_ok(dec->msg->buf, old(dec->pos) + 1)))
  ensures P02,P04 value: IMP(ret == 0 && vp_env.rvalue <= UINT32_MAX, *n == vp_env.rvalue && dec->pos == old(dec->pos) + 1 + vp_env.rsize + *n)
  ensures P04 invalid: IMP(ret < 0 && v != NULL, *v == old(*v))

contract int pomp_decoder_read_buf(struct pomp_decoder *dec, void * *v, uint32_t *n)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  requires n == NULL || VP_RW(n, sizeof(*n))
  assigns dec != NULL: dec->pos; v != NULL: *v; n != NULL: *n
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL || n == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && n != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 10), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P04 iff: IMP(v != NULL && n != NULL && vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 10) && vp_env.rvalue <= UINT32_MAX, (ret == 0) == (vp_r_buf_ok(dec->msg->buf, old(dec->pos) + 1) && !vp_env.alloc_failed))
  ensures P02,P04 value: IMP(ret == 0 && vp_env.rvalue <= UINT32_MAX, *n == vp_env.rvalue && dec->pos == old(dec->pos) + 1 + vp_env.rsize + *n)
  ensures P02,P04 copy: IMP(ret == 0, vp_env.live == old(vp_env.live) + 1 && VP_RW(*v, *n) && IMP(vp_env.k >= dec->pos - *n && vp_env.k < dec->pos, ((const uint8_t *)*v)[vp_env.k - (dec->pos - *n)] == vp_env.kbyte))
  ensures P04 noleak: IMP(ret < 0, vp_env.live == old(vp_env.live))

contract int pomp_decoder_read_fd(struct pomp_decoder *dec, int *v)
  requires dec == NULL || (vp_dec_ok(dec) && vp_dec_kb(dec))
  requires v == NULL || VP_RW(v, sizeof(*v))
  assigns dec != NULL: dec->pos; v != NULL: *v
  ensures P02 einval: IMP(!vp_dec_full(dec) || v == NULL, ret < 0 && IMP(dec != NULL, dec->pos == old(dec->pos)))
  ensures P02 result: ret <= 0
  ensures P02 mismatch: IMP(vp_dec_full(dec) && v != NULL && !vp_w_type(dec->msg->buf, old(dec->pos), 13), ret < 0 && dec->pos == old(dec->pos))
  ensures P03 pos: IMP(vp_dec_full(dec), dec->pos >= old(dec->pos) && IMP(old(dec->pos) <= dec->msg->buf->len, dec->pos <= dec->msg->buf->len))
  ensures P03 short: IMP(vp_dec_full(dec) && old(dec->pos) >= dec->msg->buf->len, ret < 0 && dec->pos == old(dec->pos))
  ensures P02,P03 unchanged: IMP(vp_dec_full(dec), vp_dec_kb(dec) && dec->msg->buf->len == old(dec->msg->buf->len) && dec->msg->buf->data == old(dec->msg->buf->data) && dec->msg->buf->refcount == old(dec->msg->buf->refcount) && dec->msg->buf->fdcount == old(dec->msg->buf->fdcount))
  ensures P02,P03,P07 only_slots: IMP(ret == 0, vp_w_type(dec->msg->buf, old(dec->pos), 13) && vp_is_slot(dec->msg->buf, old(dec->pos) + 1) && *v == vp_slot(dec->msg->buf, old(dec->pos) + 1) && *v >= 0 && dec->pos == old(dec->pos) + 5)
  ensures P02,P07 succeeds: IMP(v != NULL && vp_dec_full(dec) && vp_w_type(dec->msg->buf, old(dec->pos), 13) && vp_is_slot(dec->msg->buf, old(dec->pos) + 1) && vp_slot(dec->msg->buf, old(dec->pos) + 1) >= 0, ret == 0)
  ensures P07 keeps: vp_env.fd_closes == old(vp_env.fd_closes) && vp_env.fd_dups == old(vp_env.fd_dups)

contract int pomp_decoder_init(struct pomp_decoder *dec, const struct pomp_msg *msg)
  requires dec == NULL || VP_RW(dec, sizeof(*dec))
  assigns dec != NULL: *dec
  ensures P02 result: ret == (dec != NULL && msg != NULL ? 0 : -EINVAL)
  ensures P02 start: IMP(ret == 0, dec->msg == msg && dec->pos == 12)

contract int pomp_decoder_clear(struct pomp_decoder *dec)
  requires dec == NULL || VP_RW(dec, sizeof(*dec))
  assigns dec != NULL: *dec
  ensures P02 result: ret == (dec != NULL ? 0 : -EINVAL)
  ensures P02 empty: IMP(ret == 0, dec->msg == NULL)

contract struct pomp_decoder *pomp_decoder_new(void)
  ensures P02 new: (ret == NULL) == vp_env.alloc_failed
  ensures P02 empty: IMP(ret != NULL, VP_RW(ret, sizeof(*ret)) && ret->msg == NULL && ret->pos == 0)

contract int pomp_decoder_destroy(struct pomp_decoder *dec)
  requires dec == NULL || VP_RW(dec, sizeof(*dec))
  frees dec
  ensures P02 result: ret == (dec != NULL ? 0 : -EINVAL)
  ensures P02 freed: vp_env.live == old(vp_env.live) - (dec != NULL)
