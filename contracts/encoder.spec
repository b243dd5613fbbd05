# Contracts of src/pomp_encoder.c. The clause 'wire' is the format on the wire,
# written from the documentation of the protocol (see vp_w_... in include/vp_msg.h).

contract int pomp_encoder_write_i8(struct pomp_encoder *enc, int8_t v)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P01 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P01 succeeds: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P01,P06 inv: !vp_enc_full(enc) || (vp_buf_rep(enc->msg->buf) && enc->msg->buf->refcount == old(enc->msg->buf->refcount))
  ensures P01 wire: IMP(ret == 0, vp_w_1(enc->msg->buf, old(enc->pos), enc->pos, 1, (uint8_t)v))
  ensures P01 len: IMP(ret == 0, enc->msg->buf->len == (enc->pos > old(enc->msg->buf->len) ? enc->pos : old(enc->msg->buf->len)))
  ensures P01 others: IMP(ret == 0 && vp_env.k < old(enc->msg->buf->len) && !(vp_env.k >= old(enc->pos) && vp_env.k < enc->pos), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P01 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret == -EPERM && vp_enc_full(enc), enc->pos == old(enc->pos) && enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc) && enc->msg->buf->data == old(enc->msg->buf->data))
  ensures P01 fds: IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount))

contract int pomp_encoder_write_u8(struct pomp_encoder *enc, uint8_t v)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P01 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P01 succeeds: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P01,P06 inv: !vp_enc_full(enc) || (vp_buf_rep(enc->msg->buf) && enc->msg->buf->refcount == old(enc->msg->buf->refcount))
  ensures P01 wire: IMP(ret == 0, vp_w_1(enc->msg->buf, old(enc->pos), enc->pos, 2, v))
  ensures P01 len: IMP(ret == 0, enc->msg->buf->len == (enc->pos > old(enc->msg->buf->len) ? enc->pos : old(enc->msg->buf->len)))
  ensures P01 others: IMP(ret == 0 && vp_env.k < old(enc->msg->buf->len) && !(vp_env.k >= old(enc->pos) && vp_env.k < enc->pos), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P01 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret == -EPERM && vp_enc_full(enc), enc->pos == old(enc->pos) && enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc) && enc->msg->buf->data == old(enc->msg->buf->data))
  ensures P01 fds: IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount))

contract int pomp_encoder_write_i16(struct pomp_encoder *enc, int16_t v)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P01 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P01 succeeds: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P01,P06 inv: !vp_enc_full(enc) || (vp_buf_rep(enc->msg->buf) && enc->msg->buf->refcount == old(enc->msg->buf->refcount))
  ensures P01 wire: IMP(ret == 0, vp_w_2(enc->msg->buf, old(enc->pos), enc->pos, 3, (uint16_t)v))
  ensures P01 len: IMP(ret == 0, enc->msg->buf->len == (enc->pos > old(enc->msg->buf->len) ? enc->pos : old(enc->msg->buf->len)))
  ensures P01 others: IMP(ret == 0 && vp_env.k < old(enc->msg->buf->len) && !(vp_env.k >= old(enc->pos) && vp_env.k < enc->pos), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P01 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret == -EPERM && vp_enc_full(enc), enc->pos == old(enc->pos) && enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc) && enc->msg->buf->data == old(enc->msg->buf->data))
  ensures P01 fds: IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount))

contract int pomp_encoder_write_u16(struct pomp_encoder *enc, uint16_t v)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P01 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P01 succeeds: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P01,P06 inv: !vp_enc_full(enc) || (vp_buf_rep(enc->msg->buf) && enc->msg->buf->refcount == old(enc->msg->buf->refcount))
  ensures P01 wire: IMP(ret == 0, vp_w_2(enc->msg->buf, old(enc->pos), enc->pos, 4, v))
  ensures P01 len: IMP(ret == 0, enc->msg->buf->len == (enc->pos > old(enc->msg->buf->len) ? enc->pos : old(enc->msg->buf->len)))
  ensures P01 others: IMP(ret == 0 && vp_env.k < old(enc->msg->buf->len) && !(vp_env.k >= old(enc->pos) && vp_env.k < enc->pos), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P01 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret == -EPERM && vp_enc_full(enc), enc->pos == old(enc->pos) && enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc) && enc->msg->buf->data == old(enc->msg->buf->data))
  ensures P01 fds: IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount))

contract int pomp_encoder_write_i32(struct pomp_encoder *enc, int32_t v)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P01 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P01 succeeds: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P01,P06 inv: !vp_enc_full(enc) || (vp_buf_rep(enc->msg->buf) && enc->msg->buf->refcount == old(enc->msg->buf->refcount))
  ensures P01 wire: IMP(ret == 0, vp_w_varint(enc->msg->buf, old(enc->pos), enc->pos, 5, vp_zz(v)))
  ensures P01 len: IMP(ret == 0, enc->msg->buf->len == (enc->pos > old(enc->msg->buf->len) ? enc->pos : old(enc->msg->buf->len)))
  ensures P01 others: IMP(ret == 0 && vp_env.k < old(enc->msg->buf->len) && !(vp_env.k >= old(enc->pos) && vp_env.k < enc->pos), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P01 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret == -EPERM && vp_enc_full(enc), enc->pos == old(enc->pos) && enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc) && enc->msg->buf->data == old(enc->msg->buf->data))
  ensures P01 fds: IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount))

contract int pomp_encoder_write_u32(struct pomp_encoder *enc, uint32_t v)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P01 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P01 succeeds: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P01,P06 inv: !vp_enc_full(enc) || (vp_buf_rep(enc->msg->buf) && enc->msg->buf->refcount == old(enc->msg->buf->refcount))
  ensures P01 wire: IMP(ret == 0, vp_w_varint(enc->msg->buf, old(enc->pos), enc->pos, 6, v))
  ensures P01 len: IMP(ret == 0, enc->msg->buf->len == (enc->pos > old(enc->msg->buf->len) ? enc->pos : old(enc->msg->buf->len)))
  ensures P01 others: IMP(ret == 0 && vp_env.k < old(enc->msg->buf->len) && !(vp_env.k >= old(enc->pos) && vp_env.k < enc->pos), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P01 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret == -EPERM && vp_enc_full(enc), enc->pos == old(enc->pos) && enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc) && enc->msg->buf->data == old(enc->msg->buf->data))
  ensures P01 fds: IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount))

contract int pomp_encoder_write_i64(struct pomp_encoder *enc, int64_t v)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P01 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P01 succeeds: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P01,P06 inv: !vp_enc_full(enc) || (vp_buf_rep(enc->msg->buf) && enc->msg->buf->refcount == old(enc->msg->buf->refcount))
  ensures P01 wire: IMP(ret == 0, vp_w_varint(enc->msg->buf, old(enc->pos), enc->pos, 7, vp_zz(v)))
  ensures P01 len: IMP(ret == 0, enc->msg->buf->len == (enc->pos > old(enc->msg->buf->len) ? enc->pos : old(enc->msg->buf->len)))
  ensures P01 others: IMP(ret == 0 && vp_env.k < old(enc->msg->buf->len) && !(vp_env.k >= old(enc->pos) && vp_env.k < enc->pos), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P01 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret == -EPERM && vp_enc_full(enc), enc->pos == old(enc->pos) && enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc) && enc->msg->buf->data == old(enc->msg->buf->data))
  ensures P01 fds: IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount))

contract int pomp_encoder_write_u64(struct pomp_encoder *enc, uint64_t v)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P01 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P01 succeeds: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P01,P06 inv: !vp_enc_full(enc) || (vp_buf_rep(enc->msg->buf) && enc->msg->buf->refcount == old(enc->msg->buf->refcount))
  ensures P01 wire: IMP(ret == 0, vp_w_varint(enc->msg->buf, old(enc->pos), enc->pos, 8, v))
  ensures P01 len: IMP(ret == 0, enc->msg->buf->len == (enc->pos > old(enc->msg->buf->len) ? enc->pos : old(enc->msg->buf->len)))
  ensures P01 others: IMP(ret == 0 && vp_env.k < old(enc->msg->buf->len) && !(vp_env.k >= old(enc->pos) && vp_env.k < enc->pos), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P01 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret == -EPERM && vp_enc_full(enc), enc->pos == old(enc->pos) && enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc) && enc->msg->buf->data == old(enc->msg->buf->data))
  ensures P01 fds: IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount))

contract int pomp_encoder_write_f32(struct pomp_encoder *enc, float v)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P01 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P01 succeeds: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P01,P06 inv: !vp_enc_full(enc) || (vp_buf_rep(enc->msg->buf) && enc->msg->buf->refcount == old(enc->msg->buf->refcount))
  ensures P01 wire: IMP(ret == 0, vp_w_4(enc->msg->buf, old(enc->pos), enc->pos, 11, vp_f32_bits(v)))
  ensures P01 len: IMP(ret == 0, enc->msg->buf->len == (enc->pos > old(enc->msg->buf->len) ? enc->pos : old(enc->msg->buf->len)))
  ensures P01 others: IMP(ret == 0 && vp_env.k < old(enc->msg->buf->len) && !(vp_env.k >= old(enc->pos) && vp_env.k < enc->pos), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P01 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret == -EPERM && vp_enc_full(enc), enc->pos == old(enc->pos) && enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc) && enc->msg->buf->data == old(enc->msg->buf->data))
  ensures P01 fds: IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount))

contract int pomp_encoder_write_f64(struct pomp_encoder *enc, double v)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P01 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P01 succeeds: IMP(vp_enc_can(enc) && 1 && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P01,P06 inv: !vp_enc_full(enc) || (vp_buf_rep(enc->msg->buf) && enc->msg->buf->refcount == old(enc->msg->buf->refcount))
  ensures P01 wire: IMP(ret == 0, vp_w_8(enc->msg->buf, old(enc->pos), enc->pos, 12, vp_f64_bits(v)))
  ensures P01 len: IMP(ret == 0, enc->msg->buf->len == (enc->pos > old(enc->msg->buf->len) ? enc->pos : old(enc->msg->buf->len)))
  ensures P01 others: IMP(ret == 0 && vp_env.k < old(enc->msg->buf->len) && !(vp_env.k >= old(enc->pos) && vp_env.k < enc->pos), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P01 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret == -EPERM && vp_enc_full(enc), enc->pos == old(enc->pos) && enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc) && enc->msg->buf->data == old(enc->msg->buf->data))
  ensures P01 fds: IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount))

contract int pomp_encoder_write_str(struct pomp_encoder *enc, const char *v)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  requires v == NULL || (v == vp_env.str && VP_R(v, vp_env.str_len + 1) && v[vp_env.str_len] == 0)
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P01 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && v != NULL && vp_env.str_len + 1 <= 0xffff && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P01 succeeds: IMP(vp_enc_can(enc) && v != NULL && vp_env.str_len + 1 <= 0xffff && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P01,P06 inv: !vp_enc_full(enc) || (vp_buf_rep(enc->msg->buf) && enc->msg->buf->refcount == old(enc->msg->buf->refcount))
  ensures P01 wire: IMP(ret == 0, vp_w_type(enc->msg->buf, old(enc->pos), 9) && vp_w_raw_varint(enc->msg->buf, old(enc->pos) + 1, vp_env.str_len + 1) && enc->pos == old(enc->pos) + 2 + vp_varint_size(vp_env.str_len + 1) + vp_env.str_len)
  ensures P01 len: IMP(ret == 0, enc->msg->buf->len == (enc->pos > old(enc->msg->buf->len) ? enc->pos : old(enc->msg->buf->len)))
  ensures P01 others: IMP(ret == 0 && vp_env.k < old(enc->msg->buf->len) && !(vp_env.k >= old(enc->pos) && vp_env.k < enc->pos), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P01 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret == -EPERM && vp_enc_full(enc), enc->pos == old(enc->pos) && enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc) && enc->msg->buf->data == old(enc->msg->buf->data))
  ensures P01 fds: IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount))
  ensures P04 null: IMP(v == NULL, ret < 0)
  ensures P04 toolong: IMP(v != NULL && vp_env.str_len + 1 > 0xffff, ret == -EINVAL || ret == -EPERM)
  ensures P04 fits: IMP(vp_enc_can(enc) && v != NULL && vp_env.str_len + 1 <= 0xffff && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P04 unchanged: IMP(ret == -EINVAL && enc != NULL, enc->pos == old(enc->pos) && IMP(enc->msg != NULL && enc->msg->buf != NULL, enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc)))
  ensures P04 size: IMP(ret == 0, vp_w_raw_varint(enc->msg->buf, old(enc->pos) + 1, vp_env.str_len + 1))
  ensures P01,P04 bytes: IMP(ret == 0 && vp_env.k >= enc->pos - vp_env.str_len - 1 && vp_env.k < enc->pos, vp_kbyte(enc->msg->buf) == (uint8_t)v[vp_env.k - (enc->pos - vp_env.str_len - 1)])

contract int pomp_encoder_write_buf(struct pomp_encoder *enc, const void *v, uint32_t n)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  requires v == NULL || VP_R(v, n)
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P01 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && v != NULL && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01 result: ret == 0 || ret == -EINVAL || ret == -EPERM || ret == -ENOMEM
  ensures P01 succeeds: IMP(vp_enc_can(enc) && v != NULL && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P01,P06 inv: !vp_enc_full(enc) || (vp_buf_rep(enc->msg->buf) && enc->msg->buf->refcount == old(enc->msg->buf->refcount))
  ensures P01 wire: IMP(ret == 0, vp_w_type(enc->msg->buf, old(enc->pos), 10) && vp_w_raw_varint(enc->msg->buf, old(enc->pos) + 1, n) && enc->pos == old(enc->pos) + 1 + vp_varint_size(n) + n)
  ensures P01 len: IMP(ret == 0, enc->msg->buf->len == (enc->pos > old(enc->msg->buf->len) ? enc->pos : old(enc->msg->buf->len)))
  ensures P01 others: IMP(ret == 0 && vp_env.k < old(enc->msg->buf->len) && !(vp_env.k >= old(enc->pos) && vp_env.k < enc->pos), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P01 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)
  ensures P06,P08 refused: IMP(ret == -EPERM && vp_enc_full(enc), enc->pos == old(enc->pos) && enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc) && enc->msg->buf->data == old(enc->msg->buf->data))
  ensures P01 fds: IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount))
  ensures P04 null: IMP(v == NULL, ret < 0)
  ensures P04 fits: IMP(vp_enc_can(enc) && v != NULL && old(enc->msg->buf->refcount) == 1 && !vp_env.alloc_failed && old(enc->pos) <= VP_MAX_ALLOC / 4, ret == 0)
  ensures P04 unchanged: IMP(ret == -EINVAL && enc != NULL, enc->pos == old(enc->pos) && IMP(enc->msg != NULL && enc->msg->buf != NULL, enc->msg->buf->len == old(enc->msg->buf->len) && vp_enc_kb(enc)))
  ensures P04 size: IMP(ret == 0, vp_w_raw_varint(enc->msg->buf, old(enc->pos) + 1, n))
  ensures P01,P04 bytes: IMP(ret == 0 && vp_env.k >= enc->pos - n && vp_env.k < enc->pos, vp_kbyte(enc->msg->buf) == ((const uint8_t *)v)[vp_env.k - (enc->pos - n)])

contract int pomp_encoder_write_fd(struct pomp_encoder *enc, int v)
  requires enc == NULL || (vp_enc_ok(enc) && vp_enc_kb(enc))
  assigns enc != NULL: enc->pos
  assigns vp_enc_full(enc): *(enc->msg->buf)
  assigns vp_enc_full(enc) && enc->msg->buf->data != NULL: __CPROVER_object_whole(enc->msg->buf->data)
  frees vp_enc_full(enc): enc->msg->buf->data
  ensures P07 einval: IMP(!vp_enc_full(enc), ret == -EINVAL || (enc != NULL && enc->msg != NULL && enc->msg->finished && ret == -EPERM))
  ensures P06,P08 finished: IMP(vp_enc_full(enc) && enc->msg->finished, ret == -EPERM)
  ensures P06 shared: IMP(vp_enc_can(enc) && old(enc->msg->buf->refcount) > 1, ret == -EPERM)
  ensures P01,P07 wire: IMP(ret == 0, vp_w_type(enc->msg->buf, old(enc->pos), 0xd) && enc->pos == old(enc->pos) + 5 && vp_is_slot(enc->msg->buf, old(enc->pos) + 1) && vp_slot(enc->msg->buf, old(enc->pos) + 1) == vp_env.fd_dup_dst)
  ensures P07 dup: IMP(ret == 0, vp_env.fd_dup_src == v && vp_env.fd_dups == old(vp_env.fd_dups) + 1 && enc->msg->buf->fdcount == old(enc->msg->buf->fdcount) + 1)
  ensures P07 badfd: IMP(v < 0, ret < 0)
  ensures P07 err: IMP(ret < 0, vp_fd_balance(vp_enc_full(enc) ? enc->msg->buf : NULL) && IMP(vp_enc_full(enc), enc->msg->buf->fdcount == old(enc->msg->buf->fdcount)))
  ensures P07 toomany: IMP(vp_enc_full(enc) && old(enc->msg->buf->fdcount) == 4, ret < 0)
  ensures P01,P07 before: IMP(vp_enc_full(enc) && vp_env.k < old(enc->pos) && vp_env.k < old(enc->msg->buf->len), vp_kbyte(enc->msg->buf) == vp_env.kbyte)

contract int pomp_encoder_init(struct pomp_encoder *enc, struct pomp_msg *msg)
  requires enc == NULL || VP_RW(enc, sizeof(*enc))
  assigns enc != NULL: *enc
  ensures P01 result: ret == (enc != NULL && msg != NULL ? 0 : -EINVAL)
  ensures P01 start: IMP(ret == 0, enc->msg == msg && enc->pos == 12)

contract int pomp_encoder_clear(struct pomp_encoder *enc)
  requires enc == NULL || VP_RW(enc, sizeof(*enc))
  assigns enc != NULL: *enc
  ensures P01 result: ret == (enc != NULL ? 0 : -EINVAL)
  ensures P01 cleared: IMP(ret == 0, enc->msg == NULL)

contract struct pomp_encoder *pomp_encoder_new(void)
  ensures P01 ok: IMP(ret != NULL, ret->msg == NULL && VP_RW(ret, sizeof(*ret)) && vp_env.live == old(vp_env.live) + 1)
  ensures P01 nomem: IMP(ret == NULL, vp_env.alloc_failed && vp_env.live == old(vp_env.live))

contract int pomp_encoder_destroy(struct pomp_encoder *enc)
  requires enc == NULL || VP_RW(enc, sizeof(*enc))
  assigns enc != NULL: *enc
  frees enc != NULL: enc
  ensures P01 result: ret == (enc != NULL ? 0 : -EINVAL)
  ensures P01 freed: vp_env.live == old(vp_env.live) - (enc != NULL)
