#include "vp.h"
#include "vp_fd.h"
#include "vp_msg.h"
#include "vp_contracts.h"
#include "pomp_buffer.c"
#include "vp_abs.h"
#include "pomp_decoder.c"
#include "vp_wrappers.h"

static struct pomp_decoder *mk_dec(unsigned flags, uint8_t type)
{
	struct pomp_decoder *d = vp_mk_dec(flags);
	if (VP_RANDOM && vp_dec_full(d) && d->pos < d->msg->buf->len &&
			IN_BOOL()) {
		/* Make it likely that the argument is valid */
		d->msg->buf->data[d->pos] = type;
		if ((type == 9 || type == 10) && d->msg->buf->len - d->pos > 2)
			d->msg->buf->data[d->pos + 1] &= 0x1f;
		if (type == 9 && d->msg->buf->len - d->pos > 0x20 &&
				IN_RANGE(0, 3) != 3)
			d->msg->buf->data[d->pos + 1 +
				d->msg->buf->data[d->pos + 1]] = 0;
		if (d->msg->buf->len > 0)
			vp_env.kbyte = vp_env.k < d->msg->buf->len ?
				d->msg->buf->data[vp_env.k] : 0;
	}
	vp_env.str_dec = d;
	vp_dec_ghost(d);
	/* Last byte of the string */
	vp_env.i = (uint32_t)vp_env.rvalue - 1;
	return d;
}

#define H_READ(_name, _type, _code, _flags) \
void h_##_name(void) \
{ \
	struct pomp_decoder *d = mk_dec(_flags, _code); \
	_type v, *pv = VP_RARE() ? NULL : &v; \
	int res = VPC(pomp_decoder_read_##_name)(d, pv); \
	if (res == 0) \
		REACH("ok"); \
	if (res < 0) \
		REACH("error"); \
}

H_READ(i8, int8_t, 1, VP_BUF_NOFD)
H_READ(u8, uint8_t, 2, VP_BUF_NOFD)
H_READ(i16, int16_t, 3, VP_BUF_NOFD)
H_READ(u16, uint16_t, 4, VP_BUF_NOFD)
H_READ(i32, int32_t, 5, VP_BUF_NOFD)
H_READ(u32, uint32_t, 6, VP_BUF_NOFD)
H_READ(i64, int64_t, 7, VP_BUF_NOFD)
H_READ(u64, uint64_t, 8, VP_BUF_NOFD)
H_READ(f32, float, 11, VP_BUF_NOFD)
H_READ(f64, double, 12, VP_BUF_NOFD)
H_READ(cstr, const char *, 9, VP_BUF_NOFD)
H_READ(str, char *, 9, VP_BUF_NOFD)
H_READ(fd, int, 13, 0)

#define H_READBUF(_name, _type) \
void h_##_name(void) \
{ \
	struct pomp_decoder *d = mk_dec(VP_BUF_NOFD, 10); \
	_type v, *pv = VP_RARE() ? NULL : &v; \
	uint32_t n, *pn = VP_RARE() ? NULL : &n; \
	int res = VPC(pomp_decoder_read_##_name)(d, pv, pn); \
	if (res == 0) \
		REACH("ok"); \
	if (res < 0) \
		REACH("error"); \
}

H_READBUF(cbuf, const void *)
H_READBUF(buf, void *)

void h_init(void)
{
	struct pomp_decoder d, *pd = IN_BOOL() ? &d : NULL;
	struct pomp_msg *m = IN_BOOL() ? vp_mk_msg(VP_BUF_NOFD) : NULL;
	int res = VPC(pomp_decoder_init)(pd, m);
	if (res == 0)
		REACH("ok");
}

void h_clear(void)
{
	struct pomp_decoder d, *pd = IN_BOOL() ? &d : NULL;
	int res = VPC(pomp_decoder_clear)(pd);
	if (res == 0)
		REACH("ok");
}

void h_new(void)
{
	struct pomp_decoder *d;
	vp_env.can_fail = IN_BOOL();
	d = VPC(pomp_decoder_new)();
	if (d != NULL)
		REACH("ok");
	else
		REACH("nomem");
}

void h_destroy(void)
{
	struct pomp_decoder *d = IN_BOOL() ? vp_alloc(sizeof(*d)) : NULL;
	int res = VPC(pomp_decoder_destroy)(d);
	if (res == 0)
		REACH("ok");
}

/* Lemmas: what the contract of the encoder puts on the wire (vp_w_...) at any
 * position of any message is read back by the decoder. */
#define L_TRIP(_name, _type, _in, _wire) \
void l_##_name(void) \
{ \
	struct pomp_msg *m = vp_mk_msg(VP_BUF_NOFD); \
	struct pomp_decoder d; \
	size_t o = IN_LEN(), end = IN_LEN(); \
	_type v = (_type)_in, r; \
	int res; \
	ASSUME(m->buf != NULL && _wire); \
	d.msg = m; \
	d.pos = o; \
	res = pomp_decoder_read_##_name(&d, &r); \
	CHECK("P02:roundtrip." #_name, res == 0 && d.pos == end && \
			memcmp(&r, &v, sizeof(v)) == 0); \
	REACH("ok"); \
}

L_TRIP(i8, int8_t, IN_U8(), vp_w_1(m->buf, o, end, 1, (uint8_t)v))
L_TRIP(u8, uint8_t, IN_U8(), vp_w_1(m->buf, o, end, 2, v))
L_TRIP(i16, int16_t, IN_U16(), vp_w_2(m->buf, o, end, 3, (uint16_t)v))
L_TRIP(u16, uint16_t, IN_U16(), vp_w_2(m->buf, o, end, 4, v))
L_TRIP(i32, int32_t, IN_U32(), vp_w_varint(m->buf, o, end, 5, vp_zz(v)))
L_TRIP(u32, uint32_t, IN_U32(), vp_w_varint(m->buf, o, end, 6, v))
L_TRIP(i64, int64_t, IN_U64(), vp_w_varint(m->buf, o, end, 7, vp_zz(v)))
L_TRIP(u64, uint64_t, IN_U64(), vp_w_varint(m->buf, o, end, 8, v))
L_TRIP(f32, float, vp_in_f32(), vp_w_4(m->buf, o, end, 11, vp_f32_bits(v)))
L_TRIP(f64, double, vp_in_f64(), vp_w_8(m->buf, o, end, 12, vp_f64_bits(v)))

/* String and buffer: type, size, then bytes */
void l_str(void)
{
	struct pomp_msg *m = vp_mk_msg(VP_BUF_NOFD);
	struct pomp_decoder d;
	size_t o = IN_LEN(), len = IN_LEN_RANGE(0, 0xfffe), n;
	const char *s = NULL;
	int res;
	n = vp_varint_size(len + 1);
	ASSUME(m->buf != NULL && vp_w_type(m->buf, o, 9) &&
			vp_w_raw_varint(m->buf, o + 1, len + 1) &&
			m->buf->len - o - 1 - n >= len + 1 &&
			m->buf->data[o + 1 + n + len] == 0);
	d.msg = m;
	d.pos = o;
	res = pomp_decoder_read_cstr(&d, &s);
	CHECK("P02,P04:roundtrip.str", res == 0 && d.pos == o + 1 + n + len + 1 &&
			(const uint8_t *)s == m->buf->data + o + 1 + n);
	REACH("ok");
}

void l_buf(void)
{
	struct pomp_msg *m = vp_mk_msg(VP_BUF_NOFD);
	struct pomp_decoder d;
	size_t o = IN_LEN(), n;
	uint32_t len = IN_U32(), rlen = 0;
	const void *p = NULL;
	int res;
	n = vp_varint_size(len);
	ASSUME(m->buf != NULL && vp_w_type(m->buf, o, 10) &&
			vp_w_raw_varint(m->buf, o + 1, len) &&
			m->buf->len - o - 1 - n >= len);
	d.msg = m;
	d.pos = o;
	res = pomp_decoder_read_cbuf(&d, &p, &rlen);
	CHECK("P02,P04:roundtrip.buf", res == 0 && rlen == len &&
			d.pos == o + 1 + n + len &&
			(const uint8_t *)p == m->buf->data + o + 1 + n);
	REACH("ok");
}
