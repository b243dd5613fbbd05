/* Messages, encoders and decoders: invariants, constructors and the
 * specification of the encoding on the wire */
#ifndef VP_MSG_H
#define VP_MSG_H
#include "vp_buf.h"

#ifndef VP_NATIVE
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "undefined-shift"
#endif

static inline int vp_msg_ok(const struct pomp_msg *m)
{
	return VP_RW(m, sizeof(*m)) && IMP(m->buf != NULL, vp_buf_ok(m->buf));
}

static inline int vp_msg_kb(const struct pomp_msg *m)
{
	return m->buf == NULL || vp_kb(m->buf);
}

/* Header on the wire */
static inline uint32_t vp_le32(const struct pomp_buffer *b, size_t o)
{
	return (uint32_t)b->data[o] | (uint32_t)b->data[o + 1] << 8 |
			(uint32_t)b->data[o + 2] << 16 |
			(uint32_t)b->data[o + 3] << 24;
}
static inline int vp_header_ok(const struct pomp_buffer *b)
{
	return b != NULL && b->len >= 12 && b->data[0] == 'P' &&
			b->data[1] == 'O' && b->data[2] == 'M' &&
			b->data[3] == 'P' && vp_le32(b, 8) == b->len;
}

static inline int vp_le32_is(const struct pomp_buffer *b, size_t o, uint32_t v)
{
	return vp_data_is(b, o, (v & 0xff)) &&
		vp_data_is(b, o + 1, ((v >> 8) & 0xff)) &&
		vp_data_is(b, o + 2, ((v >> 16) & 0xff)) &&
		vp_data_is(b, o + 3, v >> 24);
}
static inline int vp_has_header(const struct pomp_buffer *b, uint32_t id)
{
	return b->len >= 12 && vp_data_is(b, 0, 'P') &&
		vp_data_is(b, 1, 'O') && vp_data_is(b, 2, 'M') &&
		vp_data_is(b, 3, 'P') && vp_le32_is(b, 4, id) &&
		vp_le32_is(b, 8, (uint32_t)b->len);
}

static inline struct pomp_msg *vp_mk_msg(unsigned flags)
{
	struct pomp_msg *m = vp_alloc(sizeof(*m));
	m->msgid = IN_U32();
	m->finished = IN_BOOL();
	m->buf = VP_RARE() ? NULL : vp_mk_buf(flags);
	return m;
}

static inline int vp_enc_ok(const struct pomp_encoder *e)
{
	return VP_RW(e, sizeof(*e)) && IMP(e->msg != NULL, vp_msg_ok(e->msg));
}

static inline int vp_dec_ok(const struct pomp_decoder *d)
{
	return VP_RW(d, sizeof(*d)) && IMP(d->msg != NULL, vp_msg_ok(d->msg));
}

/* With a buffer */
static inline int vp_enc_full(const struct pomp_encoder *e)
{
	return e != NULL && e->msg != NULL && e->msg->buf != NULL;
}
static inline int vp_enc_can(const struct pomp_encoder *e)
{
	return vp_enc_full(e) && !e->msg->finished;
}
static inline int vp_enc_kb(const struct pomp_encoder *e)
{
	return !vp_enc_full(e) || vp_kb(e->msg->buf);
}
static inline int vp_dec_kb(const struct pomp_decoder *d)
{
	return d->msg == NULL || d->msg->buf == NULL || vp_kb(d->msg->buf);
}
static inline int vp_dec_full(const struct pomp_decoder *d)
{
	return d != NULL && d->msg != NULL && d->msg->buf != NULL;
}

/* Any encoder, at any position */
static inline struct pomp_encoder *vp_mk_enc(unsigned flags)
{
	struct pomp_encoder *e;
	if (VP_RARE())
		return NULL;
	e = vp_alloc(sizeof(*e));
	e->msg = VP_RARE() ? NULL : vp_mk_msg(flags);
	if (VP_RANDOM && e->msg != NULL && e->msg->buf != NULL && IN_BOOL())
		e->pos = IN_RANGE(0, e->msg->buf->len);
	else
		e->pos = IN_LEN();
	vp_env.can_fail = IN_BOOL();
	vp_follow_byte(e->msg != NULL ? e->msg->buf : NULL);
	return e;
}

static inline struct pomp_decoder *vp_mk_dec(unsigned flags)
{
	struct pomp_decoder *d;
	if (VP_RARE())
		return NULL;
	d = vp_alloc(sizeof(*d));
	d->msg = VP_RARE() ? NULL : vp_mk_msg(flags);
	d->pos = IN_LEN();
	if (VP_RANDOM && vp_dec_full(d) && d->msg->buf->len > 0)
		d->pos %= d->msg->buf->len;
	vp_env.can_fail = IN_BOOL();
	vp_follow_byte(d->msg != NULL ? d->msg->buf : NULL);
	return d;
}

/* What is on the wire at an offset: type byte then little endian value */
static inline int vp_w_type(const struct pomp_buffer *b, size_t o, uint8_t type)
{
	return o < b->len && vp_data_at(b, o, 0, type);
}
static inline int vp_w_1(const struct pomp_buffer *b, size_t o, size_t end,
		uint8_t type, uint8_t v)
{
	return end == o + 2 && end <= b->len && vp_w_type(b, o, type) &&
		vp_data_at(b, o, 1, v);
}
static inline int vp_w_2(const struct pomp_buffer *b, size_t o, size_t end,
		uint8_t type, uint16_t v)
{
	return end == o + 3 && end <= b->len && vp_w_type(b, o, type) &&
		vp_data_at(b, o, 1, (v & 0xff)) && vp_data_at(b, o, 2, v >> 8);
}
static inline int vp_w_4(const struct pomp_buffer *b, size_t o, size_t end,
		uint8_t type, uint32_t v)
{
	return end == o + 5 && end <= b->len && vp_w_type(b, o, type) &&
		vp_data_at(b, o, 1, (v & 0xff)) &&
		vp_data_at(b, o, 2, ((v >> 8) & 0xff)) &&
		vp_data_at(b, o, 3, ((v >> 16) & 0xff)) &&
		vp_data_at(b, o, 4, v >> 24);
}
static inline int vp_w_8(const struct pomp_buffer *b, size_t o, size_t end,
		uint8_t type, uint64_t v)
{
	return end == o + 9 && end <= b->len && vp_w_type(b, o, type) &&
		vp_data_at(b, o, 1, (v & 0xff)) &&
		vp_data_at(b, o, 2, ((v >> 8) & 0xff)) &&
		vp_data_at(b, o, 3, ((v >> 16) & 0xff)) &&
		vp_data_at(b, o, 4, ((v >> 24) & 0xff)) &&
		vp_data_at(b, o, 5, ((v >> 32) & 0xff)) &&
		vp_data_at(b, o, 6, ((v >> 40) & 0xff)) &&
		vp_data_at(b, o, 7, ((v >> 48) & 0xff)) &&
		vp_data_at(b, o, 8, v >> 56);
}

/* Number of groups of 7 bits of a varint */
static inline size_t vp_varint_size(uint64_t v)
{
	return v < 0x80u ? 1 : v < 0x4000u ? 2 : v < 0x200000u ? 3 :
		v < 0x10000000u ? 4 : v < 0x800000000u ? 5 :
		v < 0x40000000000u ? 6 : v < 0x2000000000000u ? 7 :
		v < 0x100000000000000u ? 8 : v < 0x8000000000000000u ? 9 : 10;
}
static inline int vp_vb(const struct pomp_buffer *b, size_t o, size_t n,
		uint64_t v, uint32_t i)
{
	return i >= n || vp_data_is(b, o + i, (((v >> (7 * i)) & 0x7f) |
			(i + 1 < n ? 0x80u : 0u)));
}
/* Varint that starts at an offset (bytes of the buffer are in its length) */
static inline int vp_w_raw_varint(const struct pomp_buffer *b, size_t o,
		uint64_t v)
{
	size_t n = vp_varint_size(v);
	return o <= b->len && b->len - o >= n &&
		vp_vb(b, o, n, v, 0) && vp_vb(b, o, n, v, 1) &&
		vp_vb(b, o, n, v, 2) && vp_vb(b, o, n, v, 3) &&
		vp_vb(b, o, n, v, 4) && vp_vb(b, o, n, v, 5) &&
		vp_vb(b, o, n, v, 6) && vp_vb(b, o, n, v, 7) &&
		vp_vb(b, o, n, v, 8) && vp_vb(b, o, n, v, 9);
}
static inline int vp_w_varint(const struct pomp_buffer *b, size_t o, size_t end,
		uint8_t type, uint64_t v)
{
	return end == o + 1 + vp_varint_size(v) && vp_w_type(b, o, type) &&
		vp_w_raw_varint(b, o + 1, v);
}
/* Zigzag */
static inline uint64_t vp_zz(int64_t v)
{
	return v >= 0 ? 2 * (uint64_t)v : 2 * (uint64_t)(-(v + 1)) + 1;
}

static inline uint32_t vp_f32_bits(float f)
{
	union {
		float f;
		uint32_t u;
	} x;
	x.f = f;
	return x.u;
}
static inline uint64_t vp_f64_bits(double f)
{
	union {
		double f;
		uint64_t u;
	} x;
	x.f = f;
	return x.u;
}
static inline float vp_in_f32(void)
{
	union {
		float f;
		uint32_t u;
	} x;
	x.u = IN_U32();
	return x.f;
}
static inline double vp_in_f64(void)
{
	union {
		double f;
		uint64_t u;
	} x;
	x.u = IN_U64();
	return x.f;
}

/* What is read at an offset. Varint: size is 0 if it is truncated or has more
 * than 10 bytes */
static inline size_t vp_r_varint(const struct pomp_buffer *b, size_t o,
		uint64_t *v)
{
	uint64_t x = 0, y;
	size_t i;
	*v = 0;
	for (i = 0; i < 10; i++) {
		if (o >= b->len || i >= b->len - o)
			return 0;
#ifdef VP_MODULAR_READ
		y = vp_win.b[1 + i];
#else
		y = b->data[o + i];
#endif
		x |= (y & 0x7f) << (7 * i);
		if (!(y & 0x80)) {
			*v = x;
			return i + 1;
		}
	}
	return 0;
}

/* To be called before the decoder */
static inline void vp_dec_ghost(const struct pomp_decoder *d)
{
	vp_env.rsize = 0;
	vp_env.rvalue = 0;
#ifdef VP_MODULAR_READ
	{
		struct vp_win w;
		w.base = d != NULL ? d->pos : 0;
		w.n = 0;
		vp_win = w;
	}
#endif
	if (vp_dec_full(d) && d->pos < d->msg->buf->len)
		vp_env.rsize = vp_r_varint(d->msg->buf, d->pos + 1, &vp_env.rvalue);
}

/* Is there a string (buffer) with the size just read */
static inline int vp_r_buf_ok(const struct pomp_buffer *b, size_t o)
{
	return vp_env.rsize > 0 && vp_env.rvalue <= b->len - o - vp_env.rsize;
}
static inline int vp_r_str_ok(const struct pomp_buffer *b, size_t o)
{
	return vp_r_buf_ok(b, o) && vp_env.rvalue > 0 &&
		b->data[o + vp_env.rsize + vp_env.rvalue - 1] == 0;
}
static inline size_t vp_off(const struct pomp_buffer *b, const void *p)
{
	return (size_t)((const uint8_t *)p - b->data);
}
/* String in the buffer, before the position of the decoder */
static inline int vp_str_in(const struct pomp_decoder *d, const char *s)
{
	const struct pomp_buffer *b = d->msg->buf;
#ifndef VP_NATIVE
	if (!__CPROVER_same_object(s, b->data))
		return 0;
#endif
	return (const uint8_t *)s >= b->data && vp_off(b, s) < d->pos &&
			d->pos <= b->len;
}

#ifndef VP_NATIVE
#pragma CPROVER check pop
#endif

/* Strings of any length: the model of strlen gives the length of the string
 * chosen by the harness. There can be other null bytes before its end, what is
 * proved does not depend on it. */
static inline char *vp_mk_str(size_t len)
{
	char *s = (char *)vp_bytes(len + 1);
#ifdef VP_NATIVE
	size_t i;
	for (i = 0; i < len; i++)
		if (s[i] == '\0')
			s[i] = 'a';
#endif
	s[len] = '\0';
	vp_env.str = s;
	vp_env.str_len = len;
	return s;
}

static inline size_t vp_strlen(const char *s)
{
	if (s == vp_env.str)
		return vp_env.str_len;
	return strlen(s);
}
#define strlen vp_strlen

/* Duplicate a string. The verifier takes any null byte as the end, the caller
 * says where there is one. */
static inline char *vp_strdup(const char *s)
{
	char *d;
	size_t n;
#ifdef VP_NATIVE
	n = strlen(s);
#else
	size_t x, max = __CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s);
	n = x & VP_LEN_MASK;
	CHECK("P03,P04:strdup.terminated", vp_env.str_dec != NULL &&
			vp_str_in(vp_env.str_dec, s) &&
			vp_env.str_dec->msg->buf->data[vp_env.str_dec->pos - 1] == '\0');
	__CPROVER_assume(n < max && s[n] == '\0' &&
			IMP(vp_env.i < n, s[vp_env.i] != '\0'));
#endif
	d = vp_malloc(n + 1);
	if (d == NULL)
		return NULL;
#ifdef VP_MODULAR_READ
	/* Content: only what is looked at afterwards, the end and the byte at
	 * the arbitrary index */
	{
		size_t o = vp_off(vp_env.str_dec->msg->buf, s);
		__CPROVER_assume(d[n] == '\0' && IMP(vp_env.k >= o &&
			vp_env.k - o <= n, d[vp_env.k - o] == s[vp_env.k - o]));
	}
#else
	vp_memcpy(d, s, n + 1);
#endif
	vp_env.dup_src = s;
	vp_env.dup_dst = d;
	vp_env.dup_len = n;
	return d;
}
#define strdup vp_strdup

/* Copy of the string at an offset */
static inline int vp_is_copy(const struct pomp_buffer *b, size_t o,
		const char *s)
{
	size_t n = vp_env.dup_dst == s ? vp_env.dup_len : vp_env.rvalue - 1;
#ifdef VP_NATIVE
	n = strlen(s);
#endif
	return s != (const char *)b->data + o && VP_R(s, n + 1) &&
		n < vp_env.rvalue && s[n] == '\0' && b->data[o + n] == '\0' &&
		IMP(vp_env.k >= o && vp_env.k <= o + n,
				s[vp_env.k - o] == (char)vp_env.kbyte);
}

#endif
