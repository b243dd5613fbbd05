#include "vp.h"
#include "vp_fd.h"
#include "vp_msg.h"
#include "vp_contracts.h"
#include "pomp_buffer.c"
#include "vp_abs.h"
#include "pomp_encoder.c"
#include "pomp_decoder.c"
#include "pomp_msg.c"

#ifdef VP_MODULAR
/* Same thing as memcpy to headerbuf, written in such a way that the verifier
 * knows that the other fields do not change */
struct pomp_prot;
static struct pomp_prot *the_prot;
static inline void *prot_copy(void *d, const void *s, size_t n);
#undef memcpy
#define memcpy(d, s, n) \
	(__builtin_constant_p(n) && (n) == 4 ? vp_memcpy4((d), (s), (n)) : \
	prot_copy((d), (s), (n)))
#endif
#include "pomp_prot.c"
#ifdef VP_MODULAR
#undef memcpy
#define memcpy vp_copy
static inline void *prot_copy(void *d, const void *s, size_t n)
{
	size_t i, o = (size_t)((uint8_t *)d - the_prot->headerbuf);
	CHECK("pre:memcpy.headerbuf", __CPROVER_same_object(d, the_prot) &&
			o <= 12 && n <= 12 - o && (n == 0 || (vp_input_r(s, n) && VP_R(s, n))));
	for (i = 0; i < 12; i++)
		if (i >= o && i - o < n)
			the_prot->headerbuf[i] = ((const uint8_t *)s)[i - o];
	return d;
}
#endif
#include "vp_wrappers.h"

#ifndef VP_NATIVE
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif

static const uint8_t magic[4] = {'P', 'O', 'M', 'P'};

static int same(const uint8_t *a, const uint8_t *b, size_t n)
{
	size_t i;
	int res = 1;
	for (i = 0; i < n; i++)
		res &= a[i] == b[i];
	return res;
}

static uint32_t le32(const uint8_t *p)
{
	return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 |
			(uint32_t)p[3] << 24;
}

/* Abstract state of a decoder: number of bytes of the current message already
 * received. SIZE_MAX if there is no such state */
static size_t received(const struct pomp_prot *p)
{
	switch (p->state) {
	case POMP_PROT_STATE_IDLE: /* NO BREAK */
	case POMP_PROT_STATE_HEADER_MAGIC_0:
		return 0;
	case POMP_PROT_STATE_HEADER_MAGIC_1:
	case POMP_PROT_STATE_HEADER_MAGIC_2:
	case POMP_PROT_STATE_HEADER_MAGIC_3:
		return (size_t)p->state - POMP_PROT_STATE_HEADER_MAGIC_0;
	case POMP_PROT_STATE_HEADER:
		return p->offheader;
	case POMP_PROT_STATE_PAYLOAD:
		return p->offpayload;
	}
	return SIZE_MAX;
}

/* The header is at the start of the message */
static int payload_header(const struct pomp_prot *p)
{
#ifdef VP_MODULAR
	return p->msg->buf->data != NULL && IMP(vp_env.k < 12,
			p->msg->buf->data[0] == p->headerbuf[vp_env.k]);
#else
	size_t i;
	int res = 1;
	for (i = 0; i < 12; i++)
		res &= vp_data_is(p->msg->buf, i, p->headerbuf[i]);
	return res;
#endif
}

/* Invariant */
static int prot_ok(const struct pomp_prot *p)
{
	size_t n = received(p);
	const struct pomp_msg *m = p->msg;
	if (n == SIZE_MAX)
		return 0;
	if (p->state == POMP_PROT_STATE_PAYLOAD) {
		if (m == NULL || m->buf == NULL)
			return 0;
		return n >= 12 && p->offheader == 12 &&
			p->header.size == le32(p->headerbuf + 8) &&
			n < p->header.size && !m->finished &&
			m->msgid == le32(p->headerbuf + 4) &&
			vp_buf_rep(m->buf) && m->buf->refcount == 1 &&
			m->buf->fdcount == 0 && m->buf->len == n &&
			m->buf->capacity >= p->header.size &&
			payload_header(p) &&
			same(p->headerbuf, magic, 4);
	}
	if (m != NULL && m->buf != NULL)
		return 0;
	if (n == 0)
		return 1;
	if (p->offheader != n || (p->state == POMP_PROT_STATE_HEADER &&
			(n < 4 || n > 11)))
		return 0;
	return p->headerbuf[0] == 'P' && IMP(n > 1, p->headerbuf[1] == 'O') &&
		IMP(n > 2, p->headerbuf[2] == 'M') &&
		IMP(n > 3, p->headerbuf[3] == 'P');
}

static int blocks(const struct pomp_msg *m)
{
	return m == NULL ? 0 : m->buf == NULL ? 1 :
			2 + (m->buf->data != NULL);
}

#ifndef VP_NMIN
#define VP_NMIN 0
#endif
/* Any decoder that satisfies the invariant (payload: while receiving it) */
static struct pomp_prot *mk_prot(int payload)
{
	struct pomp_prot *p = vp_alloc(sizeof(*p));
	size_t i, n;
#ifdef VP_MODULAR
	the_prot = p;
#endif
	uint32_t size;
	struct pomp_buffer *b;
	/* What does not matter is arbitrary */
	for (i = 0; i < 12; i++)
		p->headerbuf[i] = IN_U8();
	p->offheader = IN_RANGE(0, 12);
	p->offpayload = IN_U32();
	p->header.size = IN_U32();
	p->header.msgid = IN_U32();
	memcpy(p->header.magic, magic, 4);
	p->msg = NULL;
	if (payload || IN_BOOL()) {
		p->msg = vp_alloc(sizeof(*p->msg));
		p->msg->msgid = IN_U32();
		p->msg->finished = IN_BOOL();
		p->msg->buf = NULL;
	}
	if (!payload) {
#ifdef VP_N
		n = VP_N;
#else
		n = IN_RANGE(VP_NMIN, VP_NMIN ? 11 : 12);
#endif
		p->state = n == 12 ? POMP_PROT_STATE_IDLE : n > 3 ?
			POMP_PROT_STATE_HEADER :
			POMP_PROT_STATE_HEADER_MAGIC_0 + (int)n;
		if (n > 0 && n < 12)
			p->offheader = n;
		for (i = 0; i < 4; i++)
			if (n < 12 && i < n)
				p->headerbuf[i] = magic[i];
		return p;
	}
	p->state = POMP_PROT_STATE_PAYLOAD;
	for (i = 0; i < 4; i++)
		p->headerbuf[i] = magic[i];
	p->offheader = 12;
	size = (uint32_t)IN_LEN_RANGE(13, VP_MAX_LEN < UINT32_MAX ?
			VP_MAX_LEN : UINT32_MAX);
	p->headerbuf[8] = size & 0xff;
	p->headerbuf[9] = (size >> 8) & 0xff;
	p->headerbuf[10] = (size >> 16) & 0xff;
	p->headerbuf[11] = (size >> 24) & 0xff;
	p->header.size = size;
	p->header.msgid = le32(p->headerbuf + 4);
	p->offpayload = IN_LEN_RANGE(12, size - 1);
	b = vp_alloc(sizeof(*b));
	memset(b, 0, sizeof(*b));
	b->refcount = 1;
	b->capacity = IN_LEN_RANGE(size, (size_t)size + 64);
	b->len = p->offpayload;
	b->data = vp_data_new(b->capacity);
#ifdef VP_MODULAR
	if (vp_env.k < 12)
		b->data[0] = p->headerbuf[vp_env.k];
#else
	for (i = 0; i < 12; i++)
		b->data[i] = p->headerbuf[i];
#endif
	p->msg->buf = b;
	p->msg->msgid = p->header.msgid;
	p->msg->finished = 0;
	return p;
}

/* Complete message */
static int msg_is(const struct pomp_msg *m, uint32_t id, size_t size)
{
	return m != NULL && m->msgid == id && m->finished && m->buf != NULL &&
		vp_buf_rep(m->buf) && m->buf->refcount == 1 &&
		m->buf->fdcount == 0 && m->buf->len == size;
}
#ifndef VP_NATIVE
#pragma CPROVER check pop
#endif

#ifdef VP_BOUND
#define MAX_SIZE (VP_BOUND + 20)
#else
#define MAX_SIZE (VP_MAX_ALLOC - 256)
#endif
static size_t mk_len(void)
{
	return IN_LEN_RANGE(1, VP_MAX_LEN);
}
static size_t min(size_t a, size_t b)
{
	return a < b ? a : b;
}

/* The followed byte */
static size_t mk_k(void)
{
	vp_env.k = IN_SIZE();
	if (VP_RANDOM)
		vp_env.k %= IN_BOOL() ? 30 : 3000;
	return vp_env.k;
}

/* While receiving the payload: all sizes */
void h_payload(void)
{
	size_t k = mk_k();
	struct pomp_prot *p = mk_prot(1);
	size_t len = mk_len(), n = p->offpayload, size = p->header.size, c;
	uint32_t id = p->header.msgid;
	uint8_t *in = vp_mk_input(len, k - n), kb = 0;
	struct pomp_msg *m = NULL, *pm = p->msg;
	int res, live = vp_env.live;
	vp_env.can_fail = IN_BOOL();
	c = min(min(len, INT_MAX), size - n);
	if (k < n)
		kb = vp_kbyte(pm->buf);
	else if (k < n + c)
		kb = vp_input_byte(in, k - n);
	if (IN_BOOL())
		m = pm; /* not read */
	res = pomp_prot_decode_msg(p, in, len, &m);
	CHECK("P10:payload.consumed", res > 0 && (size_t)res == c);
	CHECK("P10:payload.complete", (m != NULL) == (n + c == size));
	if (m != NULL) {
		CHECK("P10:payload.msg", m == pm && msg_is(m, id, size));
		CHECK("P10:payload.bytes", IMP(k < size, vp_kbyte(m->buf) == kb));
		CHECK("P10,P11:payload.next", p->msg == NULL && prot_ok(p) && received(p) == 0);
		REACH("complete");
	} else {
		CHECK("P10:payload.state", prot_ok(p) && received(p) == n + c && p->msg == pm &&
				p->header.size == size && p->header.msgid == id);
		CHECK("P10:payload.partial", IMP(k < n + c, vp_kbyte(p->msg->buf) == kb));
		REACH("partial");
	}
	CHECK("P10,P11:payload.noleak", vp_env.live == live);
}

/* While receiving a right header, any number of bytes after it */
void h_header(void)
{
	size_t k = mk_k();
	struct pomp_prot *p = mk_prot(0);
	size_t len = mk_len(), n = received(p), c, i, size;
	uint8_t *in = vp_mk_input(len, k - n), kb, head[12];
	struct pomp_msg *m = NULL;
	int res, live = vp_env.live, had = blocks(p->msg);
	for (i = 0; i < 4; i++)
		if (i >= n && i - n < len)
			in[i - n] = magic[i];
	if (VP_RANDOM) {
		for (i = 9; i < 12; i++)
			if (i >= n && i - n < len)
				in[i - n] = i == 9 ? in[i - n] % 10 : 0;
		if (n > 9)
			p->headerbuf[9] %= 10;
		if (n > 10)
			p->headerbuf[10] = 0;
	}
	for (i = 0; i < 12; i++)
		head[i] = i < n ? p->headerbuf[i] : i - n < len ? in[i - n] : 0;
	size = n + len >= 12 ? le32(head + 8) : 12;
	ASSUME(size >= 12 && size <= MAX_SIZE);
	c = min(min(len, INT_MAX), size - n);
	if (n + len < 12)
		c = len;
	kb = k < n ? p->headerbuf[k % 12] : k - n < c ? vp_input_byte(in, k - n) : 0;
	/* No failure here (see h_step) */
	res = pomp_prot_decode_msg(p, in, len, &m);
	CHECK("P10:header.consumed", res > 0 && (size_t)res == c);
	CHECK("P10:header.complete", (m != NULL) == (n + len >= 12 && n + c == size));
	if (m != NULL) {
		CHECK("P10:header.msg", msg_is(m, le32(head + 4), size));
		CHECK("P10:header.bytes", IMP(k < size, vp_kbyte(m->buf) == kb));
		CHECK("P10,P11:header.next", p->msg == NULL && prot_ok(p) && received(p) == 0);
		REACH("complete");
	} else {
		CHECK("P10:header.state", prot_ok(p) && received(p) == n + c);
		CHECK("P10:header.partial", IMP(k < 12 && k < n + c, p->headerbuf[k % 12] == kb));
		CHECK("P10:header.payload", IMP(n + c >= 12 && k < n + c, vp_kbyte(p->msg->buf) == kb));
		if (n + c < 12)
			REACH("header");
		else
			REACH("payload");
	}
	CHECK("P10,P11:header.noleak", vp_env.live == live - had + blocks(p->msg) + blocks(m));
}

/* Any data, allocations can fail: compared with the definition of the stream,
 * byte by byte. One byte (then this defines what happens for any stream given
 * byte by byte), or a limited number. */
#ifndef ANY_MAX
#define ANY_MAX 4
#endif
#if defined(VP_NATIVE) && ANY_MAX > 1
#undef ANY_MAX
#define ANY_MAX 14
#endif
void h_any(void)
{
	size_t k = vp_env.k = IN_RANGE(0, ANY_MAX + 11);
	struct pomp_prot *p = mk_prot(0);
	size_t len = IN_RANGE(1, ANY_MAX), n = received(p), i, n0;
	uint8_t in[ANY_MAX], head[12], out[ANY_MAX + 12];
	struct pomp_msg *m = NULL;
	int res, live = vp_env.live, had = blocks(p->msg), done = 0, nomem = 0;
	uint32_t size = 0;
	for (i = 0; i < ANY_MAX; i++)
		in[i] = IN_U8();
	if (VP_RANDOM)
		for (i = 0; i < ANY_MAX; i++) {
			uint8_t x = IN_U8();
			in[i] = x < 40 ? in[i] : x < 140 ? magic[x % 4] : x < 180 ? 0 : x % 20;
		}
	for (i = 0; i < 12; i++)
		out[i] = head[i] = p->headerbuf[i];
	/* All or nothing fails */
	vp_env.can_fail = IN_BOOL() ? 2 : 0;
	/* What shall happen */
	for (i = 0; i < ANY_MAX; i++) {
		if (i >= len || done)
			break;
		if (n < 4) {
			if (in[i] == magic[n])
				head[n++] = in[i];
			else {
				n = in[i] == 'P' ? 1 : 0;
				head[0] = in[i];
			}
		} else {
			out[n] = in[i];
			if (n < 12)
				head[n] = in[i];
			n++;
		}
		if (n == 12) {
			size = le32(head + 8);
			if (size < 12)
				n = 0;
			else if (vp_env.can_fail) {
				nomem = 1;
				n = 0;
			}
		}
		if (n >= 12 && n == size) {
			done = 1;
			break;
		}
	}
	for (n0 = 0; n0 < 12; n0++)
		out[n0] = head[n0];
	res = pomp_prot_decode_msg(p, in, len, &m);
	if (!vp_env.can_fail)
		ASSUME(!vp_env.alloc_failed);
	CHECK("P10,P11:any.consumed", res > 0 && (size_t)res == (done ? i + 1 : len));
	CHECK("P10,P11:any.complete", (m != NULL) == done);
	if (m != NULL) {
		CHECK("P10,P11:any.msg", msg_is(m, le32(head + 4), size));
		CHECK("P10,P11:any.bytes", IMP(k < size, vp_kbyte(m->buf) == out[k]));
		CHECK("P10,P11:any.next", p->msg == NULL && prot_ok(p) && received(p) == 0);
		REACH("complete");
	} else {
		CHECK("P10,P11:any.state", prot_ok(p) && received(p) == n);
		CHECK("P10,P11:any.partial", IMP(k < 12 && k < n, p->headerbuf[k % 12] == head[k % 12]));
		CHECK("P10,P11:any.payload", IMP(n >= 12 && k < n, vp_kbyte(p->msg->buf) == out[k]));
		if (nomem)
			REACH("nomem");
		if (n >= 12)
			REACH("payload");
	}
	CHECK("P11:any.noleak", vp_env.live == live - had + blocks(p->msg) + blocks(m));
}

void h_new(void)
{
	struct pomp_prot *p;
	vp_env.can_fail = IN_BOOL();
	p = pomp_prot_new();
	CHECK("P10:new", (p == NULL) == vp_env.alloc_failed);
	if (p != NULL) {
		CHECK("P10:new.state", p->msg == NULL && prot_ok(p) && received(p) == 0);
		CHECK("P10:new.live", vp_env.live == 1);
		REACH("ok");
	} else {
		CHECK("P11:new.noleak", vp_env.live == 0);
		REACH("nomem");
	}
}

void h_destroy(void)
{
	struct pomp_prot *p = VP_RARE() ? NULL : mk_prot(IN_BOOL());
	int n = p == NULL ? 0 : 1 + blocks(p->msg);
	int res = pomp_prot_destroy(p);
	CHECK("P10:destroy.result", res == (p == NULL ? -EINVAL : 0));
	CHECK("P10,P11:destroy.freed", vp_env.live == -n);
	REACH("ok");
}

/* The message belongs to the caller, its buffer can be shared */
void h_release(void)
{
	struct pomp_prot *p = mk_prot(IN_BOOL());
	size_t n = received(p);
	struct pomp_msg *m = VP_RARE() ? NULL : vp_mk_msg(VP_BUF_NOFD);
	struct pomp_msg *pm = p->msg;
	struct pomp_buffer *b = m != NULL ? m->buf : NULL;
	uint32_t refs = b != NULL ? b->refcount : 0;
	int res, freed = refs == 1 ? 1 + (b->data != NULL) : 0;
	res = pomp_prot_release_msg(p, m);
	CHECK("P10:release.result", res == (m == NULL ? -EINVAL : 0));
	CHECK("P10:release.state", prot_ok(p) && received(p) == n);
	CHECK("P10:release.msg", IMP(pm != NULL, p->msg == pm));
	CHECK("P10,P11:release.freed", vp_env.live == -freed - (m != NULL && p->msg != m));
	CHECK("P10:release.shared", IMP(refs > 1, b->refcount == refs - 1));
	REACH("ok");
}
