/*
 * Formatted writes and reads against the sequence of typed ones.
 *
 * The formatted function is called first, then the typed functions that it
 * shall be equivalent to.
 *  - VP_REPLACE: the typed functions are replaced by recorders, with any result.
 *    The second pass checks that the same calls are made with the same values
 *    in the same order, up to the first failure.
 *  - otherwise (native, VP_FULL): two messages, same bytes.
 */
#include "vp.h"
#define VP_FD_SIMPLE
#include "vp_fd.h"
#include "vp_msg.h"
#include "vp_contracts.h"

/* Texts given as arguments (P14) and their values. The conversions of the C
 * library are trusted: natively they are the real ones. */
struct text {
	const char *s;
	int64_t s64;
	uint64_t u64;
	double f64;
};
#define NTEXT 3
static struct text k_text[NTEXT];
#ifndef VP_NATIVE
static int k_nouse;
static const struct text *k_find(const char *s, char **end, int base)
{
	static const struct text none;
	int i;
	for (i = 0; i < NTEXT; i++) {
		if (k_text[i].s == s && (base == 0 || base == 10)) {
			if (end != NULL)
				*end = (char *)s + strlen(s);
			return &k_text[i];
		}
	}
	k_nouse = 1;
	return &none;
}
static long k_strtol(const char *s, char **end, int base) { return k_find(s, end, base)->s64; }
static unsigned long k_strtoul(const char *s, char **end, int base) { return k_find(s, end, base)->u64; }
static double k_strtod(const char *s, char **end) { return k_find(s, end, 0)->f64; }
static int k_digit(char c)
{
	return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 :
		c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
static int k_sscanf(const char *s, const char *f, unsigned char *p)
{
	int n = 2, a;
	if (f[0] != '%')
		k_nouse = 1;
	if (f[1] == '1')
		n = 1;
	else if (f[1] != '2')
		k_nouse = 1;
	a = k_digit(s[0]);
	if (a < 0) {
		/* Nothing is said about blanks and signs, here nothing is read */
		return s[0] == '\0' ? -1 : 0;
	}
	*p = (unsigned char)(n == 2 && k_digit(s[1]) >= 0 ? a * 16 + k_digit(s[1]) : a);
	return 1;
}
#define strtol k_strtol
#define strtoll k_strtol
#define strtoul k_strtoul
#define strtoull k_strtoul
#define strtod k_strtod
#define strtof(s, e) ((float)k_strtod((s), (e)))
#define sscanf k_sscanf
#endif

#include "pomp_buffer.c"
#include "vp_abs.h"
#undef FLAG_L
#include "pomp_encoder.c"
#undef FLAG_L
#undef FLAG_LL
#undef FLAG_H
#undef FLAG_HH
#include "pomp_decoder.c"
#include "pomp_msg.c"
#include "vp_wrappers.h"

/* Values */
struct vals {
	int64_t i64;
	uint64_t u64;
	int i;
	unsigned u;
	double f64;
	const char *s;
	const void *p;
	uint32_t n;
	int fd;
};

#ifdef VP_REPLACE

/* Recorder */
struct call {
	int kind;
	uint64_t v;
	const void *p;
	int res;
};
static struct call vp_calls[6];
static unsigned vp_ncalls, vp_ncmp;
static int vp_pass;
static int vp_differ;
static struct pomp_encoder *vp_enc;

static int rec(struct pomp_encoder *enc, int kind, uint64_t v, const void *p)
{
	if (vp_enc != NULL && enc != vp_enc)
		vp_differ = 1;
	if (vp_pass == 0) {
		struct call c;
		c.kind = kind;
		c.v = v;
		c.p = p;
		c.res = IN_BOOL() ? 0 : -(int)IN_RANGE(1, 200);
		if (vp_ncalls >= 6) {
			vp_differ = 1;
			return -EINVAL;
		}
		vp_calls[vp_ncalls] = c;
		vp_ncalls++;
		return c.res;
	} else {
		struct call c;
		if (vp_ncmp >= vp_ncalls) {
			vp_differ = 1;
			return 0;
		}
		c = vp_calls[vp_ncmp];
		vp_ncmp++;
		if (c.kind != kind || c.v != v || c.p != p)
			vp_differ = 1;
		return c.res;
	}
}

int stub_pomp_encoder_write_i8(struct pomp_encoder *e, int8_t v) { return rec(e, 1, (uint64_t)v, NULL); }
int stub_pomp_encoder_write_u8(struct pomp_encoder *e, uint8_t v) { return rec(e, 2, v, NULL); }
int stub_pomp_encoder_write_i16(struct pomp_encoder *e, int16_t v) { return rec(e, 3, (uint64_t)v, NULL); }
int stub_pomp_encoder_write_u16(struct pomp_encoder *e, uint16_t v) { return rec(e, 4, v, NULL); }
int stub_pomp_encoder_write_i32(struct pomp_encoder *e, int32_t v) { return rec(e, 5, (uint64_t)v, NULL); }
int stub_pomp_encoder_write_u32(struct pomp_encoder *e, uint32_t v) { return rec(e, 6, v, NULL); }
int stub_pomp_encoder_write_i64(struct pomp_encoder *e, int64_t v) { return rec(e, 7, (uint64_t)v, NULL); }
int stub_pomp_encoder_write_u64(struct pomp_encoder *e, uint64_t v) { return rec(e, 8, v, NULL); }
int stub_pomp_encoder_write_str(struct pomp_encoder *e, const char *v) { return rec(e, 9, 0, v); }
static int vp_blob, vp_blob_null;
static uint8_t vp_blob_data[8];
int stub_pomp_encoder_write_buf(struct pomp_encoder *e, const void *v, uint32_t n)
{
	uint32_t i;
	if (vp_blob) {
		vp_blob_null = v == NULL;
		for (i = 0; i < 8; i++)
			vp_blob_data[i] = i < n ? ((const uint8_t *)v)[i] : 0;
		if (n > 0)
			(void)*((const volatile uint8_t *)v + n - 1);
		v = NULL;
	}
	return rec(e, 10, n, v);
}
int stub_pomp_encoder_write_f32(struct pomp_encoder *e, float v) { return rec(e, 11, vp_f32_bits(v), NULL); }
int stub_pomp_encoder_write_f64(struct pomp_encoder *e, double v) { return rec(e, 12, vp_f64_bits(v), NULL); }
int stub_pomp_encoder_write_fd(struct pomp_encoder *e, int v) { return rec(e, 13, (uint64_t)v, NULL); }

#endif

/* Specifications: format, arguments, typed write */
#define SPECS(X) \
	X(0, "%d", A(v->i), pomp_encoder_write_i32(e, v->i)) \
	X(1, "%i", A(v->i), pomp_encoder_write_i32(e, v->i)) \
	X(2, "%u", A(v->u), pomp_encoder_write_u32(e, v->u)) \
	X(3, "%ld", A((long)v->i64), pomp_encoder_write_i64(e, v->i64)) \
	X(4, "%li", A((long)v->i64), pomp_encoder_write_i64(e, v->i64)) \
	X(5, "%lu", A((unsigned long)v->u64), pomp_encoder_write_u64(e, v->u64)) \
	X(6, "%lld", A((long long)v->i64), pomp_encoder_write_i64(e, v->i64)) \
	X(7, "%lli", A((long long)v->i64), pomp_encoder_write_i64(e, v->i64)) \
	X(8, "%llu", A((unsigned long long)v->u64), pomp_encoder_write_u64(e, v->u64)) \
	X(9, "%hd", A(v->i), pomp_encoder_write_i16(e, (int16_t)v->i)) \
	X(10, "%hi", A(v->i), pomp_encoder_write_i16(e, (int16_t)v->i)) \
	X(11, "%hu", A(v->u), pomp_encoder_write_u16(e, (uint16_t)v->u)) \
	X(12, "%hhd", A(v->i), pomp_encoder_write_i8(e, (int8_t)v->i)) \
	X(13, "%hhi", A(v->i), pomp_encoder_write_i8(e, (int8_t)v->i)) \
	X(14, "%hhu", A(v->u), pomp_encoder_write_u8(e, (uint8_t)v->u)) \
	X(15, "%s", A(v->s), pomp_encoder_write_str(e, v->s)) \
	X(16, "%p%u", A2(v->p, v->n), pomp_encoder_write_buf(e, v->p, v->n)) \
	X(17, "%f", A(v->f64), pomp_encoder_write_f32(e, (float)v->f64)) \
	X(18, "%F", A(v->f64), pomp_encoder_write_f32(e, (float)v->f64)) \
	X(19, "%e", A(v->f64), pomp_encoder_write_f32(e, (float)v->f64)) \
	X(20, "%E", A(v->f64), pomp_encoder_write_f32(e, (float)v->f64)) \
	X(21, "%g", A(v->f64), pomp_encoder_write_f32(e, (float)v->f64)) \
	X(22, "%G", A(v->f64), pomp_encoder_write_f32(e, (float)v->f64)) \
	X(23, "%lf", A(v->f64), pomp_encoder_write_f64(e, v->f64)) \
	X(24, "%lF", A(v->f64), pomp_encoder_write_f64(e, v->f64)) \
	X(25, "%le", A(v->f64), pomp_encoder_write_f64(e, v->f64)) \
	X(26, "%lE", A(v->f64), pomp_encoder_write_f64(e, v->f64)) \
	X(27, "%lg", A(v->f64), pomp_encoder_write_f64(e, v->f64)) \
	X(28, "%lG", A(v->f64), pomp_encoder_write_f64(e, v->f64)) \
	X(29, "%x", A(v->fd), pomp_encoder_write_fd(e, v->fd))
#define NSPEC 30

static int typed(struct pomp_encoder *e, int sel, const struct vals *v)
{
#define X(n, fmt, args, call) if (sel == n) return call;
	SPECS(X)
#undef X
	return 0;
}

static int via_v(struct pomp_encoder *e, const char *fmt, ...)
{
	va_list args;
	int res;
	va_start(args, fmt);
	res = pomp_encoder_writev(e, fmt, args);
	va_end(args);
	return res;
}

#define A(x) , x
#define A2(x, y) , x, y
static int formatted(struct pomp_encoder *e, int sel, const struct vals *v,
		int how)
{
#define X(n, fmt, args, call) if (sel == n) \
	return how ? via_v(e, fmt args) : pomp_encoder_write(e, fmt args);
	SPECS(X)
#undef X
	return 0;
}

static void mk_vals(struct vals *v)
{
	v->i64 = (int64_t)IN_U64();
	v->u64 = IN_U64();
	v->i = IN_INT();
	v->u = IN_U32();
	v->f64 = vp_in_f64();
	ASSUME(v->f64 == v->f64);
	v->n = (uint32_t)IN_RANGE(0, 8);
	v->p = VP_RARE() ? NULL : vp_bytes(8);
	v->fd = (int)IN_RANGE(0, 0xffff) - 1;
	v->s = VP_RARE() ? NULL : "abc";
}

/* Two encoders (the same one if the typed functions are only recorded) */
static struct pomp_encoder *vp_e1, *vp_e2;
static struct pomp_encoder *mk_one(void)
{
	struct pomp_encoder *e = vp_alloc(sizeof(*e));
	struct pomp_msg *m = vp_alloc(sizeof(*m));
	memset(m, 0, sizeof(*m));
	e->msg = m;
	e->pos = 12;
#ifndef VP_REPLACE
	m->buf = pomp_buffer_new(64);
#endif
	return e;
}
static void mk_encs(void)
{
	vp_e1 = mk_one();
#ifdef VP_REPLACE
	vp_e2 = vp_enc = vp_e1;
#else
	vp_e2 = mk_one();
	vp_e2->msg->finished = vp_e1->msg->finished = VP_RARE();
#endif
}

#ifdef VP_REPLACE
#define PASS1() (vp_pass = 0, vp_ncalls = vp_ncmp = 0)
#define PASS2() (vp_pass = 1)
#define SAME() (!vp_differ && vp_ncmp == vp_ncalls)
#define NOTHING() (vp_ncalls == 0 && !vp_differ)
#else
#define PASS1()
#define PASS2()
static int same_bytes(void)
{
	const struct pomp_buffer *a = vp_e1->msg->buf, *b = vp_e2->msg->buf;
	size_t i;
	uint32_t j;
	if (a->len != b->len || a->fdcount != b->fdcount || vp_e1->pos != vp_e2->pos)
		return 0;
	for (j = 0; j < a->fdcount; j++) {
		if (a->fdoffs[j] != b->fdoffs[j])
			return 0;
	}
	for (i = 12; i < a->len; i++) {
		if (a->fdcount > 0 && i >= a->fdoffs[0] && i < a->fdoffs[0] + 4)
			continue;
		if (a->fdcount > 1 && i >= a->fdoffs[1] && i < a->fdoffs[1] + 4)
			continue;
		if (a->data[i] != b->data[i])
			return 0;
	}
	return 1;
}
#define SAME() same_bytes()
#define NOTHING() (vp_e1->msg->buf->len == 0 && vp_e1->pos == 12)
#endif

void h_spec(void)
{
	struct vals v;
	int sel = (int)IN_RANGE(0, NSPEC - 1), how = IN_BOOL(), r1, r2;
	mk_encs();
	mk_vals(&v);
	r1 = formatted(vp_e1, sel, &v, how);
	PASS2();
	r2 = typed(vp_e2, sel, &v);
	CHECK("P12:pomp_encoder_write.spec", r1 == r2 && SAME());
	if (r1 == 0)
		REACH("ok");
	else
		REACH("error");
}

/* Any specification after another one: nothing is left of the first one */
#ifndef VP_FIRST
#define VP_FIRST 0
#endif
static const int firsts[] = {8, 12, 23, 11, 15, 16, 29};

static int formatted2(struct pomp_encoder *e, int sel, const struct vals *v0,
		const struct vals *v)
{
	const struct vals *w = v;
	(void)w;
#define B(x) , x
#define B2(x, y) , x, y
#if VP_FIRST == 0
#define F1 "%llu"
#define A1 , (unsigned long long)v0->u64
#elif VP_FIRST == 1
#define F1 "%hhd"
#define A1 , v0->i
#elif VP_FIRST == 2
#define F1 "%lf"
#define A1 , v0->f64
#elif VP_FIRST == 3
#define F1 "%hu"
#define A1 , v0->u
#elif VP_FIRST == 4
#define F1 "%s"
#define A1 , v0->s
#elif VP_FIRST == 5
#define F1 "%p%u"
#define A1 , v0->p, v0->n
#else
#define F1 "%x"
#define A1 , v0->fd
#endif
#define X(n, fmt, args, call) if (sel == n) \
	return pomp_encoder_write(e, F1 fmt A1 args);
	SPECS(X)
#undef X
	return 0;
}

void h_pair(void)
{
	struct vals v, w;
	int sel = (int)IN_RANGE(0, NSPEC - 1), r1, r2;
	mk_encs();
	mk_vals(&v);
	mk_vals(&w);
	r1 = formatted2(vp_e1, sel, &v, &w);
	PASS2();
	r2 = typed(vp_e2, firsts[VP_FIRST], &v);
	if (r2 == 0)
		r2 = typed(vp_e2, sel, &w);
	CHECK("P12:pomp_encoder_write.sequence", r1 == r2 && SAME());
	if (r1 == 0)
		REACH("ok");
	else
		REACH("error");
}

/* Formats whose first specification is not valid */
#define FMT_MAX 6
static int in_set(char c, const char *set, int n)
{
	int i;
	for (i = 0; i < n; i++) {
		if (set[i] == c)
			return 1;
	}
	return 0;
}
/* 1: not valid, 0: valid or not specified */
static int invalid(const char *f)
{
	int l = 0, h = 0, i = 1;
	if (f[0] == '\0')
		return 0;
	if (f[0] != '%')
		return 1;
	if (f[1] == 'l')
		l = f[2] == 'l' ? 2 : 1;
	else if (f[1] == 'h')
		h = f[2] == 'h' ? 2 : 1;
	i += l + h;
	if (in_set(f[i], "lh", 2))
		return 0;
	if (in_set(f[i], "diu", 3))
		return 0;
	if (f[i] == 's')
		return 0;
	if (in_set(f[i], "fFeEgG", 6))
		return l == 2 || h != 0;
	if (f[i] == 'x')
		return l != 0 || h != 0;
	if (f[i] == 'p')
		return f[i + 1] != '%' || f[i + 2] != 'u';
	return 1;
}

/* An accepted beginning, then any character. What follows a character that is
 * refused does not matter, but for the native mode. Each character in turn: the
 * verifier then knows where the function goes. */
#ifndef VP_PREFIX
#define VP_PREFIX "%"
#endif
#ifdef VP_NATIVE
#define NCHARS 1
static void mk_fmt(char *f, int c)
{
	static const char chars[] = "%%lhdpsfxu";
	size_t i, n = sizeof(VP_PREFIX) - 1;
	int any = IN_BOOL();
	(void)c;
	for (i = 0; i < FMT_MAX; i++)
		f[i] = IN_BOOL() ? chars[IN_RANGE(0, 9)] : (char)IN_U8();
	f[FMT_MAX] = f[FMT_MAX + 1] = '\0';
	if (!any) {
		for (i = 0; i < n; i++)
			f[i] = VP_PREFIX[i];
	}
	ASSUME(invalid(f));
}
#else
#define NCHARS 256
static void mk_fmt(char *f, int c)
{
	size_t i, n = sizeof(VP_PREFIX) - 1;
	for (i = 0; i < n; i++)
		f[i] = VP_PREFIX[i];
	f[n] = (char)c;
	f[n + 1] = f[n + 2] = '\0';
}
#endif

void h_invalid(void)
{
	char f[FMT_MAX + 2];
	int res, c;
	mk_encs();
	for (c = 0; c < NCHARS; c++) {
		mk_fmt(f, c);
		if (!invalid(f))
			continue;
		res = pomp_encoder_write(vp_e1, f, 1ll, 1ll, 1ll);
		CHECK("P12:pomp_encoder_write.invalid", res < 0 && NOTHING());
		REACH("invalid");
	}
}

/* The same after a valid one */
void h_invalid2(void)
{
	char f[FMT_MAX + 5];
	struct vals v;
	int r1, r2, c;
	mk_encs();
	mk_vals(&v);
	f[0] = '%';
	f[1] = 'h';
	f[2] = 'u';
	for (c = 0; c < NCHARS; c++) {
		mk_fmt(f + 3, c);
		if (!invalid(f + 3))
			continue;
		PASS1();
		r1 = via_v(vp_e1, f, v.u, 1ll, 1ll, 1ll);
		PASS2();
		r2 = typed(vp_e2, 11, &v);
		CHECK("P12:pomp_encoder_write.invalid2", r1 < 0 && IMP(r2 < 0, r1 == r2) && SAME());
		REACH("invalid");
	}
}

void h_null(void)
{
	int res;
	mk_encs();
	res = IN_BOOL() ? pomp_encoder_write(vp_e1, NULL) : pomp_encoder_write(vp_e1, "");
	CHECK("P12:pomp_encoder_write.empty", res == 0 && NOTHING());
	CHECK("P12:pomp_encoder_write.null", pomp_encoder_write(NULL, "%d", 1) < 0);
	REACH("ok");
}

/* Formatted message */
#ifdef VP_REPLACE
static int vp_inits, vp_init_res, vp_finishes, vp_finish_res, vp_finish_late;
static uint32_t vp_id;
int stub_pomp_msg_init(struct pomp_msg *msg, uint32_t msgid)
{
	vp_inits++;
	vp_id = msgid;
	vp_differ |= vp_ncalls != 0;
	vp_init_res = IN_BOOL() ? 0 : -ENOMEM;
	if (vp_init_res == 0)
		msg->buf = vp_alloc(sizeof(*msg->buf));
	return vp_init_res;
}
int stub_pomp_msg_finish(struct pomp_msg *msg)
{
	vp_finishes++;
	vp_finish_late = vp_ncalls;
	vp_finish_res = IN_BOOL() ? 0 : -ENOMEM;
	if (vp_finish_res == 0)
		msg->finished = 1;
	return vp_finish_res;
}
#endif

void h_msg(void)
{
	struct pomp_msg *m = vp_alloc(sizeof(*m));
	struct vals v;
	uint32_t id = IN_U32();
	int r1, r2;
	memset(m, 0, sizeof(*m));
	mk_encs();
	mk_vals(&v);
#ifdef VP_REPLACE
	vp_enc = NULL;
#endif
	vp_e2->msg->finished = 0;
#ifdef VP_BAD
	r1 = pomp_msg_write(m, id, "%u%y%hd", v.u, v.i, v.i);
#else
	r1 = pomp_msg_write(m, id, "%u%s", v.u, v.s);
#endif
	PASS2();
#ifdef VP_REPLACE
	r2 = vp_init_res;
#else
	r2 = 0;
#endif
	if (r2 == 0)
		r2 = typed(vp_e2, 2, &v);
	if (r2 == 0)
#ifdef VP_BAD
		r2 = -EINVAL;
#else
		r2 = typed(vp_e2, 15, &v);
#endif
#ifdef VP_REPLACE
	CHECK("P12:pomp_msg_write.result", r1 == (r2 == 0 ? vp_finish_res : r2));
	CHECK("P12:pomp_msg_write.finish", vp_finishes == (r2 == 0) && IMP(r2 == 0, vp_finish_late == (int)vp_ncalls));
	CHECK("P12:pomp_msg_write.id", vp_inits == 1 && vp_id == id);
	CHECK("P12:pomp_msg_write.sequence", SAME());
#else
	CHECK("P12:pomp_msg_write.result", r1 == r2);
	CHECK("P12:pomp_msg_write.finish", m->finished == (r1 == 0));
	CHECK("P12:pomp_msg_write.id", m->msgid == id);
	if (r1 == 0) {
		const uint8_t *d = m->buf->data;
		CHECK("P12:pomp_msg_write.header", m->buf->len >= 12 && d[0] == 'P' &&
				d[4] == (uint8_t)id && d[5] == (uint8_t)(id >> 8) &&
				d[6] == (uint8_t)(id >> 16) && d[7] == (uint8_t)(id >> 24) &&
				d[8] == (uint8_t)m->buf->len && d[9] == (uint8_t)(m->buf->len >> 8));
	}
#endif
#ifndef VP_BAD
	if (r1 == 0)
		REACH("ok");
	else
#endif
		REACH("error");
}

/* ------------------------------------------------------------------------- */
/* Arguments given as text */
static char k_buf[NTEXT][48];

static void mk_text(int n, struct vals *v, int sel)
{
	struct text *t = &k_text[n];
	t->s64 = (int64_t)IN_U64();
	t->u64 = IN_U64();
	t->f64 = vp_in_f64();
	ASSUME(t->f64 == t->f64);
	if (IN_BOOL()) {
		t->s64 = (int)t->s64;
		t->u64 = (unsigned)t->u64;
	}
	t->s = k_buf[n];
	k_buf[n][0] = '1';
	k_buf[n][1] = '\0';
#ifdef VP_NATIVE
	if (sel <= 1 || sel == 9 || sel == 10 || sel == 12 || sel == 13 || sel == 29)
		t->s64 = (int)t->s64;
	if (sel == 2 || sel == 11 || sel == 14)
		t->u64 = (unsigned)t->u64;
	if (sel == 29)
		t->s64 = t->s64 & 1;
	if (sel >= 17 && sel <= 22)
		t->f64 = (float)t->f64;
	if (sel >= 17 && sel <= 28)
		snprintf(k_buf[n], 48, "%.17g", t->f64);
	else if (sel == 2 || sel == 5 || sel == 8 || sel == 11 || sel == 14)
		snprintf(k_buf[n], 48, IN_BOOL() ? "%llu" : "0x%llx", (unsigned long long)t->u64);
	else
		snprintf(k_buf[n], 48, "%lld", (long long)t->s64);
#endif
	(void)sel;
	v->i64 = t->s64;
	v->u64 = t->u64;
	v->i = (int)t->s64;
	v->u = (unsigned)t->u64;
	v->f64 = t->f64;
	v->s = t->s;
	v->fd = (int)t->s64;
	v->p = NULL;
	v->n = 0;
}

static const char *const spec_fmt[NSPEC] = {
#define X(n, fmt, args, call) fmt,
	SPECS(X)
#undef X
};

#ifdef VP_REPLACE
#define VP_ONCE 1
#define CONVERTED() (!k_nouse)
#else
#define VP_ONCE 0
#define CONVERTED() 1
#endif

#ifndef VP_ARGC
#define VP_ARGC 1
#endif
#ifndef VP_ARGV_NULL
#define VP_ARGV_NULL 0
#endif
/* An array of exactly argc elements */
static const char **mk_argv(int argc)
{
	const char **a = vp_alloc((size_t)argc * sizeof(*a));
	return a;
}

void h_argv(void)
{
	struct vals v;
	int sel, argc = VP_ARGC, null = VP_ARGV_NULL, r1, r2, i;
	const char **argv = mk_argv(argc);
	for (sel = 0; sel < NSPEC; sel++) {
		if (sel == 16)
			continue;
#ifdef VP_NATIVE
		if (IN_RANGE(0, 7) != 0)
			continue;
#endif
		if (!VP_ONCE || sel == 0)
			mk_encs();
		mk_text(0, &v, sel);
		for (i = 0; i < argc; i++)
			argv[i] = null ? NULL : v.s;
		PASS1();
		r1 = pomp_encoder_write_argv(vp_e1, spec_fmt[sel], argc, argv);
		PASS2();
		r2 = null ? -EINVAL : typed(vp_e2, sel, &v);
		CHECK("P14:pomp_encoder_write_argv.spec", r1 == r2 && SAME() && CONVERTED());
		REACH("end");
	}
}

/* Two specifications, one to three arguments */
void h_argv2(void)
{
	struct vals v, w;
	int sel, argc = VP_ARGC, null = VP_ARGV_NULL, r1, r2;
	const char **argv = mk_argv(argc);
	char f[12];
	int i, n;
	for (sel = 0; sel < NSPEC; sel++) {
		if (sel == 16)
			continue;
#ifdef VP_NATIVE
		if (IN_RANGE(0, 7) != 0)
			continue;
#endif
		if (!VP_ONCE || sel == 0)
			mk_encs();
		mk_text(0, &v, 11);
		mk_text(1, &w, sel);
		f[0] = '%';
		f[1] = 'h';
		f[2] = 'u';
		for (n = 3, i = 0; spec_fmt[sel][i] != '\0'; i++)
			f[n++] = spec_fmt[sel][i];
		f[n] = '\0';
		argv[0] = v.s;
		if (argc > 1)
			argv[1] = null ? NULL : w.s;
		if (argc > 2)
			argv[2] = v.s;
		PASS1();
		r1 = pomp_encoder_write_argv(vp_e1, f, argc, argv);
		PASS2();
		r2 = typed(vp_e2, 11, &v);
		if (r2 == 0)
			r2 = argc == 1 || null ? -EINVAL : typed(vp_e2, sel, &w);
		CHECK("P14:pomp_encoder_write_argv.sequence", r1 == r2 && SAME() && CONVERTED());
		REACH("end");
	}
}

/* Blob given in hexadecimal */
#ifndef VP_DIGITS
#define VP_DIGITS 7
#endif
static int h_digit(char c)
{
	return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 :
		c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
void h_blob(void)
{
	char *s;
	const char **argv;
	struct vals v;
	uint8_t want[8];
	int argc = VP_ARGC, n = (int)IN_RANGE(0, VP_DIGITS), i, j, r1, r2, good = 1, refuse = 0, live;
	uint32_t len;
	mk_encs();
	mk_text(1, &v, 2);
	len = (uint32_t)k_text[1].u64;
#ifdef VP_NATIVE
	if (IN_BOOL()) {
		len = (uint32_t)(n + 1) / 2;
		k_text[1].u64 = len;
		snprintf(k_buf[1], 48, "%u", len);
	}
#endif
	s = vp_alloc((size_t)n + 1);
	for (i = 0; i < n; i++) {
#ifdef VP_NATIVE
		s[i] = "0123456789abcdefABCDEFgz-. /:@G`"[IN_RANGE(0, VP_RARE() ? 31 : 21)];
#else
		s[i] = (char)IN_U8();
#endif
		ASSUME(s[i] != '\0');
	}
	s[n] = '\0';
	argv = mk_argv(argc);
	argv[0] = s;
	if (argc == 2)
		argv[1] = k_text[1].s;
	/* What shall be written */
	memset(want, 0, sizeof(want));
	for (i = 0, j = 0; i < (VP_DIGITS + 1) / 2; i++) {
		int a, w = i == 0 && n % 2 == 1 ? 1 : 2;
		if ((uint32_t)i >= len || j + w > n)
			break;
		a = h_digit(s[j]);
		if (a < 0) {
			good = 0;
			refuse |= !in_set(s[j], " \t\n\v\f\r+-", 8);
		}
		want[i] = (uint8_t)a;
		if (w == 2) {
			int b = h_digit(s[j + 1]);
			if (b < 0)
				good = 0;
			want[i] = (uint8_t)((unsigned)(a & 15) * 16 + (unsigned)(b & 15));
		}
		j += w;
	}
	vp_env.can_fail = 1;
	live = vp_env.live;
#ifdef VP_REPLACE
	vp_blob = 1;
#endif
	PASS1();
	r1 = pomp_encoder_write_argv(vp_e1, "%p%u", argc, argv);
	if (argc < 2 || (uint32_t)(n / 2 + n % 2) < len) {
		CHECK("P14:write_argv_blob.too_short", r1 < 0 && NOTHING());
		REACH("short");
#if VP_ARGC == 2
	} else if (vp_env.alloc_failed) {
		CHECK("P14:write_argv_blob.memory", r1 == -ENOMEM);
		REACH("memory");
	} else if (good) {
#ifdef VP_REPLACE
		CHECK("P14:write_argv_blob.data", !memcmp(vp_blob_data, want, 8));
#endif
		PASS2();
		r2 = pomp_encoder_write_buf(vp_e2, want, len);
		CHECK("P14:write_argv_blob.written", r1 == r2 && SAME());
		REACH("written");
	} else if (refuse) {
		CHECK("P14:write_argv_blob.refused", r1 < 0 && NOTHING());
		REACH("refused");
#endif
	}
#ifdef VP_REPLACE
	CHECK("P14:write_argv_blob.leak", vp_env.live == live);
#endif
	(void)live;
}
