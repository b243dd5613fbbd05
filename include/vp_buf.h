/* Predicates and constructors for struct pomp_buffer */
#ifndef VP_BUF_H
#define VP_BUF_H
#include "vp.h"
#include "pomp_priv.h"

#ifndef VP_NATIVE
/* Only the code of the library is checked, what is evaluated here is guarded
 * by the invariant */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif

#ifdef VP_MODULAR_READ
/* What is read from an arbitrary position, byte after byte */
#define VP_WIN 20
static struct vp_win {
	size_t base;
	uint32_t n;	/* number of bytes already read */
	uint8_t b[VP_WIN];
} vp_win;
static inline int32_t vp_win_le32(uint32_t i)
{
	return (int32_t)((uint32_t)vp_win.b[i] |
			(uint32_t)vp_win.b[i + 1] << 8 |
			(uint32_t)vp_win.b[i + 2] << 16 |
			(uint32_t)vp_win.b[i + 3] << 24);
}
/* Byte number c after the position */
#define vp_data_at(b, o, c, x) \
	((o) == vp_win.base && vp_win.b[c] == (x))
#else
#define vp_data_at(b, o, c, x) vp_data_is((b), (o) + (c), (x))
#endif

/* Same value of fd read directly */
static inline int32_t vp_slot(const struct pomp_buffer *b, size_t off)
{
#ifdef VP_MODULAR_READ
	if (off == vp_win.base + 1)
		return vp_win_le32(1);
#endif
	/* little endian machine (checked at compilation by pomp_prot.h) */
	return (int32_t)((uint32_t)b->data[off] |
			((uint32_t)b->data[off + 1] << 8) |
			((uint32_t)b->data[off + 2] << 16) |
			((uint32_t)b->data[off + 3] << 24));
}

static inline int vp_slot_in(const struct pomp_buffer *b, size_t off)
{
	return off <= b->len && b->len - off >= 4;
}

static inline int vp_disjoint(size_t a, size_t b)
{
	return a < b ? b - a >= 4 : a - b >= 4;
}

/* Slots of the fds are in the used length and do not overlap */
static inline int vp_buf_fds_ok(const struct pomp_buffer *b)
{
	return b->fdcount <= 4 &&
		IMP(b->fdcount > 0, vp_slot_in(b, b->fdoffs[0])) &&
		IMP(b->fdcount > 1, vp_slot_in(b, b->fdoffs[1]) &&
			vp_disjoint(b->fdoffs[0], b->fdoffs[1])) &&
		IMP(b->fdcount > 2, vp_slot_in(b, b->fdoffs[2]) &&
			vp_disjoint(b->fdoffs[0], b->fdoffs[2]) &&
			vp_disjoint(b->fdoffs[1], b->fdoffs[2])) &&
		IMP(b->fdcount > 3, vp_slot_in(b, b->fdoffs[3]) &&
			vp_disjoint(b->fdoffs[0], b->fdoffs[3]) &&
			vp_disjoint(b->fdoffs[1], b->fdoffs[3]) &&
			vp_disjoint(b->fdoffs[2], b->fdoffs[3]));
}

/* Data of a buffer. In the modular mode, only the byte at the arbitrary index
 * vp_env.k is represented. */
#ifdef VP_MODULAR
#define vp_data_new(n) ((n) > 0 ? (uint8_t *)vp_alloc(1) : NULL)
#define vp_kbyte(b) ((b)->data[0])
#define vp_data_is(b, i, x) ((b)->data != NULL && \
		IMP(vp_env.k == (i), (b)->data[0] == (x)))
#else
#define vp_data_new(n) ((n) > 0 ? vp_bytes(n) : NULL)
#define vp_kbyte(b) ((b)->data[vp_env.k])
#define vp_data_is(b, i, x) ((b)->len > (i) && (b)->data[i] == (x))
#endif

/* Representation invariant */
static inline int vp_buf_mem(const struct pomp_buffer *b)
{
	return VP_RW(b, sizeof(*b)) && b->refcount >= 1 &&
		b->len <= b->capacity &&
		(b->capacity == 0) == (b->data == NULL)
#ifdef VP_NATIVE
		&& IMP(b->capacity != 0, VP_RW(b->data, b->capacity))
#else
		&& IMP(b->capacity != 0, VP_RW(b->data, b->capacity) &&
			__CPROVER_OBJECT_SIZE(b->data) == b->capacity &&
			__CPROVER_POINTER_OFFSET(b->data) == 0 &&
			__CPROVER_DYNAMIC_OBJECT(b->data))
#endif
		;
}

#ifdef VP_MODULAR
static inline int vp_buf_rep(const struct pomp_buffer *b)
{
	return VP_RW(b, sizeof(*b)) && b->refcount >= 1 &&
		b->len <= b->capacity && (b->capacity == 0) == (b->data == NULL) &&
		IMP(b->data != NULL, VP_RW(b->data, 1));
}
#else
#define vp_buf_rep vp_buf_mem
#endif

static inline int vp_buf_ok(const struct pomp_buffer *b)
{
	return vp_buf_rep(b) && vp_buf_fds_ok(b);
}

/* The same to be proved: what is true for the arbitrary indices i and j is
 * true for all of them */
static inline int vp_buf_post(const struct pomp_buffer *b)
{
#ifdef VP_NATIVE
	return vp_buf_ok(b);
#else
	return vp_buf_mem(b) && b->fdcount <= 4 &&
		IMP(vp_env.i < b->fdcount, vp_slot_in(b, b->fdoffs[vp_env.i])) &&
		IMP(vp_env.i < vp_env.j && vp_env.j < b->fdcount, vp_disjoint(
			b->fdoffs[vp_env.i], b->fdoffs[vp_env.j]));
#endif
}

/* The followed byte has the expected value */
static inline int vp_kb(const struct pomp_buffer *b)
{
	return IMP(vp_env.k < b->len, vp_kbyte(b) == vp_env.kbyte);
}

static inline int vp_is_slot(const struct pomp_buffer *b, size_t off)
{
	return (b->fdcount > 0 && b->fdoffs[0] == off) ||
		(b->fdcount > 1 && b->fdoffs[1] == off) ||
		(b->fdcount > 2 && b->fdoffs[2] == off) ||
		(b->fdcount > 3 && b->fdoffs[3] == off);
}

/* Nothing there yet */
static inline int vp_slot_free(const struct pomp_buffer *b, size_t off)
{
	return IMP(b->fdcount > 0, vp_disjoint(b->fdoffs[0], off)) &&
		IMP(b->fdcount > 1, vp_disjoint(b->fdoffs[1], off)) &&
		IMP(b->fdcount > 2, vp_disjoint(b->fdoffs[2], off)) &&
		IMP(b->fdcount > 3, vp_disjoint(b->fdoffs[3], off));
}

static inline int vp_all_fds_valid(const struct pomp_buffer *b)
{
	return IMP(b->fdcount > 0, vp_slot(b, b->fdoffs[0]) >= 0) &&
		IMP(b->fdcount > 1, vp_slot(b, b->fdoffs[1]) >= 0) &&
		IMP(b->fdcount > 2, vp_slot(b, b->fdoffs[2]) >= 0) &&
		IMP(b->fdcount > 3, vp_slot(b, b->fdoffs[3]) >= 0);
}

/* The followed descriptor is in one of the slots */
static inline int vp_buf_has(const struct pomp_buffer *b)
{
	return (b->fdcount > 0 && vp_slot(b, b->fdoffs[0]) == vp_env.fd) ||
		(b->fdcount > 1 && vp_slot(b, b->fdoffs[1]) == vp_env.fd) ||
		(b->fdcount > 2 && vp_slot(b, b->fdoffs[2]) == vp_env.fd) ||
		(b->fdcount > 3 && vp_slot(b, b->fdoffs[3]) == vp_env.fd);
}

/* The followed descriptor is still in the buffer */
static inline int vp_buf_keeps(const struct pomp_buffer *b)
{
	return vp_env.fd_owns0 && vp_is_slot(b, vp_env.fd_off) &&
			vp_slot(b, vp_env.fd_off) == vp_env.fd;
}

/* All the offsets in the buffer were there before (i arbitrary) */
static inline int vp_slots_old(const struct pomp_buffer *b)
{
	size_t off;
	if (vp_env.i >= b->fdcount)
		return 1;
	off = b->fdoffs[vp_env.i];
	return (vp_env.n0 > 0 && off == vp_env.offs0[0]) ||
		(vp_env.n0 > 1 && off == vp_env.offs0[1]) ||
		(vp_env.n0 > 2 && off == vp_env.offs0[2]) ||
		(vp_env.n0 > 3 && off == vp_env.offs0[3]);
}

/* Same offsets as before */
static inline int vp_slots_same(const struct pomp_buffer *b)
{
	return b->fdcount == vp_env.n0 && IMP(vp_env.i < b->fdcount,
			b->fdoffs[vp_env.i] == vp_env.offs0[vp_env.i]);
}

/* No descriptor is lost, closed twice, or closed while in the buffer: what
 * changes for the followed one is the same for its state and for the buffer */
static inline int vp_fd_balance(const struct pomp_buffer *b)
{
	int owns = b == NULL ? 0 : vp_buf_keeps(b);
	return !vp_env.fd_err && vp_env.fd_open - owns ==
			vp_env.fd_open0 - vp_env.fd_owns0;
}

/* Is k in one of the slots */
static inline int vp_k_in_slot(const struct pomp_buffer *b, size_t k)
{
	return (b->fdcount > 0 && k >= b->fdoffs[0] && k - b->fdoffs[0] < 4) ||
		(b->fdcount > 1 && k >= b->fdoffs[1] && k - b->fdoffs[1] < 4) ||
		(b->fdcount > 2 && k >= b->fdoffs[2] && k - b->fdoffs[2] < 4) ||
		(b->fdcount > 3 && k >= b->fdoffs[3] && k - b->fdoffs[3] < 4);
}

#define VP_BUF_NOFD 1u	/* without file descriptors */
#define VP_BUF_UNIQ 2u	/* not shared */

#ifdef VP_NATIVE
/* Random search only: make it likely that the slots are disjoint and hold
 * something that can be a descriptor */
static inline void vp_random_fds(struct pomp_buffer *b)
{
	uint32_t i, j;
	for (i = 0; i < b->fdcount; i++) {
		for (j = 0; j < i; j++)
			if (!vp_disjoint(b->fdoffs[i], b->fdoffs[j])) {
				b->fdcount = i;
				b->fdoffs[i] = 0;
				return;
			}
		b->data[b->fdoffs[i] + 3] &= IN_BOOL() ? 0x7f : 0xff;
	}
}
#else
#define vp_random_fds(b) ((void)(b))
#endif

/* Any buffer that satisfies the invariant */
static inline struct pomp_buffer *vp_mk_buf(unsigned flags)
{
	struct pomp_buffer *b = vp_alloc(sizeof(*b));
	size_t i, max;
	memset(b, 0, sizeof(*b));
	if ((flags & VP_BUF_UNIQ) || IN_BOOL())
		b->refcount = 1;
	else
		b->refcount = (uint32_t)IN_RANGE(1, UINT32_MAX - 1);
	b->capacity = IN_LEN();
	b->len = IN_LEN_RANGE(0, b->capacity);
	if (b->capacity > 0)
		b->data = vp_data_new(b->capacity);
	if (!(flags & VP_BUF_NOFD) && b->len >= 4) {
#ifdef VP_FDCOUNT
		b->fdcount = VP_FDCOUNT;
#else
		b->fdcount = (uint32_t)IN_RANGE(0, 4);
#endif
		max = b->len - 4;
		for (i = 0; i < 4; i++)
			if (i < b->fdcount)
				b->fdoffs[i] = IN_LEN_RANGE(0, max);
		if (VP_RANDOM)
			vp_random_fds(b);
		ASSUME(vp_buf_fds_ok(b));
	}
	return b;
}

/* Choose the followed byte */
static inline void vp_follow_byte(const struct pomp_buffer *b)
{
	vp_env.k = IN_SIZE();
	if (VP_RANDOM)
		vp_env.k %= b != NULL && b->len > 0 ? b->len + 8 : 3000;
	vp_env.kbyte = 0;
	if (b != NULL && vp_env.k < b->len)
		vp_env.kbyte = vp_kbyte(b);
}

/* Choose the followed descriptor: one of those of the buffer or another one.
 * The buffer does not own the same descriptor twice. */
static inline void vp_follow_fd(const struct pomp_buffer *b)
{
	uint32_t i, s;
	vp_env.n0 = b == NULL ? 0 : b->fdcount;
	for (i = 0; i < 4; i++)
		vp_env.offs0[i] = b == NULL ? 0 : b->fdoffs[i];
	vp_env.i = IN_RANGE(0, 3);
	vp_env.j = IN_RANGE(0, 3);
	s = IN_RANGE(0, 4);
	vp_env.fd = (int)IN_RANGE(0, INT_MAX);
	if (s < vp_env.n0) {
		vp_env.fd_owns0 = 1;
		vp_env.fd_off = b->fdoffs[s];
		vp_env.fd = vp_slot(b, vp_env.fd_off);
		ASSUME(vp_env.fd >= 0);
	}
	for (i = 0; i < 4; i++)
		if (i < vp_env.n0 && !(vp_env.fd_owns0 && i == s))
			ASSUME(vp_slot(b, vp_env.offs0[i]) != vp_env.fd);
	vp_env.fd_open0 = vp_env.fd_owns0 ? 1 : IN_BOOL();
	vp_env.fd_open = vp_env.fd_open0;
}

#ifndef VP_NATIVE
#pragma CPROVER check pop
#endif
#endif
