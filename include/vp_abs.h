/*
 * Contracts of the functions on buffers, in the form used by their callers.
 *
 * In the modular mode (VP_MODULAR), a caller is verified against this instead
 * of the body of the functions: a buffer only has one byte of data, the one at
 * the arbitrary index vp_env.k. What is not determined by the contract
 * (failure, new capacity) is given by the caller: any value that satisfies
 * vp_abs_can_xxx. The units buffer.abs_xxx verify that the real functions do
 * what is written here.
 */
#ifndef VP_ABS_H
#define VP_ABS_H
#include "vp_buf.h"

#ifndef VP_NATIVE
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif

/* What is not determined */
struct vp_choice {
	int fail;
	size_t capacity;
};

#ifdef VP_MODULAR
static inline uint8_t vp_input_byte(const void *p, size_t i);
#else
#define vp_input_byte(p, i) (((const uint8_t *)(p))[i])
#define vp_mk_input(len, j) vp_bytes(len)
#endif

/* pomp_buffer_ensure_capacity */
static inline int vp_abs_can_ensure(const struct pomp_buffer *b, size_t n,
		const struct vp_choice *c)
{
	if (b == NULL || b->refcount > 1 || n <= b->capacity)
		return 1;
	return c->fail ? vp_env.alloc_failed :
			c->capacity >= n && c->capacity <= VP_MAX_ALLOC;
}
static inline int vp_abs_ensure(struct pomp_buffer *b, size_t n,
		const struct vp_choice *c, int *newdata)
{
	*newdata = 0;
	if (b == NULL)
		return -EINVAL;
	if (b->refcount > 1)
		return -EPERM;
	if (n <= b->capacity)
		return 0;
	if (c->fail)
		return -ENOMEM;
	*newdata = b->capacity == 0;
	b->capacity = c->capacity;
	return 0;
}

/* pomp_buffer_write. kb: byte at index k */
static inline int vp_abs_can_write(const struct pomp_buffer *b, size_t pos,
		const void *p, size_t n, const struct vp_choice *c)
{
	if (b == NULL || p == NULL || n > SIZE_MAX - pos)
		return 1;
	if (b->refcount == 1 && pos + n > SIZE_MAX - 255)
		return c->fail;
	return vp_abs_can_ensure(b, pos + n, c);
}
static inline int vp_abs_write(struct pomp_buffer *b, size_t *pos,
		const void *p, size_t n, const struct vp_choice *c,
		int *newdata, uint8_t *kb)
{
	int res;
	*newdata = 0;
	if (b == NULL || pos == NULL || p == NULL)
		return -EINVAL;
	if (b->refcount > 1)
		return -EPERM;
	if (n > SIZE_MAX - *pos)
		return -EINVAL;
	res = vp_abs_ensure(b, *pos + n, c, newdata);
	if (res < 0)
		return res;
	if (vp_env.k >= *pos && vp_env.k - *pos < n)
		*kb = vp_input_byte(p, vp_env.k - *pos);
	*pos += n;
	if (*pos > b->len)
		b->len = *pos;
	return 0;
}

#ifdef VP_MODULAR

/* Input data of any length: the first bytes, and the one at the arbitrary
 * index j */
#define VP_INPUT_MAX 16
static struct {
	const uint8_t *p;
	size_t len;
	size_t j;
	uint8_t jbyte;
} vp_input;
static inline int vp_input_r(const void *p, size_t n)
{
	size_t o = (size_t)((const uint8_t *)p - vp_input.p);
	if (vp_input.p == NULL || !__CPROVER_same_object(p, vp_input.p))
		return VP_R(p, n);
	return o <= vp_input.len && n <= vp_input.len - o;
}
static inline uint8_t vp_input_byte(const void *p, size_t i)
{
	size_t o = (size_t)((const uint8_t *)p - vp_input.p) + i;
	uint8_t x;
	if (vp_input.p == NULL || !__CPROVER_same_object(p, vp_input.p))
		return ((const uint8_t *)p)[i];
	return o < VP_INPUT_MAX ? vp_input.p[o] : o == vp_input.j ? vp_input.jbyte : x;
}
/* Input of a given length (j: index followed) */
static inline uint8_t *vp_mk_input(size_t len, size_t j)
{
	uint8_t *p = vp_alloc(VP_INPUT_MAX);
	vp_input.p = p;
	vp_input.len = len;
	vp_input.j = j;
	vp_input.jbyte = IN_U8();
	return p;
}

static inline void vp_choose(struct vp_choice *c)
{
	vp_env.alloc_failed = 0;
	c->fail = vp_env.can_fail == 2 || (vp_env.can_fail && IN_BOOL());
	c->capacity = IN_SIZE();
}

static inline int abs_ensure_capacity(struct pomp_buffer *b, size_t n)
{
	struct vp_choice c;
	int newdata, failed = vp_env.alloc_failed, res;
	CHECK("pre:pomp_buffer_ensure_capacity", b == NULL || VP_RW(b, sizeof(*b)));
	if (b == NULL)
		return -EINVAL;
	vp_choose(&c);
	if (!c.fail && n > VP_MAX_ALLOC - 256)
		c.fail = IN_BOOL();
	if (c.fail && b->refcount == 1 && n > b->capacity)
		vp_env.alloc_failed = 1;
	ASSUME(vp_abs_can_ensure(b, n, &c));
	vp_env.alloc_failed |= failed;
	res = vp_abs_ensure(b, n, &c, &newdata);
	if (newdata) {
		b->data = vp_alloc(1);
		vp_env.live++;
	}
	return res;
}

static inline int abs_write(struct pomp_buffer *b, size_t *pos, const void *p,
		size_t n)
{
	struct vp_choice c;
	int newdata, failed = vp_env.alloc_failed, res;
	uint8_t kb;
	CHECK("pre:pomp_buffer_write", (b == NULL || VP_RW(b, sizeof(*b))) &&
			(pos == NULL || VP_RW(pos, sizeof(*pos))) &&
			(p == NULL || n == 0 || vp_input_r(p, n)));
	if (b == NULL || pos == NULL || p == NULL)
		return -EINVAL;
	kb = IN_U8();
	/* What is between the used length and the position is unknown */
	if (b->data != NULL && !(vp_env.k >= b->len && vp_env.k < *pos))
		kb = b->data[0];
	vp_choose(&c);
	if (!c.fail && *pos + n > VP_MAX_ALLOC - 256)
		c.fail = IN_BOOL();
	if (c.fail && b->refcount == 1 && *pos + n > b->capacity)
		vp_env.alloc_failed = 1;
	ASSUME(vp_abs_can_write(b, *pos, p, n, &c));
	vp_env.alloc_failed |= failed;
	res = vp_abs_write(b, pos, p, n, &c, &newdata, &kb);
	if (newdata) {
		b->data = vp_alloc(1);
		vp_env.live++;
	}
	if (b->data != NULL)
		b->data[0] = kb;
	return res;
}

static inline int abs_writeb(struct pomp_buffer *b, size_t *pos, uint8_t x)
{
	return abs_write(b, pos, &x, 1);
}

static inline int abs_append_data(struct pomp_buffer *b, const void *p, size_t n)
{
	size_t pos;
	if (b == NULL || p == NULL)
		return -EINVAL;
	pos = b->len;
	return abs_write(b, &pos, p, n);
}

static inline struct pomp_buffer *abs_new(size_t capacity)
{
	struct pomp_buffer *b;
	if (vp_alloc_fails(sizeof(*b)) || (capacity > 0 && vp_alloc_fails(capacity)))
		return NULL;
	b = vp_alloc(sizeof(*b));
	memset(b, 0, sizeof(*b));
	b->refcount = 1;
	b->capacity = capacity;
	vp_env.live++;
	if (capacity > 0) {
		b->data = vp_alloc(1);
		vp_env.live++;
	}
	return b;
}

/* For what is included after. The other functions (unref, clear...) work as
 * they are on such a buffer without descriptors. */
#define pomp_buffer_ensure_capacity abs_ensure_capacity
#define pomp_buffer_write abs_write
#define pomp_buffer_writeb abs_writeb
#define pomp_buffer_append_data abs_append_data
#define pomp_buffer_new abs_new

#endif

/* Functions that read. Executable form of the contracts of buffer.spec. */
static inline int vp_abs_read(const struct pomp_buffer *b, size_t *pos, size_t n)
{
	if (*pos > b->len || n > b->len - *pos)
		return -EINVAL;
	*pos += n;
	return 0;
}
static inline int vp_abs_read_fd(const struct pomp_buffer *b, size_t *pos)
{
	if (!vp_is_slot(b, *pos) || vp_slot(b, *pos) < 0)
		return -EINVAL;
	*pos += 4;
	return 0;
}

#ifdef VP_MODULAR_READ

static inline int abs_readb(const struct pomp_buffer *b, size_t *pos, uint8_t *p)
{
	CHECK("pre:pomp_buffer_readb", (b == NULL || VP_R(b, sizeof(*b))) &&
			(pos == NULL || VP_RW(pos, sizeof(*pos))) &&
			(p == NULL || VP_RW(p, 1)));
	if (b == NULL || pos == NULL || p == NULL)
		return -EINVAL;
	CHECK("pre:sequential", vp_win.n < VP_WIN && *pos == vp_win.base + vp_win.n);
	/* Nothing can be read after a failure, so always incremented */
	vp_win.n++;
	if (*pos >= b->len)
		return -EINVAL;
	*p = vp_win.b[vp_win.n - 1];
	*pos += 1;
	return 0;
}

static inline int abs_read(const struct pomp_buffer *b, size_t *pos, void *p,
		size_t n)
{
	uint32_t i;
	int res;
	CHECK("pre:pomp_buffer_read", (b == NULL || VP_R(b, sizeof(*b))) &&
			(pos == NULL || VP_RW(pos, sizeof(*pos))) &&
			(p == NULL || VP_RW(p, n)));
	if (b == NULL || pos == NULL || p == NULL)
		return -EINVAL;
	CHECK("pre:sequential", n <= 8 && vp_win.n + n <= VP_WIN &&
			*pos == vp_win.base + vp_win.n);
	vp_win.n += (uint32_t)n;
	res = vp_abs_read(b, pos, n);
	if (res < 0)
		return res;
	for (i = 0; i < n; i++)
		((uint8_t *)p)[i] = vp_win.b[vp_win.n - (uint32_t)n + i];
	return 0;
}

static inline int abs_cread(const struct pomp_buffer *b, size_t *pos,
		const void **p, size_t n)
{
	size_t pos0;
	int res;
	CHECK("pre:pomp_buffer_cread", (b == NULL || VP_R(b, sizeof(*b))) &&
			(pos == NULL || VP_RW(pos, sizeof(*pos))) &&
			(p == NULL || VP_RW(p, sizeof(*p))));
	if (b == NULL || pos == NULL || p == NULL)
		return -EINVAL;
	pos0 = *pos;
	res = vp_abs_read(b, pos, n);
	if (res == 0)
		*p = b->data + pos0;
	return res;
}

static inline int abs_read_fd(const struct pomp_buffer *b, size_t *pos, int *fd)
{
	size_t pos0;
	int res;
	CHECK("pre:pomp_buffer_read_fd", (b == NULL || VP_R(b, sizeof(*b))) &&
			(pos == NULL || VP_RW(pos, sizeof(*pos))) &&
			(fd == NULL || VP_RW(fd, sizeof(*fd))));
	if (b == NULL || pos == NULL || fd == NULL)
		return -EINVAL;
	pos0 = *pos;
	CHECK("pre:sequential", pos0 == vp_win.base + 1);
	res = vp_abs_read_fd(b, pos);
	*fd = IN_INT();
	if (res == 0)
		*fd = vp_slot(b, pos0);
	return res;
}

#define pomp_buffer_read abs_read
#define pomp_buffer_readb abs_readb
#define pomp_buffer_cread abs_cread
#define pomp_buffer_read_fd abs_read_fd
#endif

#ifndef VP_NATIVE
#pragma CPROVER check pop
#endif
#endif
