/*
 * Common definitions of the verification harnesses.
 *
 * A harness is compiled in three ways from the same text:
 *  - VP_DFCC : goto-cc, contracts of the functions given to goto-instrument
 *              --dfcc --enforce-contract;
 *  - VP_PLAIN: goto-cc, contracts evaluated by generated wrappers (vpc_xxx),
 *              optionally with the sizes limited by VP_BOUND to obtain a
 *              counterexample that can be replayed;
 *  - VP_NATIVE: gcc with sanitizers, same wrappers, inputs taken from a replay
 *              file or from a pseudo random generator.
 *
 * The sources of the library are included verbatim by the harnesses. The only
 * thing that is changed is where some external functions go (see the defines
 * at the end of this file and vp_env.h).
 */
#ifndef VP_H
#define VP_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <time.h>
#include <signal.h>
#include <inttypes.h>
#include <pthread.h>
#include <unistd.h>
#include <netdb.h>
#include <poll.h>
#include <sys/poll.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/param.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>

#if !defined(VP_DFCC) && !defined(VP_PLAIN) && !defined(VP_NATIVE)
#error mode not given
#endif

/* Modular mode: callees are replaced by their contracts, see vp_abs.h */
#if defined(VP_MODULAR_OK) && !defined(VP_NATIVE) && !defined(VP_BOUND) && \
		!defined(VP_FULL)
#define VP_MODULAR
#endif
/* The same for the functions that read from a buffer */
#if defined(VP_MODULAR_READ_OK) && !defined(VP_NATIVE) && \
		!defined(VP_BOUND) && !defined(VP_FULL)
#define VP_MODULAR_READ
#endif

/* Implication, also usable in contracts */
#define IMP(a, b) (!(a) || (b))

/* Largest size that the environment accepts to allocate */
#ifdef VP_BOUND
#define VP_MAX_ALLOC ((size_t)1 << 20)
#elif defined(VP_NATIVE)
#define VP_MAX_ALLOC ((size_t)1 << 26)
#else
#define VP_MAX_ALLOC ((size_t)1 << 34)
#endif

#ifndef VP_NATIVE

extern uint64_t vp_log;
uint64_t vp_log;
static inline uint64_t vp_in(void)
{
	uint64_t x;
	vp_log = x;
	return x;
}
static inline uint64_t vp_in_range(uint64_t lo, uint64_t hi)
{
	uint64_t x;
	__CPROVER_assume(x >= lo && x <= hi);
	vp_log = x;
	return x;
}
#ifdef VP_BOUND
#define VP_LEN_MASK (VP_BOUND < 64 ? 63 : 0xffff)
#else
#define VP_LEN_MASK (2 * VP_MAX_ALLOC - 1)
#endif
/* Sizes of objects: the upper bits are known by the verifier to be 0 */
static inline uint64_t vp_in_len(uint64_t lo, uint64_t hi)
{
	uint64_t x;
	x &= VP_LEN_MASK;
	__CPROVER_assume(x >= lo && x <= hi);
	vp_log = x;
	return x;
}
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(label, c) __CPROVER_assert((c), "VP:" label)
/* Shall be reached (the assertion has to fail) */
#define REACH(label) __CPROVER_assert(0, "REACH:" label)
#define VP_RW(p, n) __CPROVER_rw_ok((p), (n))
#define VP_R(p, n) __CPROVER_r_ok((p), (n))
/* Values not read in a replay file */
#define VP_RANDOM 0

#else /* VP_NATIVE */

uint64_t vp_in(void);
uint64_t vp_in_range(uint64_t lo, uint64_t hi);
#define vp_in_len vp_in_range
void vp_assume_failed(void);
void vp_check_failed(const char *label, const char *expr);
void vp_reach(const char *label);
#define ASSUME(c) do { if (!(c)) vp_assume_failed(); } while (0)
#define CHECK(label, c) do { if (!(c)) vp_check_failed(label, #c); } while (0)
#define REACH(label) vp_reach(label)
/* The program is compiled with the address sanitizer */
void *__asan_region_is_poisoned(void *p, size_t n);
static inline int vp_rw(const void *p, size_t n)
{
	return n == 0 || (p != NULL && n < ((size_t)1 << 40) &&
			__asan_region_is_poisoned((void *)p, n) == NULL);
}
#define VP_RW(p, n) vp_rw((p), (n))
#define VP_R(p, n) vp_rw((p), (n))
extern int vp_random;
#define VP_RANDOM vp_random

#endif /* VP_NATIVE */

#define IN_BOOL() ((int)(vp_in_range(0, 1)))
#define IN_U8() ((uint8_t)vp_in_range(0, 0xff))
#define IN_U16() ((uint16_t)vp_in_range(0, 0xffff))
#define IN_U32() ((uint32_t)vp_in_range(0, 0xffffffffu))
#define IN_U64() (vp_in())
#define IN_SIZE() ((size_t)vp_in())
#define IN_INT() ((int)(uint32_t)vp_in_range(0, 0xffffffffu))
#define IN_RANGE(lo, hi) (vp_in_range((lo), (hi)))

/* Null arguments and other things that shall be rare with random inputs */
#ifdef VP_NONULL
#define VP_RARE() 0
#else
#define VP_RARE() (IN_RANGE(0, 31) == 31)
#endif

/* Length of an object */
#ifdef VP_BOUND
#define VP_MAX_LEN ((size_t)VP_BOUND)
#elif defined(VP_NATIVE)
#define VP_MAX_LEN ((size_t)3000)
#else
#define VP_MAX_LEN VP_MAX_ALLOC
#endif
#define IN_LEN() ((size_t)vp_in_len(0, VP_MAX_LEN))
#define IN_LEN_RANGE(lo, hi) ((size_t)vp_in_len((lo), (hi)))

/* Ghost state of the environment. Everything in it is written by the models
 * of the external functions only, all contracts allow it to change. */
struct pomp_decoder;
struct pomp_buffer;
struct vp_env {
	int		err;		/* errno */
	int		can_fail;	/* memory allocation can fail */
	int		alloc_failed;	/* one did */
	/* Arbitrary index followed by contracts on byte arrays, and the byte
	 * there before the call */
	size_t		k;
	uint8_t		kbyte;
	/* Descriptors: one arbitrary number is followed (fd) */
	int		fd;
	int		fd_open;	/* state of the followed descriptor */
	int		fd_open0;	/* the same before the call */
	int		fd_owns0;	/* was it in the buffer before the call */
	size_t		fd_off;		/* and where */
	/* Offsets of all the descriptors of the buffer before the call */
	uint32_t	n0;
	size_t		offs0[4];
	/* Arbitrary indices in that array */
	uint32_t	i, j;
	int		fd_err;		/* closed while not open */
	int		fd_dups;	/* number of descriptors created by dup */
	int		fd_closes;	/* number of calls to close */
	int		fd_dup_src;	/* last call to dup */
	int		fd_dup_dst;
	int		fd_dup_failed;
	/* String chosen by the harness */
	const char	*str;
	size_t		str_len;
	/* Varint that follows the type where the decoder is: number of bytes (0:
	 * truncated or too long) and value */
	size_t		rsize;
	uint64_t	rvalue;
	/* There is a null byte before the position of this decoder */
	const struct pomp_decoder *str_dec;
	/* Last string duplicated */
	const char	*dup_src;
	char		*dup_dst;
	size_t		dup_len;
	/* Buffer of the message, number of references before, and number of
	 * blocks that are freed with its last reference */
	struct pomp_buffer *buf;
	uint32_t	refs;
	int		buf_blocks;
	/* Number of blocks of memory allocated and not freed */
	int		live;
};
extern struct vp_env vp_env;
struct vp_env vp_env;

#undef errno
#define errno vp_env.err

/* Memory allocation */
static inline int vp_alloc_fails(size_t n)
{
	if (n > VP_MAX_ALLOC || vp_env.can_fail == 2 ||
			(vp_env.can_fail && IN_BOOL())) {
		vp_env.alloc_failed = 1;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}

static inline void *vp_malloc(size_t n)
{
	if (vp_alloc_fails(n))
		return NULL;
	vp_env.live++;
	return malloc(n);
}

static inline void *vp_calloc(size_t m, size_t n)
{
	if (vp_alloc_fails(n))
		return NULL;
	vp_env.live++;
	return calloc(m, n);
}

static inline void vp_free(void *p)
{
	if (p != NULL)
		vp_env.live--;
	free(p);
}

static inline void *vp_realloc(void *p, size_t n)
{
	if (p == NULL)
		return vp_malloc(n);
	if (n == 0) {
		/* glibc */
		vp_free(p);
		return NULL;
	}
	if (vp_alloc_fails(n))
		return NULL;
#ifdef VP_NATIVE
	return realloc(p, n);
#else
	{
		void *q = malloc(n);
		size_t m = __CPROVER_OBJECT_SIZE(p);
		__CPROVER_assume(q != NULL);
		if (m > n)
			m = n;
		if (m > 0)
			(memcpy)(q, p, m);
		free(p);
		return q;
	}
#endif
}

/* memcpy of 0 bytes is allowed with null pointers */
static inline void *vp_memcpy(void *d, const void *s, size_t n)
{
	if (n == 0)
		return d;
#ifdef VP_SMALL_COPIES
	/* All the copies done by the harness have a known small size: same
	 * result, easier for the verifier */
	if (n <= VP_SMALL_COPIES) {
		size_t i;
		for (i = 0; i < n; i++)
			((uint8_t *)d)[i] = ((const uint8_t *)s)[i];
		return d;
	}
#endif
	return memcpy(d, s, n);
}

#ifdef VP_NATIVE
#define vp_memcpy4 vp_memcpy
#define vp_memcpy8 vp_memcpy
#else
static inline void *vp_memcpy4(void *d, const void *s, size_t n)
{
	uint8_t *dd = d;
	const uint8_t *ss = s;
	(void)n;
	dd[0] = ss[0];
	dd[1] = ss[1];
	dd[2] = ss[2];
	dd[3] = ss[3];
	return d;
}
static inline void *vp_memcpy8(void *d, const void *s, size_t n)
{
	vp_memcpy4(d, s, 4);
	vp_memcpy4((uint8_t *)d + 4, (const uint8_t *)s + 4, 4);
	return d;
}
#endif
#define vp_copy(d, s, n) \
	(__builtin_constant_p(n) && (n) == 4 ? vp_memcpy4((d), (s), (n)) : \
	__builtin_constant_p(n) && (n) == 8 ? vp_memcpy8((d), (s), (n)) : \
	vp_memcpy((d), (s), (n)))

static inline int vp_fprintf(FILE *f, const char *fmt, ...)
{
	(void)f;
	(void)fmt;
	return 0;
}

static inline char *vp_strerror(int e)
{
	(void)e;
	return (char *)"";
}

/* Memory of the harness itself, never fails */
static inline void *vp_alloc(size_t n)
{
	void *p = malloc(n);
#ifndef VP_NATIVE
	__CPROVER_assume(p != NULL);
#endif
	return p;
}

/* Array of n arbitrary bytes */
static inline uint8_t *vp_bytes(size_t n)
{
	uint8_t *p = vp_alloc(n);
#ifdef VP_NATIVE
	size_t i;
	for (i = 0; i < n; i++)
		p[i] = IN_U8();
#elif defined(VP_BOUND)
	/* Only for the trace */
	size_t i;
	for (i = 0; i < n; i++)
		vp_log = p[i];
#endif
	return p;
}

#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#define memcpy vp_copy
#define fprintf vp_fprintf
#define strerror vp_strerror

#endif /* !VP_H */
