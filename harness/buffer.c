#include "vp.h"
#include "vp_fd.h"
#include "vp_buf.h"
#include "vp_contracts.h"
#include "pomp_buffer.c"
#include "vp_wrappers.h"
#include "vp_abs.h"

/* Once in a while */
#define RARE() (IN_RANGE(0, 31) == 31)

static struct pomp_buffer *mk(void)
{
	struct pomp_buffer *b = RARE() ? NULL : vp_mk_buf(0);
	vp_env.can_fail = IN_BOOL();
	vp_follow_byte(b);
	vp_follow_fd(b);
	return b;
}

static size_t mk_pos(void)
{
	return RARE() ? IN_SIZE() : IN_LEN();
}

void h_write(void)
{
	struct pomp_buffer *b = mk();
	size_t pos = mk_pos(), n = IN_LEN();
	uint8_t *p = RARE() ? NULL : vp_bytes(n);
	int res = VPC(pomp_buffer_write)(b, RARE() ? NULL : &pos, p, n);
	if (res == 0)
		REACH("ok");
	if (res == -EPERM)
		REACH("shared");
	if (res == -ENOMEM)
		REACH("nomem");
}

void h_append_data(void)
{
	struct pomp_buffer *b = mk();
	size_t n = IN_LEN();
	uint8_t *p = RARE() ? NULL : vp_bytes(n);
	int res = VPC(pomp_buffer_append_data)(b, p, n);
	if (res == 0)
		REACH("ok");
	if (res == -EPERM)
		REACH("shared");
}

void h_append_buffer(void)
{
	struct pomp_buffer *b = mk();
	struct pomp_buffer *s = RARE() ? NULL : vp_mk_buf(VP_BUF_NOFD);
	int res = VPC(pomp_buffer_append_buffer)(b, s);
	if (res == 0)
		REACH("ok");
	if (res == -EPERM)
		REACH("shared");
}

void h_ensure_capacity(void)
{
	struct pomp_buffer *b = mk();
	int res = VPC(pomp_buffer_ensure_capacity)(b, mk_pos());
	if (res == 0)
		REACH("ok");
	if (res == -EPERM)
		REACH("shared");
	if (res == -ENOMEM)
		REACH("nomem");
}

void h_set_capacity(void)
{
	struct pomp_buffer *b = mk();
	int res = VPC(pomp_buffer_set_capacity)(b, mk_pos());
	if (res == 0)
		REACH("ok");
	if (res == -EPERM)
		REACH("shared");
	if (res == -ENOMEM)
		REACH("nomem");
}

void h_set_len(void)
{
	struct pomp_buffer *b = mk();
	size_t len = VP_RANDOM && b != NULL ? IN_RANGE(0, b->capacity + 2) :
			mk_pos();
	int res = VPC(pomp_buffer_set_len)(b, len);
	if (res == 0)
		REACH("ok");
	if (res == 0 && vp_env.fd_owns0 && !vp_env.fd_open)
		REACH("closed");
	if (res == -EPERM)
		REACH("shared");
	if (res == -EINVAL)
		REACH("inval");
}

void h_clear(void)
{
	struct pomp_buffer *b = mk();
	int res = VPC(pomp_buffer_clear)(b);
	if (res == 0 && vp_env.fd_owns0)
		REACH("closed");
	if (res == -EPERM)
		REACH("shared");
}

void h_ref(void)
{
	struct pomp_buffer *b = vp_mk_buf(0);
	VPC(pomp_buffer_ref)(b);
	REACH("end");
}

void h_unref(void)
{
	struct pomp_buffer *b = vp_mk_buf(0);
	vp_follow_byte(b);
	vp_follow_fd(b);
	VPC(pomp_buffer_unref)(b);
	if (vp_env.fd_owns0 && !vp_env.fd_open)
		REACH("closed");
	if (vp_env.fd_owns0 && vp_env.fd_open)
		REACH("open");
}

void h_is_shared(void)
{
	struct pomp_buffer *b = mk();
	if (VPC(pomp_buffer_is_shared)(b))
		REACH("shared");
	else
		REACH("not");
}

void h_new(void)
{
	struct pomp_buffer *b;
	vp_env.can_fail = IN_BOOL();
	b = VPC(pomp_buffer_new)(mk_pos());
	if (b != NULL)
		REACH("ok");
	else
		REACH("nomem");
}

void h_new_get_data(void)
{
	struct pomp_buffer *b;
	void *data = NULL;
	size_t n;
	vp_env.can_fail = IN_BOOL();
	n = mk_pos();
	b = VPC(pomp_buffer_new_get_data)(n, RARE() ? NULL : &data);
	if (b != NULL)
		REACH("ok");
	else
		REACH("nomem");
}

void h_new_with_data(void)
{
	size_t n = IN_LEN();
	uint8_t *p = n == 0 ? NULL : vp_bytes(n);
	struct pomp_buffer *b;
	vp_env.can_fail = IN_BOOL();
	vp_follow_byte(NULL);
	b = VPC(pomp_buffer_new_with_data)(p, n);
	if (b != NULL)
		REACH("ok");
	else
		REACH("nomem");
}

void h_new_copy(void)
{
	struct pomp_buffer *b = mk(), *c;
	c = VPC(pomp_buffer_new_copy)(b);
	if (c != NULL)
		REACH("ok");
#if !defined(VP_FDCOUNT) || VP_FDCOUNT > 0
	if (c == NULL && b != NULL && !vp_env.alloc_failed)
		REACH("dup");
#endif
	if (vp_env.alloc_failed)
		REACH("nomem");
}

void h_get_data(void)
{
	struct pomp_buffer *b = mk();
	void *data = NULL;
	size_t len = 0, cap = 0;
	void **pdata = IN_BOOL() ? &data : NULL;
	size_t *plen = IN_BOOL() ? &len : NULL;
	size_t *pcap = IN_BOOL() ? &cap : NULL;
	int res = VPC(pomp_buffer_get_data)(b, pdata, plen, pcap);
	if (res == 0)
		REACH("ok");
	if (res == -EPERM)
		REACH("shared");
}

void h_get_cdata(void)
{
	struct pomp_buffer *b = mk();
	const void *data = NULL;
	size_t len = 0, cap = 0;
	const void **pdata = IN_BOOL() ? &data : NULL;
	size_t *plen = IN_BOOL() ? &len : NULL;
	size_t *pcap = IN_BOOL() ? &cap : NULL;
	int res = VPC(pomp_buffer_get_cdata)(b, pdata, plen, pcap);
	if (res == 0)
		REACH("ok");
}

void h_read(void)
{
	struct pomp_buffer *b = mk();
	size_t pos = mk_pos(), n = IN_LEN();
	uint8_t *p = RARE() ? NULL : vp_alloc(n);
	int res;
	if (VP_RANDOM && b != NULL && IN_BOOL()) {
		/* Around the limit */
		pos = IN_RANGE(0, b->len);
		if (n > b->len - pos + 2)
			n = b->len - pos + n % 3;
		p = vp_alloc(n);
	}
	res = VPC(pomp_buffer_read)(b, RARE() ? NULL : &pos, p, n);
	if (res == 0)
		REACH("ok");
	if (res < 0)
		REACH("err");
}

void h_cread(void)
{
	struct pomp_buffer *b = mk();
	size_t pos = mk_pos(), n = mk_pos();
	const void *p = NULL, **pp = RARE() ? NULL : &p;
	int res;
	if (VP_RANDOM && b != NULL && IN_BOOL()) {
		pos = IN_RANGE(0, b->len);
		n = b->len - pos + n % 3;
	}
	res = VPC(pomp_buffer_cread)(b, RARE() ? NULL : &pos, pp, n);
	if (res == 0)
		REACH("ok");
	if (res < 0)
		REACH("err");
}

void h_write_fd(void)
{
	struct pomp_buffer *b = mk();
	size_t pos = mk_pos();
	int fd = IN_INT(), res;
	if (VP_RANDOM) {
		if (IN_BOOL())
			fd = vp_env.fd;
		if (b != NULL && IN_BOOL())
			pos = b->len;
	}
	res = VPC(pomp_buffer_write_fd)(b, RARE() ? NULL : &pos, fd);
	if (res == 0 && vp_env.fd_open && !vp_env.fd_open0)
		REACH("ok");
	if (res == -EPERM)
		REACH("shared");
	if (res == -ENFILE)
		REACH("toomany");
	if (res == -ENOMEM)
		REACH("nomem");
}

void h_read_fd(void)
{
	struct pomp_buffer *b = mk();
	size_t pos = mk_pos();
	int fd = -1, res, *pfd = RARE() ? NULL : &fd;
	if (VP_RANDOM && b != NULL && IN_BOOL() && b->fdcount > 0)
		pos = b->fdoffs[pos % b->fdcount];
	res = VPC(pomp_buffer_read_fd)(b, RARE() ? NULL : &pos, pfd);
	if (res == 0)
		REACH("ok");
	if (res < 0)
		REACH("err");
}

void h_register_fd(void)
{
	struct pomp_buffer *b = mk();
	size_t off = VP_RANDOM && b != NULL && b->len >= 4 && IN_BOOL() ?
			IN_RANGE(0, b->len - 4) : mk_pos();
	int fd = IN_INT(), res;
	/* Given by the caller, so not already in the buffer */
	ASSUME(IMP(fd == vp_env.fd, !vp_env.fd_owns0));
	if (b != NULL)
		ASSUME(vp_slot_free(b, off));
	res = VPC(pomp_buffer_register_fd)(b, off, fd);
	if (res == 0)
		REACH("ok");
	if (res == -ENFILE)
		REACH("toomany");
}

void h_get_fd(void)
{
	struct pomp_buffer *b = mk();
	size_t off = mk_pos();
	int res = VPC(pomp_buffer_get_fd)(b, off);
	if (res >= 0)
		REACH("ok");
}

/* The form of the contracts used by the callers (see vp_abs.h) */
static void same_abs(const struct pomp_buffer *b, const struct pomp_buffer *t)
{
	CHECK("P05,P10:abs.same", b->len == t->len && b->capacity == t->capacity &&
			b->refcount == t->refcount && b->fdcount == t->fdcount &&
			(b->capacity == 0) == (b->data == NULL));
}

void h_abs_write(void)
{
	struct pomp_buffer *b = mk(), t = {0};
	size_t pos = mk_pos(), n = IN_LEN(), pos0 = pos, tpos = pos, len0 = 0;
	uint8_t *p = RARE() ? NULL : vp_bytes(n), kb = vp_env.kbyte;
	struct vp_choice c;
	int res, tres, newdata, null = RARE(), live = vp_env.live;
	if (b != NULL) {
		t = *b;
		len0 = b->len;
	}
	res = pomp_buffer_write(b, null ? NULL : &pos, p, n);
	c.fail = res == -ENOMEM;
	c.capacity = b != NULL ? b->capacity : 0;
	CHECK("P05,P10:abs_write.can", null || vp_abs_can_write(b == NULL ? NULL : &t, tpos, p, n, &c));
	tres = vp_abs_write(b == NULL ? NULL : &t, null ? NULL : &tpos, p, n, &c, &newdata, &kb);
	CHECK("P05,P10:abs_write.result", res == tres && pos == tpos);
	CHECK("P05,P10:abs_write.mem", vp_env.live == live + newdata);
	if (b != NULL) {
		same_abs(b, &t);
		CHECK("P05,P10:abs_write.byte", IMP(vp_env.k < b->len && !(vp_env.k >= len0 && vp_env.k < pos0),
				b->data[vp_env.k] == kb));
	}
	if (res == 0)
		REACH("ok");
}

void h_abs_ensure(void)
{
	struct pomp_buffer *b = mk(), t = {0};
	size_t n = mk_pos();
	struct vp_choice c;
	int res, tres, newdata, live = vp_env.live;
	if (b != NULL)
		t = *b;
	res = pomp_buffer_ensure_capacity(b, n);
	c.fail = res == -ENOMEM;
	c.capacity = b != NULL ? b->capacity : 0;
	CHECK("P05,P10:abs_ensure.can", n > SIZE_MAX - 255 || vp_abs_can_ensure(b == NULL ? NULL : &t, n, &c));
	tres = vp_abs_ensure(b == NULL ? NULL : &t, n, &c, &newdata);
	CHECK("P05,P10:abs_ensure.result", res == tres);
	CHECK("P05,P10:abs_ensure.mem", vp_env.live == live + newdata);
	if (b != NULL) {
		same_abs(b, &t);
		CHECK("P05,P10:abs_ensure.byte", IMP(vp_env.k < b->len, b->data[vp_env.k] == vp_env.kbyte));
	}
	if (res == 0)
		REACH("ok");
}
