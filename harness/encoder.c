#include "vp.h"
#include "vp_fd.h"
#include "vp_msg.h"
#include "vp_contracts.h"
#include "pomp_buffer.c"
#include "vp_abs.h"
#include "pomp_encoder.c"
#include "vp_wrappers.h"

#define AFTER(res) do { \
	if ((res) == 0) \
		REACH("ok"); \
	if ((res) == -EPERM) \
		REACH("refused"); \
	if ((res) == -ENOMEM) \
		REACH("nomem"); \
} while (0)

#define H_SCALAR(_name, _type, _in) \
void h_##_name(void) \
{ \
	struct pomp_encoder *e = vp_mk_enc(VP_BUF_NOFD); \
	_type v = (_type)_in; \
	int res = VPC(pomp_encoder_write_##_name)(e, v); \
	AFTER(res); \
}

H_SCALAR(i8, int8_t, IN_U8())
H_SCALAR(u8, uint8_t, IN_U8())
H_SCALAR(i16, int16_t, IN_U16())
H_SCALAR(u16, uint16_t, IN_U16())
H_SCALAR(i32, int32_t, IN_U32())
H_SCALAR(u32, uint32_t, IN_U32())
H_SCALAR(i64, int64_t, IN_U64())
H_SCALAR(u64, uint64_t, IN_U64())
H_SCALAR(f32, float, vp_in_f32())
H_SCALAR(f64, double, vp_in_f64())

void h_str(void)
{
	struct pomp_encoder *e = vp_mk_enc(VP_BUF_NOFD);
	/* Around the limit with pseudo random inputs */
	size_t len = VP_RANDOM && IN_BOOL() ? IN_RANGE(65530, 65540) :
			IN_LEN_RANGE(0, VP_MAX_LEN);
	char *s = vp_mk_str(len);
	int res = VPC(pomp_encoder_write_str)(e,
			VP_RARE() ? NULL : s);
	AFTER(res);
#ifndef VP_BOUND
	if (res == -EINVAL && len > 0xffff)
		REACH("toolong");
#endif
}

void h_buf(void)
{
	struct pomp_encoder *e = vp_mk_enc(VP_BUF_NOFD);
	uint32_t n = (uint32_t)IN_LEN_RANGE(0, VP_MAX_LEN < UINT32_MAX ?
			VP_MAX_LEN : UINT32_MAX);
	uint8_t *p = vp_bytes(n);
	int res = VPC(pomp_encoder_write_buf)(e,
			VP_RARE() ? NULL : p, n);
	AFTER(res);
}

void h_fd(void)
{
	struct pomp_encoder *e = vp_mk_enc(0);
	int fd = IN_INT(), res;
	vp_follow_fd(vp_enc_full(e) ? e->msg->buf : NULL);
	if (VP_RANDOM && IN_BOOL())
		fd = vp_env.fd;
	/* Arguments are put one after the other */
	if (vp_enc_full(e))
		ASSUME(e->pos >= e->msg->buf->len);
	res = VPC(pomp_encoder_write_fd)(e, fd);
	AFTER(res);
}

void h_init(void)
{
	struct pomp_encoder e, *pe = IN_BOOL() ? &e : NULL;
	struct pomp_msg *m = IN_BOOL() ? vp_mk_msg(VP_BUF_NOFD) : NULL;
	int res = VPC(pomp_encoder_init)(pe, m);
	if (res == 0)
		REACH("ok");
}

void h_clear(void)
{
	struct pomp_encoder e, *pe = IN_BOOL() ? &e : NULL;
	int res = VPC(pomp_encoder_clear)(pe);
	if (res == 0)
		REACH("ok");
}

void h_new(void)
{
	struct pomp_encoder *e;
	vp_env.can_fail = IN_BOOL();
	e = VPC(pomp_encoder_new)();
	if (e != NULL)
		REACH("ok");
	else
		REACH("nomem");
}

void h_destroy(void)
{
	struct pomp_encoder *e = IN_BOOL() ? vp_alloc(sizeof(*e)) : NULL;
	int res = VPC(pomp_encoder_destroy)(e);
	if (res == 0)
		REACH("ok");
}
