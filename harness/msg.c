#include "vp.h"
#include "vp_fd.h"
#include "vp_msg.h"
#include "vp_contracts.h"
#include "pomp_buffer.c"
#include "vp_abs.h"
#include "pomp_encoder.c"
#include "pomp_decoder.c"
#include "pomp_msg.c"
#include "vp_wrappers.h"

/* Any message, with what the clauses need */
static struct pomp_msg *mk(void)
{
	struct pomp_msg *m = VP_RARE() ? NULL : vp_mk_msg(VP_BUF_NOFD);
	vp_env.can_fail = IN_BOOL();
	vp_follow_byte(m != NULL ? m->buf : NULL);
	vp_env.buf = m != NULL ? m->buf : NULL;
	vp_env.refs = vp_env.buf != NULL ? vp_env.buf->refcount : 0;
	vp_env.buf_blocks = vp_env.refs == 1 ? 1 + (vp_env.buf->data != NULL) : 0;
	return m;
}

void h_new(void)
{
	struct pomp_msg *m;
	vp_env.can_fail = IN_BOOL();
	m = VPC(pomp_msg_new)();
	if (m != NULL)
		REACH("ok");
	else
		REACH("nomem");
}

void h_new_copy(void)
{
	struct pomp_msg *m = mk(), *r;
	r = VPC(pomp_msg_new_copy)(m);
	if (r != NULL)
		REACH("ok");
	else if (m != NULL)
		REACH("nomem");
}

void h_new_with_buffer(void)
{
	struct pomp_buffer *b = VP_RARE() ? NULL :
			vp_mk_buf(VP_BUF_NOFD);
	struct pomp_msg *r;
	vp_env.can_fail = IN_BOOL();
	if (VP_RANDOM && b != NULL && b->len >= 12 && IN_BOOL()) {
		/* Valid header most of the time */
		uint32_t n = (uint32_t)b->len;
		b->data[0] = 'P';
		b->data[1] = 'O';
		b->data[2] = 'M';
		b->data[3] = IN_BOOL() ? 'P' : 'p';
		memcpy(b->data + 8, &n, sizeof(n));
	}
	vp_follow_byte(b);
	r = VPC(pomp_msg_new_with_buffer)(b);
	if (r != NULL)
		REACH("ok");
	else if (b != NULL)
		REACH("error");
}

void h_destroy(void)
{
	struct pomp_msg *m = mk();
	int res = VPC(pomp_msg_destroy)(m);
	if (res == 0)
		REACH("ok");
}

void h_clear(void)
{
	struct pomp_msg *m = mk();
	int res = VPC(pomp_msg_clear)(m);
	if (res == 0)
		REACH("ok");
}

void h_init(void)
{
	struct pomp_msg *m = mk();
	uint32_t id = IN_U32();
	int res;
	if (VP_RANDOM && m != NULL && IN_BOOL())
		m->buf = vp_env.buf = NULL;
	res = VPC(pomp_msg_init)(m, id);
	if (res == 0)
		REACH("ok");
	if (res == -EPERM)
		REACH("refused");
	if (res == -ENOMEM)
		REACH("nomem");
}

void h_finish(void)
{
	struct pomp_msg *m = mk();
	int res = VPC(pomp_msg_finish)(m);
	if (res == 0)
		REACH("ok");
	if (res == -ENOMEM)
		REACH("nomem");
	if (res < 0 && m != NULL && m->buf != NULL && m->finished)
		REACH("refused");
}

void h_get_id(void)
{
	VPC(pomp_msg_get_id)(mk());
	REACH("ok");
}

void h_get_buffer(void)
{
	VPC(pomp_msg_get_buffer)(mk());
	REACH("ok");
}
