/*
 * Loop: registrations (P22), dispatch (P23), idle functions (P24). The system
 * calls are replaced by a model of epoll, events (P25) and the watchdog (P28)
 * by what matters here.
 */
#include "vp.h"

#define FD_COLLIDE 141
#define EPFD 100000
#define WKFD 100001
#define NFD 4
#ifndef OP
#define OP 0
#endif
#ifndef IDLE
#define IDLE 0
#endif
/* The first two are in the same list of the table */
#ifndef VP_NATIVE
static const int k_fds[NFD] = {5, FD_COLLIDE, 0, 77};
#else
static int k_fds[NFD];
#endif

/* epoll */
static uint32_t k_events[NFD];
static int k_in[NFD], k_bad, k_fail, k_wake_in, k_open[2], k_new_fail;
static uint64_t k_wake;
static int k_nready, k_wait_calls, k_wait_timeout, k_wait_err, k_intr;
static struct epoll_event k_ready[3];

static int k_find(int fd)
{
	int i;
	for (i = 0; i < NFD; i++) {
		if (k_fds[i] == fd)
			return i;
	}
	return -1;
}
static int k_epoll_create(int n)
{
	(void)n;
	if (k_new_fail == 1) {
		errno = EMFILE;
		return -1;
	}
	k_open[0] = 1;
	return EPFD;
}
static int k_eventfd(unsigned int n, int flags)
{
	(void)flags;
	if (k_new_fail == 2) {
		errno = EMFILE;
		return -1;
	}
	k_wake = n;
	k_open[1] = 1;
	return WKFD;
}
static int k_close(int fd)
{
	if (fd == EPFD && k_open[0])
		k_open[0] = 0;
	else if (fd == WKFD && k_open[1])
		k_open[1] = 0;
	else
		k_bad = 1;
	return 0;
}
static int k_fcntl(int fd, int op, ...)
{
	(void)fd;
	(void)op;
	return 0;
}
static int k_epoll_ctl(int ep, int op, int fd, struct epoll_event *e)
{
	int i = k_find(fd);
	if (ep != EPFD || !k_open[0])
		k_bad = 1;
	if (op != EPOLL_CTL_DEL && (e == NULL || e->data.fd != fd))
		k_bad = 1;
	if (op != EPOLL_CTL_DEL && e != NULL && (e->events & (EPOLLET | EPOLLONESHOT)))
		k_bad = 1;
	if (fd == WKFD) {
		if (k_new_fail == 3) {
			errno = ENOSPC;
			return -1;
		}
		k_wake_in = op != EPOLL_CTL_DEL;
		return 0;
	}
	if (i < 0) {
		k_bad = 1;
		errno = EBADF;
		return -1;
	}
	if (k_fail != 0 && op != EPOLL_CTL_DEL) {
		errno = k_fail;
		return -1;
	}
	if (op == EPOLL_CTL_ADD ? k_in[i] : !k_in[i]) {
		k_bad = 1;
		errno = k_in[i] ? EEXIST : ENOENT;
		return -1;
	}
	k_in[i] = op != EPOLL_CTL_DEL;
	k_events[i] = op != EPOLL_CTL_DEL ? e->events : 0;
	return 0;
}
static int k_epoll_wait(int ep, struct epoll_event *e, int n, int timeout)
{
	int i;
	if (ep != EPFD || !k_open[0] || n < 3)
		k_bad = 1;
	k_wait_timeout = timeout;
	k_wait_calls++;
	if (k_intr > 0) {
		k_intr--;
		errno = EINTR;
		return -1;
	}
	if (k_wait_err != 0) {
		errno = k_wait_err;
		return -1;
	}
	for (i = 0; i < k_nready; i++)
		e[i] = k_ready[i];
	return k_nready;
}
static ssize_t k_read(int fd, void *p, size_t n)
{
	if (fd != WKFD || n != 8 || k_wake == 0) {
		k_bad |= fd != WKFD;
		errno = EAGAIN;
		return -1;
	}
	*(uint64_t *)p = k_wake;
	k_wake = 0;
	return 8;
}
static ssize_t k_write(int fd, const void *p, size_t n)
{
	if (fd != WKFD || n != 8) {
		k_bad = 1;
		return -1;
	}
	k_wake += *(const uint64_t *)p;
	return 8;
}
static int k_locked;
static int k_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; return 0; }
static int k_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
static int k_mutex_lock(pthread_mutex_t *m) { (void)m; k_bad |= k_locked; k_locked = 1; return 0; }
static int k_mutex_unlock(pthread_mutex_t *m) { (void)m; k_bad |= !k_locked; k_locked = 0; return 0; }

#define close k_close
#define read k_read
#define write k_write
#define fcntl k_fcntl
#define eventfd k_eventfd
#define epoll_create k_epoll_create
#define epoll_create1 k_epoll_create
#define epoll_ctl k_epoll_ctl
#define epoll_wait k_epoll_wait
#define pthread_mutex_init k_mutex_init
#define pthread_mutex_destroy k_mutex_destroy
#define pthread_mutex_lock k_mutex_lock
#define pthread_mutex_unlock k_mutex_unlock

#include "vp_contracts.h"
#include "pomp_log.c"
#include "pomp_loop.c"
#include "vp_wrappers.h"

/* Events and watchdog */
static int e_signal, e_attached, e_new_fail, e_live;
static pomp_evt_cb_t e_cb;
static void *e_userdata;
static struct pomp_evt e_obj;
struct pomp_evt *pomp_evt_new(void)
{
	if (e_new_fail == 1)
		return NULL;
	e_live++;
	return &e_obj;
}
int pomp_evt_destroy(struct pomp_evt *e) { if (e == NULL) return -EINVAL; k_bad |= e_attached || e_live != 1; e_live--; return 0; }
int pomp_evt_attach_to_loop(struct pomp_evt *e, struct pomp_loop *l, pomp_evt_cb_t cb, void *u)
{
	(void)l;
	k_bad |= e != &e_obj || e_attached;
	if (e_new_fail == 2)
		return -ENOMEM;
	e_attached = 1;
	e_cb = cb;
	e_userdata = u;
	return 0;
}
int pomp_evt_detach_from_loop(struct pomp_evt *e, struct pomp_loop *l)
{
	(void)l;
	if (e == NULL)
		return -EINVAL;
	if (!e_attached)
		return -ENOENT;
	e_attached = 0;
	return 0;
}
int pomp_evt_signal(struct pomp_evt *e) { k_bad |= e != &e_obj; e_signal = 1; return 0; }
int pomp_evt_clear(struct pomp_evt *e) { k_bad |= e != &e_obj; e_signal = 0; return 0; }
static int w_depth, w_enters;
void pomp_watchdog_init(struct pomp_watchdog *w) { (void)w; }
void pomp_watchdog_clear(struct pomp_watchdog *w) { (void)w; }
int pomp_watchdog_start(struct pomp_watchdog *w, struct pomp_loop *l, uint32_t d, pomp_watchdog_cb_t c, void *u) { (void)w; (void)l; (void)d; (void)c; (void)u; return 0; }
int pomp_watchdog_stop(struct pomp_watchdog *w) { (void)w; return 0; }
void pomp_watchdog_enter(struct pomp_watchdog *w) { (void)w; w_depth++; w_enters++; }
void pomp_watchdog_leave(struct pomp_watchdog *w) { (void)w; w_depth--; }

static struct pomp_loop *h_loop;
static char h_data[NFD];
/* What shall be registered */
static int m_in[NFD];
static uint32_t m_events[NFD];

static uint32_t to_epoll(uint32_t e)
{
	return ((e & POMP_FD_EVENT_IN) ? EPOLLIN : 0) | ((e & POMP_FD_EVENT_PRI) ? EPOLLPRI : 0) |
		((e & POMP_FD_EVENT_OUT) ? EPOLLOUT : 0) | ((e & POMP_FD_EVENT_ERR) ? EPOLLERR : 0) |
		((e & POMP_FD_EVENT_HUP) ? EPOLLHUP : 0);
}
static uint32_t from_epoll(uint32_t e)
{
	return ((e & EPOLLIN) ? POMP_FD_EVENT_IN : 0) | ((e & EPOLLPRI) ? POMP_FD_EVENT_PRI : 0) |
		((e & EPOLLOUT) ? POMP_FD_EVENT_OUT : 0) | ((e & EPOLLERR) ? POMP_FD_EVENT_ERR : 0) |
		((e & EPOLLHUP) ? POMP_FD_EVENT_HUP : 0);
}

static void reset(void);
static void init(void)
{
#ifdef VP_NATIVE
	int i, j;
	reset();
	for (i = 0; i < NFD; i++) {
		k_fds[i] = i < 2 && IN_BOOL() ? (i ? FD_COLLIDE : 5) : (int)IN_RANGE(0, IN_BOOL() ? 300 : 900);
		for (j = 0; j < i; j++)
			ASSUME(k_fds[i] != k_fds[j]);
	}
#endif
	h_loop = pomp_loop_new();
	ASSUME(h_loop != NULL);
}

/* Callback of the registrations (P23) */
static int d_cur, d_calls, d_action;
static int d_callable(int i)
{
	int n;
	if (from_epoll(k_ready[i].events) == 0 || k_ready[i].data.fd == WKFD)
		return 0;
	n = k_find(k_ready[i].data.fd);
	return n >= 0 && m_in[n];
}
static void h_cb(int fd, uint32_t revents, void *userdata)
{
	int n;
	while (d_cur < k_nready && !d_callable(d_cur))
		d_cur++;
	CHECK("P23:dispatch.expected", d_cur < k_nready && k_ready[d_cur].data.fd == fd);
	if (d_cur >= k_nready)
		return;
	CHECK("P23:dispatch.events", revents == from_epoll(k_ready[d_cur].events));
	n = k_find(fd);
	CHECK("P23:dispatch.userdata", n >= 0 && userdata == &h_data[n]);
	CHECK("P23:dispatch.watchdog", w_depth == 1);
	CHECK("P23:dispatch.unlocked", !k_locked);
	d_cur++;
	d_calls++;
	/* Something is removed or added once */
	if (d_action >= 0 && d_action < NFD) {
		n = d_action;
		d_action = -1;
		if (m_in[n]) {
			m_in[n] = 0;
			CHECK("P23:dispatch.remove", pomp_loop_remove(h_loop, k_fds[n]) == 0);
		} else {
			m_in[n] = 1;
			CHECK("P23:dispatch.add", pomp_loop_add(h_loop, k_fds[n], POMP_FD_EVENT_IN, &h_cb, &h_data[n]) == 0);
		}
	}
}

static void mk_regs(int max)
{
	int i;
	vp_env.can_fail = 0;
	for (i = 0; i < max; i++) {
		if (!IN_BOOL())
			continue;
		m_events[i] = IN_U32();
		ASSUME(m_events[i] != 0);
		m_in[i] = 1;
		ASSUME(pomp_loop_add(h_loop, k_fds[i], m_events[i], &h_cb, &h_data[i]) == 0);
	}
}

static int regs_ok(void)
{
	int i, ok = !k_bad && !k_locked && k_wake_in;
	for (i = 0; i < NFD; i++)
		ok = ok && k_in[i] == m_in[i] && IMP(m_in[i], k_events[i] == to_epoll(m_events[i])) &&
			pomp_loop_has_fd(h_loop, k_fds[i]) == m_in[i];
	return ok;
}

void h_regs(void)
{
	int i, n = (int)IN_RANGE(0, NFD - 1), res, op = OP, live;
	uint32_t e = IN_U32(), f = IN_U32();
	init();
	mk_regs(3);
	live = vp_env.live;
	k_fail = IN_BOOL() ? (int)IN_RANGE(1, 100) : 0;
	vp_env.can_fail = 1;
	if (op == 0) {
		res = pomp_loop_add(h_loop, k_fds[n], e, &h_cb, &h_data[n]);
		if (m_in[n]) {
			CHECK("P22:pomp_loop_add.present", e == 0 ? res < 0 : res == -EEXIST);
			REACH("present");
		} else if (e == 0) {
			CHECK("P22:pomp_loop_add.no_event", res < 0);
		} else {
			CHECK("P22:pomp_loop_add.result", vp_env.alloc_failed ? res == -ENOMEM : res == -k_fail);
			REACH("absent");
		}
		if (res == 0) {
			CHECK("P22:pomp_loop_add.memory", vp_env.live == live + 1);
			m_in[n] = 1;
			m_events[n] = e;
		} else {
			CHECK("P22:pomp_loop_add.failure_memory", vp_env.live == live);
		}
	} else if (op == 1 || op == 2) {
		res = op == 1 ? pomp_loop_update(h_loop, k_fds[n], e) : pomp_loop_update2(h_loop, k_fds[n], e, f);
		CHECK("P22:pomp_loop_update.result", m_in[n] ? res == -k_fail : res == -ENOENT);
		CHECK("P22:pomp_loop_update.memory", vp_env.live == live);
		if (res == 0)
			m_events[n] = op == 1 ? e : (m_events[n] | e) & ~f;
		if (res == 0)
			REACH("updated");
		else
			REACH("not updated");
	} else {
		k_fail = 0;
		res = pomp_loop_remove(h_loop, k_fds[n]);
		CHECK("P22:pomp_loop_remove.result", m_in[n] ? res == 0 : res == -ENOENT);
		CHECK("P22:pomp_loop_remove.memory", vp_env.live == live - m_in[n]);
		m_in[n] = 0;
		REACH("end");
	}
	CHECK("P22:loop.registrations", regs_ok());
	/* What is known by the loop itself */
	k_fail = 0;
	i = (int)IN_RANGE(0, NFD - 1);
	res = pomp_loop_update2(h_loop, k_fds[i], 0, 0);
	CHECK("P22:loop.registrations_after", res == (m_in[i] ? 0 : -ENOENT) && regs_ok());
	d_cur = 0;
	k_nready = 1;
	k_ready[0].events = EPOLLIN;
	k_ready[0].data.fd = k_fds[i];
	d_action = -1;
	(void)pomp_loop_wait_and_process(h_loop, -1);
	CHECK("P22:loop.callback", d_calls == m_in[i]);
}

void h_new(void)
{
	int res, i, left = 0;
#ifdef VP_NATIVE
	reset();
	for (i = 0; i < NFD; i++)
		k_fds[i] = i;
#endif
	k_new_fail = (int)IN_RANGE(0, 3);
	e_new_fail = (int)IN_RANGE(0, 2);
	vp_env.can_fail = 1;
	h_loop = pomp_loop_new();
	if (h_loop == NULL) {
		CHECK("P22:pomp_loop_new.failure_leaves_nothing", !k_open[0] && !k_open[1] && !k_bad &&
				vp_env.live == 0 && e_live == 0 && !e_attached);
		CHECK("P22:pomp_loop_new.failure", k_new_fail || e_new_fail || vp_env.alloc_failed);
		REACH("error");
		return;
	}
	CHECK("P22:pomp_loop_new.wakeup", k_wake_in && e_attached && e_live == 1);
	mk_regs(2);
	left = m_in[0] + m_in[1];
	res = pomp_loop_destroy(h_loop);
	CHECK("P22:pomp_loop_destroy.result", left ? res == -EBUSY : res == 0);
	if (left) {
		for (i = 0; i < 2; i++) {
			if (m_in[i])
				ASSUME(pomp_loop_remove(h_loop, k_fds[i]) == 0);
		}
		CHECK("P22:pomp_loop_destroy.again", pomp_loop_destroy(h_loop) == 0);
		REACH("busy");
	}
	CHECK("P22:pomp_loop_destroy.nothing_left", !k_open[0] && !k_open[1] && !k_bad && vp_env.live == 0 &&
			e_live == 0 && !e_attached);
	REACH("ok");
}

void h_dispatch(void)
{
	int i, j, res, timeout = IN_INT(), n = (int)IN_RANGE(0, 3), intr;
	init();
	mk_regs(3);
	k_nready = n;
	for (i = 0; i < n; i++) {
		int f = (int)IN_RANGE(0, NFD);
		k_ready[i].events = IN_BOOL() ? IN_U32() : (uint32_t)IN_RANGE(0, 31);
		k_ready[i].data.fd = f == NFD ? WKFD : k_fds[f];
		for (j = 0; j < i; j++)
			ASSUME(k_ready[j].data.fd != k_ready[i].data.fd);
		if (f == NFD)
			k_wake = 1;
	}
	k_intr = intr = (int)IN_RANGE(0, 2);
	k_wait_err = VP_RARE() ? EBADF : 0;
	d_action = (int)IN_RANGE(0, NFD + 2);
	res = IN_BOOL() ? pomp_loop_wait_and_process(h_loop, timeout) : (timeout = 0, pomp_loop_process_fd(h_loop));
	CHECK("P23:wait.timeout", k_wait_timeout == timeout && k_wait_calls == intr + 1);
	if (k_wait_err) {
		CHECK("P23:wait.error", res == -k_wait_err && d_calls == 0);
		return;
	}
	CHECK("P23:wait.result", res == (timeout == -1 || n > 0 ? 0 : -ETIMEDOUT));
	while (d_cur < k_nready && !d_callable(d_cur))
		d_cur++;
	CHECK("P23:dispatch.all", d_cur == n);
	CHECK("P23:dispatch.wakeup", IMP(n > 0 && k_ready[0].data.fd == WKFD && (k_ready[0].events & EPOLLIN), k_wake == 0));
	CHECK("P23:dispatch.state", w_depth == 0 && w_enters == 1 && !k_bad && !k_locked);
	if (d_calls > 1)
		REACH("several");
	else
		REACH("few");
}

void h_wakeup(void)
{
	init();
	CHECK("P23:pomp_loop_wakeup.result", pomp_loop_wakeup(h_loop) == 0);
	CHECK("P23:pomp_loop_wakeup.pending", k_wake > 0 && k_wake_in);
	CHECK("P23:pomp_loop_get_fd", pomp_loop_get_fd(h_loop) == EPFD);
	REACH("end");
}

/* ------------------------------------------------------------------------- */
#define NIDLE 5
struct idle {
	int cb, live;
	void *userdata, *cookie;
};
static struct idle i_q[NIDLE];
static int i_n, i_inside, i_action, i_calls;
static void *i_flush;
static char i_data[2], i_cookies[2];

static void idle_op(int op);
static void idle_call(int cb, void *userdata)
{
	int i;
	for (i = 0; i < i_n && (!i_q[i].live || (i_flush != NULL && i_q[i].cookie != i_flush)); i++)
		;
	CHECK("P24:idle.expected", i < i_n);
	CHECK("P24:idle.not_inside", !i_inside);
	CHECK("P24:idle.unlocked", !k_locked);
	if (i >= i_n)
		return;
	CHECK("P24:idle.in_order", i_q[i].cb == cb && i_q[i].userdata == userdata);
	i_q[i].live = 0;
	i_calls++;
	if (i_action >= 0) {
		int op = i_action;
		i_action = -1;
		idle_op(op);
	}
}
static void idle_cb0(void *userdata) { idle_call(0, userdata); }
static void idle_cb1(void *userdata) { idle_call(1, userdata); }

static void idle_add(void)
{
	int cb = IN_BOOL(), cookie = (int)IN_RANGE(0, 2), res, u = IN_BOOL();
	if (i_n >= NIDLE)
		return;
	i_inside = 1;
	e_signal = e_signal;
	if (cookie == 0)
		res = pomp_loop_idle_add(h_loop, cb ? &idle_cb1 : &idle_cb0, &i_data[u]);
	else
		res = pomp_loop_idle_add_with_cookie(h_loop, cb ? &idle_cb1 : &idle_cb0, &i_data[u],
				&i_cookies[cookie - 1]);
	i_inside = 0;
	CHECK("P24:idle_add.result", res == 0 ? 1 : vp_env.alloc_failed && res == -ENOMEM);
	if (res != 0)
		return;
	CHECK("P24:idle_add.wakeup", e_signal);
	i_q[i_n].cb = cb;
	i_q[i_n].live = 1;
	i_q[i_n].userdata = &i_data[u];
	i_q[i_n].cookie = cookie == 0 ? NULL : &i_cookies[cookie - 1];
	i_n++;
}

static void idle_op(int op)
{
	int i, cb = IN_BOOL(), u = IN_BOOL(), c = IN_BOOL(), inside;
	if (op == 1) {
		inside = i_inside;
		i_inside = 1;
		CHECK("P24:idle_remove.result", pomp_loop_idle_remove(h_loop, cb ? &idle_cb1 : &idle_cb0, &i_data[u]) == 0);
		i_inside = inside;
		for (i = 0; i < i_n; i++) {
			if (i_q[i].cb == cb && i_q[i].userdata == &i_data[u])
				i_q[i].live = 0;
		}
	} else if (op == 2) {
		inside = i_inside;
		i_inside = 1;
		CHECK("P24:idle_remove_by_cookie.result", pomp_loop_idle_remove_by_cookie(h_loop, &i_cookies[c]) == 0);
		i_inside = inside;
		for (i = 0; i < i_n; i++) {
			if (i_q[i].cookie == &i_cookies[c])
				i_q[i].live = 0;
		}
	} else if (op == 0) {
		idle_add();
	}
}

static int idle_left(const void *cookie)
{
	int i, n = 0;
	for (i = 0; i < i_n; i++)
		n += i_q[i].live && (cookie == NULL || i_q[i].cookie == cookie);
	return n;
}

void h_idle(void)
{
	int n = (int)IN_RANGE(0, 3), i, live;
	init();
	i_action = -1;
	live = vp_env.live;
	vp_env.can_fail = 1;
	for (i = 0; i < n; i++)
		idle_add();
#if IDLE == 1
	idle_op(1);
#elif IDLE == 2
	idle_op(2);
#elif IDLE == 3
	i_action = (int)IN_RANGE(0, 2);
	CHECK("P24:idle_flush.result", pomp_loop_idle_flush(h_loop) == 0);
	CHECK("P24:idle_flush.all", idle_left(NULL) == 0);
#elif IDLE == 4
	i_action = (int)IN_RANGE(0, 2);
	i_flush = &i_cookies[0];
	CHECK("P24:idle_flush_by_cookie.result", pomp_loop_idle_flush_by_cookie(h_loop, &i_cookies[0]) == 0);
	CHECK("P24:idle_flush_by_cookie.all", idle_left(i_flush) == 0);
	i_flush = NULL;
	i_action = -1;
#else
	i_action = (int)IN_RANGE(0, 3);
#endif
	CHECK("P24:idle.memory", vp_env.live == live + idle_left(NULL));
	CHECK("P24:idle.pending", IMP(idle_left(NULL) > 0, e_signal));
	/* The loop runs */
	for (i = 0; i < NIDLE + 1; i++) {
		if (!e_signal)
			break;
		e_signal = 0;
		e_cb(&e_obj, e_userdata);
	}
	CHECK("P24:idle.all_called", idle_left(NULL) == 0);
	CHECK("P24:idle.memory_after", vp_env.live == live);
	CHECK("P24:idle.ends", !e_signal && !k_locked && !k_bad);
	if (i_calls > 0)
		REACH("called");
	else
		REACH("none");
}

/* Several runs in the same process */
static void reset(void)
{
	memset(k_events, 0, sizeof(k_events));
	memset(k_in, 0, sizeof(k_in));
	k_bad = 0;
	k_fail = 0;
	k_wake_in = 0;
	memset(k_open, 0, sizeof(k_open));
	k_new_fail = 0;
	k_wake = 0;
	k_nready = 0;
	k_wait_calls = 0;
	k_wait_timeout = 0;
	k_wait_err = 0;
	k_intr = 0;
	memset(k_ready, 0, sizeof(k_ready));
	k_locked = 0;
	e_signal = 0;
	e_attached = 0;
	e_new_fail = 0;
	e_live = 0;
	e_userdata = 0;
	w_depth = 0;
	w_enters = 0;
	memset(m_in, 0, sizeof(m_in));
	memset(m_events, 0, sizeof(m_events));
	d_cur = 0;
	d_calls = 0;
	d_action = 0;
	memset(i_q, 0, sizeof(i_q));
	i_n = 0;
	i_inside = 0;
	i_action = 0;
	i_calls = 0;
	i_flush = 0;
}
