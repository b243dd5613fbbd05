/*
 * Watchdog, timers and events: the system calls are replaced by a small model of
 * the kernel, the loop by the part of its contract (P22) that matters here.
 */
#include "vp.h"

/* Descriptors: at most two, any numbers */
static int k_fd[2], k_open[2], k_n, k_bad;
static int k_new(void)
{
	int fd;
	if (k_n >= 2 || IN_RANGE(0, 7) == 7) {
		errno = EMFILE;
		return -1;
	}
	fd = (int)IN_RANGE(0, 0xffff);
	ASSUME(k_n == 0 || fd != k_fd[0]);
	k_fd[k_n] = fd;
	k_open[k_n] = 1;
	k_n++;
	return fd;
}
static int k_is_open(int fd)
{
	return (k_n > 0 && k_fd[0] == fd && k_open[0]) || (k_n > 1 && k_fd[1] == fd && k_open[1]);
}
static int k_close(int fd)
{
	if (k_n > 0 && k_fd[0] == fd && k_open[0])
		k_open[0] = 0;
	else if (k_n > 1 && k_fd[1] == fd && k_open[1])
		k_open[1] = 0;
	else
		k_bad = 1;
	return 0;
}
static int k_left(void)
{
	return k_bad || k_open[0] || k_open[1];
}

/* Interrupted calls: any number of times, not forever */
static int k_intr;
static int k_interrupted(void)
{
	if (k_intr > 0 && IN_BOOL()) {
		k_intr--;
		errno = EINTR;
		return 1;
	}
	return 0;
}

/* Event: counter */
static uint64_t k_count;
static int k_efd;		/* the descriptor of the event */
static int k_reads, k_writes, k_io_fail;
/* Timer: expirations */
static int k_timer, k_armed, k_arm_res;
static struct itimerspec k_spec;
static int k_arm_flags;

static int k_eventfd(unsigned int init, int flags)
{
	int fd = k_new();
	if (!(flags & EFD_NONBLOCK) || (flags & EFD_SEMAPHORE))
		k_bad = 1;
	k_count = init;
	k_efd = fd;
	return fd;
}

static ssize_t k_read(int fd, void *p, size_t n)
{
	if (!k_is_open(fd) || n < 8)
		k_bad = 1;
	if (k_interrupted())
		return -1;
	if (k_io_fail) {
		errno = EIO;
		return -1;
	}
	if (k_count == 0) {
		errno = EAGAIN;
		return -1;
	}
	k_reads++;
	*(uint64_t *)p = k_count;
	k_count = 0;
	return 8;
}

static ssize_t k_write(int fd, const void *p, size_t n)
{
	uint64_t v;
	if (!k_is_open(fd) || n != 8) {
		k_bad = 1;
		return -1;
	}
	if (k_interrupted())
		return -1;
	if (k_io_fail) {
		errno = EIO;
		return -1;
	}
	v = *(const uint64_t *)p;
	if (v == 0xffffffffffffffffull || k_count > 0xfffffffffffffffeull - v) {
		errno = EAGAIN;
		return -1;
	}
	k_count += v;
	k_writes++;
	return 8;
}

static int k_timerfd_create(int clock, int flags)
{
	(void)clock;
	(void)flags;
	return k_new();
}

static int k_settime(const struct itimerspec *n, struct itimerspec *o)
{
	if (k_arm_res != 0) {
		errno = k_arm_res;
		return -1;
	}
	if (o != NULL)
		*o = k_spec;
	k_spec = *n;
	k_armed++;
	return 0;
}
static int k_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o)
{
	if (!k_is_open(fd))
		k_bad = 1;
	k_arm_flags = flags;
	return k_settime(n, o);
}
static int k_timer_settime(timer_t id, int flags, const struct itimerspec *n, struct itimerspec *o)
{
	(void)id;
	k_arm_flags = flags;
	return k_settime(n, o);
}

/* Clock and threads */
static struct timespec k_now;
static struct timespec k_clock(void)
{
	struct timespec t;
	t.tv_sec = (time_t)IN_RANGE(0, (uint64_t)1 << 33);
	t.tv_nsec = (long)IN_RANGE(0, 999999999);
	return t;
}
static int k_mono;
static int k_clock_gettime(clockid_t c, struct timespec *t)
{
	if (c != CLOCK_MONOTONIC)
		k_mono = -1;
	*t = k_now;
	return 0;
}
static int k_locked, k_attr_mono, k_cond_mono, k_threads;
static int k_thread_fails;
static void (*k_wait)(const struct timespec *);
static int k_wait_res;
static int k_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; return 0; }
static int k_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
static int k_mutex_lock(pthread_mutex_t *m) { (void)m; k_bad |= k_locked; k_locked = 1; return 0; }
static int k_mutex_unlock(pthread_mutex_t *m) { (void)m; k_bad |= !k_locked; k_locked = 0; return 0; }
static int k_condattr_init(pthread_condattr_t *a) { (void)a; k_attr_mono = 0; return 0; }
static int k_condattr_setclock(pthread_condattr_t *a, clockid_t c) { (void)a; k_attr_mono = c == CLOCK_MONOTONIC; return 0; }
static int k_condattr_destroy(pthread_condattr_t *a) { (void)a; return 0; }
static int k_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)c; k_cond_mono = a != NULL && k_attr_mono; return 0; }
static int k_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
static int k_signals;
static int k_cond_signal(pthread_cond_t *c) { (void)c; k_signals++; return 0; }
static int k_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	(void)c;
	k_mutex_unlock(m);
	k_wait(NULL);
	k_mutex_lock(m);
	return 0;
}
static int k_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
	(void)c;
	k_mutex_unlock(m);
	k_wait(t);
	k_mutex_lock(m);
	return k_wait_res;
}
static int k_thread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p)
{
	(void)a;
	(void)f;
	(void)p;
	if (k_thread_fails)
		return EAGAIN;
	memset(t, 0, sizeof(*t));
	k_threads++;
	return 0;
}
static int k_thread_join(pthread_t t, void **r)
{
	(void)t;
	(void)r;
	k_bad |= k_locked || k_threads != 1;
	k_threads--;
	return 0;
}

#define close k_close
#define read k_read
#define write k_write
#define eventfd k_eventfd
#define timerfd_create k_timerfd_create
#define timerfd_settime k_timerfd_settime
#define timer_settime k_timer_settime
#define clock_gettime k_clock_gettime
#define pthread_mutex_init k_mutex_init
#define pthread_mutex_destroy k_mutex_destroy
#define pthread_mutex_lock k_mutex_lock
#define pthread_mutex_unlock k_mutex_unlock
#define pthread_condattr_init k_condattr_init
#define pthread_condattr_setclock k_condattr_setclock
#define pthread_condattr_destroy k_condattr_destroy
#define pthread_cond_init k_cond_init
#define pthread_cond_destroy k_cond_destroy
#define pthread_cond_signal k_cond_signal
#define pthread_cond_broadcast k_cond_signal
#define pthread_cond_wait k_cond_wait
#define pthread_cond_timedwait k_cond_timedwait
#define pthread_create k_thread_create
#define pthread_join k_thread_join

#include "vp_contracts.h"
#include "pomp_log.c"
#include "pomp_timer.c"
#include "pomp_evt.c"
#include "pomp_watchdog.c"

/* Loop: registration of one descriptor */
static struct pomp_loop *l_loop;
static int l_reg, l_fd, l_adds, l_removes;
static uint32_t l_events;
static pomp_fd_event_cb_t l_cb;
static void *l_userdata;
static int l_fail;
int pomp_loop_add(struct pomp_loop *loop, int fd, uint32_t events, pomp_fd_event_cb_t cb, void *userdata)
{
	if (loop != l_loop || !k_is_open(fd) || cb == NULL)
		k_bad = 1;
	if (l_fail)
		return -ENOMEM;
	if (l_reg) {
		k_bad = 1;
		return -EEXIST;
	}
	l_reg = 1;
	l_adds++;
	l_fd = fd;
	l_events = events;
	l_cb = cb;
	l_userdata = userdata;
	return 0;
}
int pomp_loop_remove(struct pomp_loop *loop, int fd)
{
	if (loop != l_loop)
		k_bad = 1;
	if (!l_reg || fd != l_fd)
		return -ENOENT;
	l_reg = 0;
	l_removes++;
	return 0;
}

#include "vp_wrappers.h"

/* Own objects */
static char h_loop_obj, h_other_obj, h_data;
static void reset(void);
static uint32_t w_delay;
static void init(void)
{
#ifdef VP_NATIVE
	reset();
#endif
	w_delay = 0;
	l_loop = (struct pomp_loop *)&h_loop_obj;
	k_intr = (int)IN_RANGE(0, 2);
}

/* ------------------------------------------------------------------------- */
static int cb_timer_calls;
static struct pomp_timer *cb_timer;
static void h_timer_cb(struct pomp_timer *timer, void *userdata)
{
	CHECK("P26:timer.callback_args", timer == cb_timer && userdata == &h_data);
	cb_timer_calls++;
}

/* Exact duration (without division, easier for the verifier) */
static int same_sn(int64_t s, int64_t n, uint32_t ms)
{
	uint32_t r = ms - (uint32_t)s * 1000;
	return s >= 0 && s <= 4294967 && r < 1000 && (int64_t)(r * 1000000) == n;
}
static int same_ms(const struct timespec *t, uint32_t ms)
{
	return same_sn(t->tv_sec, t->tv_nsec, ms);
}

static struct pomp_timer *mk_timer(void)
{
	struct pomp_timer *t;
	l_fail = 0;
	vp_env.can_fail = 0;
	t = pomp_timer_new(l_loop, &h_timer_cb, &h_data);
	ASSUME(t != NULL);
	cb_timer = t;
	return t;
}

void h_timer_new(void)
{
	struct pomp_timer *t;
	init();
	l_fail = IN_BOOL();
	vp_env.can_fail = 1;
	t = pomp_timer_new(l_loop, &h_timer_cb, &h_data);
	if (t == NULL) {
		CHECK("P26:pomp_timer_new.failure_leaves_nothing", !k_left() && !l_reg && vp_env.live == 0);
		REACH("error");
		return;
	}
	CHECK("P26:pomp_timer_new.registered", l_reg && l_events == POMP_FD_EVENT_IN && k_is_open(l_fd));
	CHECK("P26:pomp_timer_new.not_armed", k_armed == 0);
	CHECK("P26:pomp_timer_destroy.result", pomp_timer_destroy(t) == 0);
	CHECK("P26:pomp_timer_destroy.nothing_left", !k_left() && !l_reg && vp_env.live == 0);
	REACH("ok");
}

void h_timer_null(void)
{
	init();
	vp_env.can_fail = 1;
	CHECK("P26:pomp_timer_new.null", pomp_timer_new(NULL, &h_timer_cb, NULL) == NULL &&
			pomp_timer_new(l_loop, NULL, NULL) == NULL && vp_env.live == 0);
	CHECK("P26:pomp_timer.null", pomp_timer_set(NULL, 1) < 0 && pomp_timer_clear(NULL) < 0 &&
			pomp_timer_set_periodic(NULL, 1, 1) < 0 && pomp_timer_destroy(NULL) < 0);
	REACH("end");
}

#ifndef HOW
#define HOW 0
#endif
void h_timer_set(void)
{
	struct pomp_timer *t;
	uint32_t delay = IN_U32(), period = IN_U32();
	int how = HOW, res;
	init();
	t = mk_timer();
	k_arm_res = IN_BOOL() ? (int)IN_RANGE(1, 100) : 0;
	k_spec.it_value.tv_sec = (time_t)IN_U32();
	if (how == 0) {
		period = 0;
		res = pomp_timer_set(t, delay);
	} else if (how == 1) {
		res = pomp_timer_set_periodic(t, delay, period);
	} else {
		delay = period = 0;
		res = pomp_timer_clear(t);
	}
	CHECK("P26:timer_set.result", k_arm_res == 0 ? res == 0 : res == -k_arm_res);
	if (k_arm_res != 0) {
		REACH("error");
		return;
	}
	CHECK("P26:timer_set.once", k_armed == 1 && k_arm_flags == 0 && !k_bad);
	CHECK("P26:timer_set.delay", same_ms(&k_spec.it_value, delay));
	CHECK("P26:timer_set.period", same_ms(&k_spec.it_interval, period));
	CHECK("P26:timer_set.registration", l_reg && l_adds == 1 && k_is_open(l_fd));
	REACH("ok");
}

/* Expirations: the model of the counter of an event is the one of a timer */
void h_timer_expire(void)
{
	struct pomp_timer *t;
	int expected;
	init();
	t = mk_timer();
	(void)t;
	k_count = IN_BOOL() ? IN_U64() : IN_RANGE(0, 1);
	k_io_fail = VP_RARE();
	expected = k_count > 0 && !k_io_fail;
	l_cb(l_fd, POMP_FD_EVENT_IN, l_userdata);
	CHECK("P26:timer.callback_once", cb_timer_calls == expected);
	CHECK("P26:timer.expiration_read", k_io_fail || k_count == 0);
	CHECK("P26:timer.descriptor", !k_bad && l_reg && k_is_open(l_fd));
	if (expected)
		REACH("expired");
	else
		REACH("not expired");
}

/* Implementation with posix timers: same conversion */
void h_timer_posix_set(void)
{
	struct pomp_timer t;
	uint32_t delay = IN_U32(), period = IN_U32();
	int res;
	init();
	memset(&t, 0, sizeof(t));
	k_arm_res = IN_BOOL() ? (int)IN_RANGE(1, 100) : 0;
	res = IN_BOOL() ? (*pomp_timer_posix_ops.timer_set)(&t, delay, period) :
		(delay = period = 0, (*pomp_timer_posix_ops.timer_clear)(&t));
	CHECK("P26:timer_set_posix.result", k_arm_res == 0 ? res == 0 : res == -k_arm_res);
	if (k_arm_res != 0) {
		REACH("error");
		return;
	}
	CHECK("P26:timer_set_posix.once", k_armed == 1 && k_arm_flags == 0);
	CHECK("P26:timer_set_posix.delay", same_ms(&k_spec.it_value, delay));
	CHECK("P26:timer_set_posix.period", same_ms(&k_spec.it_interval, period));
	REACH("ok");
}

/* ------------------------------------------------------------------------- */
static int cb_evt_calls;
static struct pomp_evt *cb_evt;
static int cb_evt_signal;
static void h_evt_cb(struct pomp_evt *evt, void *userdata)
{
	CHECK("P25:event.callback_args", evt == cb_evt && userdata == &h_data);
	/* A signal from here shall not be lost */
	CHECK("P25:event.handled_before_callback", k_io_fail || k_count == 0);
	cb_evt_calls++;
	if (cb_evt_signal)
		CHECK("P25:event.signal_from_callback", pomp_evt_signal(evt) == (k_io_fail ? -EIO : 0));
}

/* Event in any state: signaled or not, attached or not */
static struct pomp_evt *mk_evt(int attached)
{
	struct pomp_evt *e;
	l_fail = 0;
	vp_env.can_fail = 0;
	e = pomp_evt_new();
	ASSUME(e != NULL);
	if (attached)
		ASSUME(pomp_evt_attach_to_loop(e, l_loop, &h_evt_cb, &h_data) == 0);
	k_count = IN_BOOL() ? IN_RANGE(0, 1) : IN_U64();
	ASSUME(k_count != 0xffffffffffffffffull);
	cb_evt = e;
	return e;
}

void h_evt_new(void)
{
	struct pomp_evt *e;
	init();
	vp_env.can_fail = 1;
	e = pomp_evt_new();
	if (e == NULL) {
		CHECK("P25:pomp_evt_new.failure_leaves_nothing", !k_left() && vp_env.live == 0);
		REACH("error");
		return;
	}
	CHECK("P25:pomp_evt_new.not_signaled", k_count == 0);
	CHECK("P25:pomp_evt_new.not_attached", !pomp_evt_is_attached(e, NULL) && !pomp_evt_is_attached(e, l_loop));
	CHECK("P25:pomp_evt_destroy.result", pomp_evt_destroy(e) == 0);
	CHECK("P25:pomp_evt_destroy.nothing_left", !k_left() && vp_env.live == 0);
	REACH("ok");
}

void h_evt_signal(void)
{
	struct pomp_evt *e;
	int at = IN_BOOL(), res;
	uint64_t c;
	init();
	e = mk_evt(at);
	c = k_count;
	k_io_fail = VP_RARE();
	res = pomp_evt_signal(e);
	CHECK("P25:pomp_evt_signal.result", k_io_fail ? res < 0 : res == 0);
	CHECK("P25:pomp_evt_signal.signaled", k_io_fail ? k_count == c : k_count > 0);
	CHECK("P25:pomp_evt_signal.attached", pomp_evt_is_attached(e, l_loop) == at && l_reg == at && !k_bad);
	CHECK("P25:pomp_evt_signal.no_callback", cb_evt_calls == 0);
	REACH("end");
}

void h_evt_clear(void)
{
	struct pomp_evt *e;
	int at = IN_BOOL(), res;
	init();
	e = mk_evt(at);
	k_io_fail = VP_RARE();
	res = pomp_evt_clear(e);
	CHECK("P25:pomp_evt_clear.result", k_io_fail ? res < 0 : res == 0);
	CHECK("P25:pomp_evt_clear.cleared", k_io_fail || k_count == 0);
	CHECK("P25:pomp_evt_clear.attached", pomp_evt_is_attached(e, l_loop) == at && l_reg == at && !k_bad);
	CHECK("P25:pomp_evt_clear.no_callback", cb_evt_calls == 0);
	REACH("end");
}

void h_evt_run(void)
{
	struct pomp_evt *e;
	int i;
	init();
	e = mk_evt(1);
	CHECK("P25:event.registered", l_reg && l_events == POMP_FD_EVENT_IN && l_fd == k_efd);
	ASSUME(k_count > 0);
	k_io_fail = VP_RARE();
	i = cb_evt_signal = IN_BOOL();
	l_cb(l_fd, POMP_FD_EVENT_IN, l_userdata);
	CHECK("P25:event.callback_once", cb_evt_calls == 1);
	CHECK("P25:event.state_after", k_io_fail || (k_count > 0) == (i != 0));
	CHECK("P25:event.still_attached", pomp_evt_is_attached(e, l_loop) && l_reg && !k_bad);
	REACH("end");
}

void h_evt_attach(void)
{
	struct pomp_evt *e;
	struct pomp_loop *other = (struct pomp_loop *)&h_other_obj;
	int at = IN_BOOL(), res;
	uint64_t c;
	init();
	e = mk_evt(at);
	c = k_count;
	l_fail = IN_BOOL();
	switch (IN_RANGE(0, 3)) {
	case 0:
		res = pomp_evt_attach_to_loop(e, l_loop, &h_evt_cb, &h_data);
		CHECK("P25:pomp_evt_attach.result", at ? res == -EEXIST : l_fail ? res < 0 : res == 0);
		at = at || res == 0;
		CHECK("P25:pomp_evt_attach.state", l_reg == at && l_adds == at &&
				(pomp_evt_is_attached(e, NULL) != 0) == at && (pomp_evt_is_attached(e, l_loop) != 0) == at);
		REACH("attach");
		break;
	case 1:
		res = pomp_evt_detach_from_loop(e, l_loop);
		CHECK("P25:pomp_evt_detach.result", at ? res == 0 : res < 0);
		CHECK("P25:pomp_evt_detach.state", !l_reg && !pomp_evt_is_attached(e, NULL) &&
				!pomp_evt_is_attached(e, l_loop));
		at = 0;
		REACH("detach");
		break;
	case 2:
		CHECK("P25:pomp_evt_detach.other_loop", pomp_evt_detach_from_loop(e, other) < 0);
		CHECK("P25:pomp_evt_attach.other_loop", IMP(at, pomp_evt_attach_to_loop(e, other, &h_evt_cb, NULL) < 0));
		CHECK("P25:pomp_evt.other_loop_state", l_reg == at && l_adds == at &&
				(pomp_evt_is_attached(e, l_loop) != 0) == at && !pomp_evt_is_attached(e, other));
		REACH("other");
		break;
	default:
		CHECK("P25:pomp_evt_attach.null", pomp_evt_attach_to_loop(NULL, l_loop, &h_evt_cb, NULL) < 0 &&
				pomp_evt_attach_to_loop(e, NULL, &h_evt_cb, NULL) < 0 &&
				pomp_evt_attach_to_loop(e, l_loop, NULL, NULL) < 0 &&
				pomp_evt_detach_from_loop(e, NULL) < 0 && pomp_evt_detach_from_loop(NULL, l_loop) < 0 &&
				pomp_evt_signal(NULL) < 0 && pomp_evt_clear(NULL) < 0 && pomp_evt_destroy(NULL) < 0);
		CHECK("P25:pomp_evt.null_state", l_reg == at && l_adds == at &&
				(pomp_evt_is_attached(e, l_loop) != 0) == at);
		REACH("null");
		break;
	}
	CHECK("P25:pomp_evt_attach.signal_kept", k_count == c && cb_evt_calls == 0 && !k_bad);
}

void h_evt_destroy(void)
{
	struct pomp_evt *e;
	int at = IN_BOOL(), res;
	init();
	e = mk_evt(at);
	res = pomp_evt_destroy(e);
	if (at) {
		CHECK("P25:pomp_evt_destroy.attached", res == -EBUSY && l_reg && k_is_open(l_fd) &&
				vp_env.live == 1 && pomp_evt_is_attached(e, l_loop));
		REACH("attached");
	} else {
		CHECK("P25:pomp_evt_destroy.released", res == 0 && !k_left() && vp_env.live == 0);
		REACH("released");
	}
}

/* ------------------------------------------------------------------------- */
static struct pomp_watchdog *w_wd;
/* Monitored section: since when the callback is due */
static int w_in, w_fired, w_turns, w_armed_wait;
static struct timespec w_deadline;

static int reached(const struct timespec *now, const struct timespec *t)
{
	return now->tv_sec > t->tv_sec || (now->tv_sec == t->tv_sec && now->tv_nsec >= t->tv_nsec);
}
/* t is exactly ms after now */
static int after(const struct timespec *t, const struct timespec *now, uint32_t ms)
{
	int carry = t->tv_nsec < now->tv_nsec;
	return t->tv_nsec >= 0 && t->tv_nsec <= 999999999 &&
		same_sn(t->tv_sec - now->tv_sec - carry,
			t->tv_nsec - now->tv_nsec + carry * 1000000000L, ms);
}

static void h_wd_cb(struct pomp_loop *loop, void *userdata)
{
	CHECK("P28:watchdog.callback_args", loop == l_loop && userdata == &h_data);
	CHECK("P28:watchdog.not_early", w_in && reached(&k_now, &w_deadline));
	CHECK("P28:watchdog.once", !w_fired);
	w_fired = 1;
}

static void mk_wd(struct pomp_watchdog *w)
{
	w_delay = IN_U32();
	ASSUME(w_delay > 0);
	pomp_watchdog_init(w);
	ASSUME(pomp_watchdog_start(w, l_loop, w_delay, &h_wd_cb, &h_data) == 0);
	w_wd = w;
}

static void wd_enter(void)
{
	pomp_watchdog_enter(w_wd);
	w_in = 1;
	w_fired = 0;
	w_deadline = w_wd->next_timeout;
	CHECK("P28:watchdog_enter.clock", k_mono >= 0);
#ifdef WD_EXACT
	CHECK("P28:watchdog_enter.deadline", after(&w_wd->next_timeout, &k_now, w_delay));
#endif
}

void h_wd_enter(void)
{
	struct pomp_watchdog w;
	init();
	mk_wd(&w);
	k_now = k_clock();
	w.next_timeout = k_clock();
	w.monitoring = IN_BOOL();
	w.counter = IN_U32();
	wd_enter();
	CHECK("P28:watchdog_enter.state", w.monitoring && k_signals == 1 && !k_locked && !k_bad);
	pomp_watchdog_leave(&w);
	CHECK("P28:watchdog_leave.state", !w.monitoring && k_signals == 2 && !k_locked && !k_bad);
	REACH("end");
}

/* What happens while the thread waits */
static void wd_wait(const struct timespec *t)
{
	struct timespec now = k_clock();
	CHECK("P28:watchdog.wait", (t != NULL) == (w_in && !w_fired));
	CHECK("P28:watchdog.wait_deadline", IMP(t != NULL, t->tv_sec == w_deadline.tv_sec &&
				t->tv_nsec == w_deadline.tv_nsec));
	w_armed_wait |= t != NULL;
	ASSUME(reached(&now, &k_now));
	k_now = now;
	switch (IN_RANGE(0, 4)) {
	case 0:
		wd_enter();
		break;
	case 1:
		pomp_watchdog_leave(w_wd);
		w_in = 0;
		break;
	case 2:
		pomp_watchdog_leave(w_wd);
		wd_enter();
		break;
	default:
		break;
	}
	if (--w_turns <= 0)
		w_wd->should_stop = 1;
	/* Woken up, or the time is reached (the clock could be another one) */
	k_wait_res = IN_BOOL() ? ETIMEDOUT : 0;
	if (t != NULL && k_wait_res == 0 && w_in && !w_fired)
		CHECK("P28:watchdog.state", w_wd->monitoring);
}

#ifndef WD_TURNS
#define WD_TURNS 3
#endif
void h_wd_thread(void)
{
	struct pomp_watchdog w;
	init();
	mk_wd(&w);
	k_now = k_clock();
	w.counter = IN_U32();
	k_wait = &wd_wait;
	w_turns = (int)IN_RANGE(1, WD_TURNS);
	if (IN_BOOL())
		wd_enter();
	pomp_watchdog_thread_cb(&w);
	CHECK("P28:watchdog.locks", !k_locked && !k_bad);
	if (w_fired)
		REACH("fired");
	else
		REACH("not fired");
}

/* When the time is reached in the section, the callback is called */
static void wd_wait_late(const struct timespec *t)
{
	CHECK("P28:watchdog.wait_monitored", t != NULL);
	if (t != NULL) {
		k_now = k_clock();
		ASSUME(reached(&k_now, t));
	}
	w_wd->should_stop = 1;
	k_wait_res = ETIMEDOUT;
}

void h_wd_late(void)
{
	struct pomp_watchdog w;
	init();
	mk_wd(&w);
	k_now = k_clock();
	w.counter = IN_U32();
	k_wait = &wd_wait_late;
	wd_enter();
	pomp_watchdog_thread_cb(&w);
	CHECK("P28:watchdog.fires", w_fired);
	REACH("fired");
}

void h_wd_start(void)
{
	struct pomp_watchdog w;
	uint32_t delay = IN_U32(), delay2 = IN_U32();
	struct pomp_loop *other = (struct pomp_loop *)&h_other_obj;
	int res;
	init();
	pomp_watchdog_init(&w);
	k_thread_fails = IN_BOOL();
	k_now = k_clock();
	/* Not started: nothing is monitored */
	pomp_watchdog_enter(&w);
	pomp_watchdog_leave(&w);
	CHECK("P28:watchdog.not_started", !w.monitoring && k_signals == 0);
	w_delay = delay;
	res = pomp_watchdog_start(&w, l_loop, delay, &h_wd_cb, &h_data);
	CHECK("P28:watchdog_start.result", delay == 0 || k_thread_fails ? res < 0 : res == 0);
	CHECK("P28:watchdog_start.thread", k_threads == (res == 0));
	CHECK("P28:watchdog_start.clock", IMP(res == 0, k_cond_mono));
	if (res == 0) {
		w_wd = &w;
#ifndef WD_AGAIN
		wd_enter();
#else
		CHECK("P28:watchdog_start.other_loop", pomp_watchdog_start(&w, other, delay2, &h_wd_cb, &h_data) < 0);
		res = pomp_watchdog_start(&w, l_loop, delay2, &h_wd_cb, &h_data);
		CHECK("P28:watchdog_start.again", res == (delay2 == 0 ? -EINVAL : 0) && k_threads == 1);
		if (res == 0)
			w_delay = delay2;
		wd_enter();
#endif
		CHECK("P28:watchdog_stop.result", pomp_watchdog_stop(&w) == 0 && k_threads == 0 && !k_locked);
		REACH("started");
	} else {
		REACH("error");
	}
	CHECK("P28:watchdog_start.locks", !k_bad);
}

/* Several runs in the same process */
static void reset(void)
{
	memset(&k_fd, 0, sizeof(k_fd));
	memset(&k_open, 0, sizeof(k_open));
	k_n = 0;
	k_bad = 0;
	k_intr = 0;
	k_count = 0;
	k_efd = 0;
	k_reads = 0;
	k_writes = 0;
	k_io_fail = 0;
	k_timer = 0;
	k_armed = 0;
	k_arm_res = 0;
	memset(&k_spec, 0, sizeof(k_spec));
	k_arm_flags = 0;
	memset(&k_now, 0, sizeof(k_now));
	k_mono = 0;
	k_locked = 0;
	k_attr_mono = 0;
	k_cond_mono = 0;
	k_threads = 0;
	k_thread_fails = 0;
	k_wait_res = 0;
	k_signals = 0;
	l_reg = 0;
	l_fd = 0;
	l_adds = 0;
	l_removes = 0;
	l_events = 0;
	l_fail = 0;
	cb_timer_calls = 0;
	cb_evt_calls = 0;
	cb_evt_signal = 0;
	w_in = 0;
	w_fired = 0;
	w_turns = 0;
	w_armed_wait = 0;
	memset(&w_deadline, 0, sizeof(w_deadline));
}
