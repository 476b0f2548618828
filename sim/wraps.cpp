// The seams: pthread, time, process and stdio calls of the code under test, bound by ld --wrap.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <syslog.h>
#include <fcntl.h>
#include <execinfo.h>
#include <atomic>
#include <streambuf>
#include <iostream>
#include <map>

using namespace sim;
namespace sim { int spawn_fiber(const char *, std::function<void()> *, void *(*)(void *), void *, bool); extern void (*g_sig_deliver)(int); int g_fail_thread_create; }

extern "C" {
int __real_pthread_mutexattr_gettype(const pthread_mutexattr_t *, int *);
int __real_usleep(useconds_t);
long __real_syscall(long, ...);
time_t __real_time(time_t *);
FILE *__real_fopen(const char *, const char *);
int __real_open(const char *, int, ...);
pid_t __real_getpid(); void __real__exit(int) __attribute__((noreturn));

// ---------------------------------------------------------------- mutex
struct SM { uint32_t magic; int32_t owner; int32_t count; uint32_t pad; int32_t type; };	// type at offset 16 = __kind of glibc
enum { MX_DEAD = 0xdeadc0de };
static inline SM *sm(pthread_mutex_t *m) { return (SM *)m; }
static inline int meid() { return cur < 0 ? 1 : cur + 1; }
static void mx_dead(const char *op, void *m) { if (active()) fail("use-after-destroy", "%s on a destroyed mutex %p", op, m); }

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	SM *s = sm(m);
	__real_memset(m, 0, sizeof *m);
	int t = 0; if (a) pthread_mutexattr_gettype(a, &t);
	s->type = t;
	hb_reset(m);
	return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	SM *s = sm(m);
	if (s->magic == MX_DEAD) mx_dead("destroy", m);
	if (s->owner) { if (active()) fail("destroy-locked-mutex", "a mutex is destroyed while thread %d holds it", s->owner - 1); return EBUSY; }
	s->magic = MX_DEAD;
	return 0;
}
static int mx_ready(Fiber *f) { SM *s = (SM *)f->obj; return s->owner == 0 || s->magic == MX_DEAD; }
// locks held by simulated processes: their memory is shared here, so the death of one must not leave them locked
static SM *s_pheld[256]; static int s_npheld;
static void mx_take(SM *s) { s->owner = meid(); s->count = 1; hb_acquire(s); if (me()->proc && s_npheld < 256) s_pheld[s_npheld++] = s; }
static void mx_drop(SM *s) { if (s_npheld) for (int i = 0; i < s_npheld; i++) if (s_pheld[i] == s) { s_pheld[i] = s_pheld[--s_npheld]; break; } s->owner = 0; s->count = 0; }
extern "C++" { namespace sim {
void locks_reset() { s_npheld = 0; }
void locks_abandon(int proc)
{
	for (int i = 0; i < s_npheld; ) {
		SM *s = s_pheld[i];
		if (s->owner > 0 && fib[s->owner - 1].proc == proc) { count("probe.lock_of_dead_process"); mx_drop(s); } else i++;
	}
}
} }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	SM *s = sm(m);
	if (cur < 0) { if (s->owner == 1 && s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; } s->owner = 1; s->count = 1; return 0; }
	Core c;
	sp("lock", m);
	if (s->magic == MX_DEAD) mx_dead("lock", m);
	if (s->owner == meid()) {
		if (s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
		if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	if (s->owner) { count("probe.mutex_contended"); while (!block("mutex-lock", m, mx_ready)) ; }
	if (s->magic == MX_DEAD) mx_dead("lock", m);
	mx_take(s);
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	SM *s = sm(m);
	if (cur < 0) return __wrap_pthread_mutex_lock(m);
	Core c;
	sp("trylock", m);
	if (s->magic == MX_DEAD) mx_dead("trylock", m);
	if (s->owner == meid() && s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
	if (s->owner) return EBUSY;
	mx_take(s);
	return 0;
}
static int mx_timed(pthread_mutex_t *m, const struct timespec *ts, bool wall)
{
	SM *s = sm(m);
	if (cur < 0) return __wrap_pthread_mutex_lock(m);
	Core c;
	sp("timedlock", m);
	if (s->magic == MX_DEAD) mx_dead("timedlock", m);
	if (s->owner == meid()) {
		if (s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
		if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	if (!s->owner) { mx_take(s); return 0; }
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) { count("probe.timedlock_EINVAL"); return EINVAL; }
	if (!block("mutex-timedlock", m, mx_ready, true, ts_us(ts), wall)) { count("probe.timedlock_timeout"); return ETIMEDOUT; }
	mx_take(s);
	return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return mx_timed(m, ts, true); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t ck, const struct timespec *ts) { return mx_timed(m, ts, ck == CLOCK_REALTIME); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	SM *s = sm(m);
	if (cur < 0) { if (--s->count <= 0) s->owner = s->count = 0; return 0; }
	Core c;
	if (s->magic == MX_DEAD) mx_dead("unlock", m);
	if (s->owner != meid()) {
		if (s->owner) fail("unlock-not-held", "a thread unlocks a mutex that %s holds", fib[s->owner - 1].name);
		fail("unlock-not-held", "a thread unlocks a mutex that nobody holds");
	}
	if (--s->count > 0) return 0;
	hb_release(m);
	mx_drop(s);
	sp("unlock", m);
	return 0;
}

// ---------------------------------------------------------------- condition variables
struct SC { uint32_t magic; uint32_t nwait; uint32_t clk; };
static inline SC *sc_(pthread_cond_t *c) { return (SC *)c; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	__real_memset(c, 0, sizeof *c);
	clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k);
	sc_(c)->clk = k == CLOCK_MONOTONIC ? 1 : 0;
	hb_reset(c);
	return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
	SC *s = sc_(c);
	if (active()) {
		if (s->magic == MX_DEAD) fail("use-after-destroy", "condvar %p destroyed twice", (void *)c);
		if (s->nwait) fail("destroy-waited-condvar", "a condition variable is destroyed while %u threads wait on it", s->nwait);
	}
	s->magic = MX_DEAD;
	return 0;
}
static int cv_ready(Fiber *f) { return f->signaled; }
static int cv_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, const struct timespec *ts, bool wall)
{
	SC *s = sc_(c); SM *x = sm(m);
	if (cur < 0) { fprintf(stderr, "cond wait outside a run\n"); abort(); }
	Core core;
	if (s->magic == MX_DEAD) fail("use-after-destroy", "wait on destroyed condvar");
	if (timed && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L)) { count("probe.condwait_EINVAL"); tracef("cond_timedwait: EINVAL"); sp("cond-einval", c); return EINVAL; }
	sp("cond_wait", c);
	if (x->owner != meid()) { count("probe.wait_without_mutex"); fail("wait-without-mutex", "condition wait while the mutex is not held by the caller"); }
	Fiber *f = me();
	f->cond = c; f->signaled = false; f->cond_seq = ++G->seqno;
	s->nwait++;
	// glibc releases one level only (a recursive mutex locked twice stays locked)
	int full = --x->count;
	if (full <= 0) { hb_release(m); mx_drop(x); }
	bool ok = true;
	count("probe.cond_wait");
	if (cfg.spurious_den && chance(S, 1, cfg.spurious_den)) {
		// spurious wakeup: returns after a random short time without any signal
		count("fault.spurious_wakeup");
		int64_t d = G->mono + 1 + draw(T, 2000);
		int64_t dd = timed ? (wall ? ts_us(ts) - G->wall_off : ts_us(ts)) : INT64_MAX;
		if (dd <= d) ok = block("cond-wait", c, cv_ready, true, dd);
		else block("cond-wait", c, cv_ready, true, d);
	} else if (timed) {
		ok = block("cond-wait", c, cv_ready, true, ts_us(ts), wall);
		if (!ok) count("probe.cond_timeout");
	} else while (!block("cond-wait", c, cv_ready)) ;
	f = me();
	if (s->magic == MX_DEAD) fail("use-after-destroy", "condvar destroyed during wait");
	s->nwait--;
	if (f->signaled) hb_acquire(c);
	f->cond = 0; f->signaled = false;
	// reacquire
	if (full > 0) { x->count++; }
	else {
		if (x->owner) while (!block("mutex-lock(after wait)", m, mx_ready)) ;
		mx_take(x);
	}
	return ok ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cv_wait(c, m, false, 0, true); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return cv_wait(c, m, true, ts, sc_(c)->clk == 0); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { return cv_wait(c, m, true, ts, k == CLOCK_REALTIME); }
static int cv_wake(pthread_cond_t *c, bool all)
{
	if (cur < 0) return 0;
	Core core;
	SC *s = sc_(c);
	sp(all ? "broadcast" : "signal", c);
	if (s->magic == MX_DEAD) fail("use-after-destroy", "signal on destroyed condvar");
	hb_release(c);
	int w[MAXF], n = 0;
	for (int i = 0; i < nfib; i++) if (fib[i].st == F_BLOCK && fib[i].cond == c && !fib[i].signaled) w[n++] = i;
	if (!n) { count("probe.signal_nobody"); return 0; }
	for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (fib[w[j]].cond_seq < fib[w[i]].cond_seq) { int t = w[i]; w[i] = w[j]; w[j] = t; }
	if (all) for (int i = 0; i < n; i++) fib[w[i]].signaled = true;
	else fib[w[draw(S, n)]].signaled = true;
	return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return cv_wake(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return cv_wake(c, true); }

// ---------------------------------------------------------------- rwlock
struct SR { uint32_t magic; int32_t writer; int32_t readers; int32_t wwait; int32_t kind; };
static inline SR *sr(pthread_rwlock_t *c) { return (SR *)c; }
int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { int k = 0; if (a) pthread_rwlockattr_getkind_np(a, &k); __real_memset(l, 0, sizeof *l); sr(l)->kind = k; hb_reset(l); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l) { SR *s = sr(l); if (active() && (s->writer || s->readers)) fail("destroy-locked-mutex", "rwlock destroyed while held"); s->magic = MX_DEAD; return 0; }
// waiting writers keep readers out only if the attributes ask for it
static inline bool rw_shut(SR *s) { return s->writer || (s->wwait && s->readers && s->kind == PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP); }
static int rw_r(Fiber *f) { return !rw_shut((SR *)f->obj); }
static int rw_w(Fiber *f) { SR *s = (SR *)f->obj; return s->writer == 0 && s->readers == 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
	SR *s = sr(l); if (cur < 0) { s->readers++; return 0; }
	Core c; sp("rdlock", l);
	if (s->magic == MX_DEAD) mx_dead("rdlock", l);
	if (s->writer == meid()) return EDEADLK;
	if (rw_shut(s)) { count("probe.rwlock_contended"); while (!block("rdlock", l, rw_r)) ; }
	s->readers++; hb_acquire(l); return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
	SR *s = sr(l); if (cur < 0) { s->writer = 1; return 0; }
	Core c; sp("wrlock", l);
	if (s->magic == MX_DEAD) mx_dead("wrlock", l);
	if (s->writer == meid()) return EDEADLK;
	if (s->writer || s->readers) { count("probe.rwlock_contended"); s->wwait++; while (!block("wrlock", l, rw_w)) ; s->wwait--; }
	s->writer = meid(); hb_acquire(l); return 0;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { SR *s = sr(l); Core c; sp("tryrdlock", l); if (s->magic == MX_DEAD) mx_dead("tryrdlock", l); if (rw_shut(s)) return EBUSY; s->readers++; hb_acquire(l); return 0; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { SR *s = sr(l); Core c; sp("trywrlock", l); if (s->magic == MX_DEAD) mx_dead("trywrlock", l); if (s->writer || s->readers) return EBUSY; s->writer = meid(); hb_acquire(l); return 0; }
static int rw_timed(pthread_rwlock_t *l, const struct timespec *ts, bool w)
{
	SR *s = sr(l); Core c; sp("timedrwlock", l);
	if (s->writer == meid()) return EDEADLK;
	if (w ? (!s->writer && !s->readers) : !rw_shut(s)) ;
	else {
		if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) return EINVAL;
		s->wwait += w; bool got = block("timedrwlock", l, w ? rw_w : rw_r, true, ts_us(ts), true); s->wwait -= w;
		if (!got) return ETIMEDOUT;
	}
	if (w) s->writer = meid(); else s->readers++;
	hb_acquire(l); return 0;
}
int __wrap_pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *ts) { return rw_timed(l, ts, false); }
int __wrap_pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *ts) { return rw_timed(l, ts, true); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l)
{
	SR *s = sr(l);
	if (cur < 0) { s->writer = s->readers = 0; return 0; }
	Core c;
	hb_release(l);
	if (s->writer) { if (s->writer != meid()) count("probe.unlock_not_owner"); s->writer = 0; }
	else if (s->readers > 0) s->readers--;
	sp("rwunlock", l);
	return 0;
}

// ---------------------------------------------------------------- spin, sem
int __wrap_pthread_spin_init(pthread_spinlock_t *l, int) { *l = 0; return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
static int spin_ready(Fiber *f) { return *(volatile int *)f->obj == 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *l) { if (cur < 0) return 0; Core c; sp("spin", (void *)l); while (*l && !block("spin", (void *)l, spin_ready)) ; *l = meid(); hb_acquire((void *)l); return 0; }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *l) { if (cur < 0) return 0; Core c; sp("spin", (void *)l); if (*l) return EBUSY; *l = meid(); hb_acquire((void *)l); return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *l) { if (cur < 0) return 0; Core c; hb_release((void *)l); *l = 0; sp("spinun", (void *)l); return 0; }
static int sem_ready(Fiber *f) { return *(volatile int *)f->obj > 0; }
int __wrap_sem_init(sem_t *s, int, unsigned v) { __real_memset(s, 0, sizeof *s); *(int *)s = v; return 0; }
int __wrap_sem_destroy(sem_t *) { return 0; }
int __wrap_sem_wait(sem_t *s) { Core c; sp("sem_wait", s); while (*(int *)s <= 0 && !block("sem_wait", s, sem_ready)) ; --*(int *)s; hb_acquire(s); return 0; }
int __wrap_sem_trywait(sem_t *s) { Core c; sp("sem_trywait", s); if (*(int *)s <= 0) { errno = EAGAIN; return -1; } --*(int *)s; hb_acquire(s); return 0; }
int __wrap_sem_timedwait(sem_t *s, const struct timespec *ts) { Core c; sp("sem_timedwait", s); if (*(int *)s <= 0) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) { errno = EINVAL; return -1; } if (!block("sem_wait", s, sem_ready, true, ts_us(ts), true)) { errno = ETIMEDOUT; return -1; } } --*(int *)s; hb_acquire(s); return 0; }
int __wrap_sem_post(sem_t *s) { Core c; hb_release(s); ++*(int *)s; sp("sem_post", s); return 0; }
int __wrap_sem_getvalue(sem_t *s, int *v) { *v = *(int *)s; return 0; }

// ---------------------------------------------------------------- threads
enum { PT_BASE = 0x70000 };
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	if (cur < 0) { fprintf(stderr, "pthread_create outside a run\n"); abort(); }
	Core c;
	sp("pthread_create", 0);
	if (sim::g_fail_thread_create && --sim::g_fail_thread_create == 0) { count("fault.pthread_create_EAGAIN"); return EAGAIN; }
	char nm[24]; snprintf(nm, sizeof nm, "thr%d", nfib);
	int id = spawn_fiber(nm, 0, fn, arg, true);
	int ds = 0; if (a) { pthread_attr_getdetachstate(a, &ds); }
	fib[id].detached = ds == PTHREAD_CREATE_DETACHED;
	fib[id].stack_req = 0; if (a) pthread_attr_getstacksize(a, &fib[id].stack_req);
	*t = PT_BASE + id;
	sp("created", 0);
	return 0;
}
static int pjoin_ready(Fiber *f) { return fib[(uintptr_t)f->obj].st == F_DONE; }
int __wrap_pthread_join(pthread_t t, void **r)
{
	Core c;
	sp("pthread_join", (void *)t);
	long id = (long)t - PT_BASE;
	if (id < 0 || id >= nfib) return ESRCH;
	Fiber *f = &fib[id];
	if (f->joined || f->detached) return EINVAL;
	if (id == cur) return EDEADLK;
	while (f->st != F_DONE) block("pthread-join", (void *)id, pjoin_ready);
	f->joined = true;
	hb_join(id);
	if (r) *r = f->pret;
	return 0;
}
void __wrap_pthread_exit(void *v) { if (cur < 0) abort(); me()->pret = v; key_dtors(); fiber_end(); }
int __wrap_pthread_detach(pthread_t t) { long id = (long)t - PT_BASE; if (id < 0 || id >= nfib) return ESRCH; fib[id].detached = true; return 0; }
pthread_t __wrap_pthread_self() { return cur < 0 ? PT_BASE : PT_BASE + cur; }
int __wrap_pthread_setname_np(pthread_t, const char *) { return 0; }
int __wrap_sched_yield() { sp("sched_yield", 0); return 0; }

// ---------------------------------------------------------------- time
int __wrap_gettimeofday(struct timeval *tv, void *)
{
	int64_t w;
	if (cur < 0) w = 1400000000LL * 1000000;
	else { Core c; sp("gettimeofday", 0); w = wall_us(); }
	tv->tv_sec = w / 1000000; tv->tv_usec = w % 1000000;
	return 0;
}
int __wrap_clock_gettime(clockid_t k, struct timespec *ts)
{
	int64_t w;
	if (cur < 0) w = 1400000000LL * 1000000;
	else { Core c; sp("clock_gettime", 0); w = (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) ? wall_us() : mono_us(); }
	ts->tv_sec = w / 1000000; ts->tv_nsec = (w % 1000000) * 1000;
	return 0;
}
time_t __wrap_time(time_t *p)
{
	time_t t;
	if (cur < 0) t = 1400000000;
	else { Core c; sp("time", 0); t = wall_us() / 1000000; }
	if (p) *p = t;
	return t;
}
static int do_sleep(int64_t us)
{
	if (cur < 0) return 0;
	Core c;
	sp("sleep", 0);
	block("sleep", 0, 0, true, G->mono + us, false, true);
	return me()->intr ? -1 : 0;
}
int __wrap_usleep(useconds_t u) { int r = do_sleep(u); if (r) errno = EINTR; return r; }
unsigned __wrap_sleep(unsigned s) { int64_t t0 = G ? G->mono : 0; if (do_sleep((int64_t)s * 1000000)) { int64_t left = (int64_t)s * 1000000 - (G->mono - t0); return left > 0 ? (left + 999999) / 1000000 : 0; } return 0; }
int __wrap_nanosleep(const struct timespec *q, struct timespec *rem)
{
	if (q->tv_nsec < 0 || q->tv_nsec >= 1000000000L || q->tv_sec < 0) { errno = EINVAL; return -1; }
	int64_t t0 = G ? G->mono : 0, want = ts_us(q);
	if (do_sleep(want)) { if (rem) { int64_t l = want - (G->mono - t0); if (l < 0) l = 0; rem->tv_sec = l / 1000000; rem->tv_nsec = l % 1000000 * 1000; } errno = EINTR; return -1; }
	return 0;
}
int __wrap_clock_nanosleep(clockid_t k, int flags, const struct timespec *q, struct timespec *rem)
{
	int64_t d = ts_us(q);
	if (flags & TIMER_ABSTIME) d -= k == CLOCK_REALTIME ? wall_us() : mono_us();
	if (d < 0) d = 0;
	return do_sleep(d) ? EINTR : 0;
}

// ---------------------------------------------------------------- process identity, randomness
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f)
{
	if (n == SYS_gettid) return cur < 0 ? 1000 : me()->tid;
	return __real_syscall(n, a, b, c, d, e, f);
}
pid_t __wrap_gettid() { return cur < 0 ? 1000 : me()->tid; }
int g_sim_pid[16];
pid_t __wrap_getpid() { return cur < 0 ? 1000 : 1000 + 100 * (G ? G->incarnation : 0) + me()->proc; }
static uint64_t lcg = 12345;
long __wrap_random() { lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL; return (lcg >> 33) & 0x7fffffff; }
int __wrap_rand() { return (int)__wrap_random(); }
void __wrap_srandom(unsigned s) { lcg = s; }
void __wrap_srand(unsigned s) { lcg = s; }

// ---------------------------------------------------------------- abnormal ends
void __wrap_abort() { if (active()) fail("abort", "abort() called"); sim::startup_failed("abort() called"); __real__exit(99); }
void __wrap___assert_fail(const char *ex, const char *file, unsigned line, const char *fn)
{
	const char *b = strrchr(file, '/'); b = b ? b + 1 : file;
	char cls[64]; snprintf(cls, sizeof cls, "assert");
	if (active()) fail(cls, "assertion \"%s\" failed at %s:%u (%s)", ex, b, line, fn);
	sim::startup_failed(ex);
	fprintf(stderr, "assert %s %s:%u\n", ex, file, line); __real__exit(99);
}
void __wrap___cxa_throw_bad_array_new_length() { fail("abort", "bad array new length"); }

// ---------------------------------------------------------------- static-local guards
int __wrap___cxa_guard_acquire(uint64_t *g)
{
	char *b = (char *)g;
	if (b[0]) { return 0; }
	if (cur < 0) { return 1; }
	Core c;
	sp("guard", g);
	struct R { static int ready(Fiber *f) { char *b = (char *)f->obj; return b[0] || !b[1]; } };
	while (b[1]) { if (b[0]) break; block("static-init", g, R::ready); }
	hb_acquire(g);
	if (b[0]) return 0;
	b[1] = 1;
	return 1;
}
void __wrap___cxa_guard_release(uint64_t *g) { char *b = (char *)g; hb_release(g); b[0] = 1; b[1] = 0; }
void __wrap___cxa_guard_abort(uint64_t *g) { ((char *)g)[1] = 0; }

// ---------------------------------------------------------------- once, thread specific data
int __wrap_pthread_once(pthread_once_t *o, void (*fn)())
{
	volatile int *v = (volatile int *)o;	// 0 never, 1 under way, 2 done: what the C library calls done as well
	if (cur >= 0) {
		Core c; sp("once", (void *)o);
		struct R { static int ready(Fiber *f) { return *(volatile int *)f->obj != 1; } };
		while (*v == 1) block("once", (void *)o, R::ready);
		hb_acquire((void *)o);
	}
	if (*v == 2) return 0;
	*v = 1;
	try { fn(); } catch (...) { *v = 0; throw; }
	if (cur >= 0) hb_release((void *)o);
	*v = 2;
	return 0;
}
static void (*key_dtor[NSPEC])(void *); static bool key_used[NSPEC];
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *))
{
	for (unsigned i = 0; i < NSPEC; i++) if (!key_used[i]) { key_used[i] = true; key_dtor[i] = d; for (int j = 0; j < nfib; j++) fib[j].spec[i] = 0; *k = i; return 0; }
	return EAGAIN;
}
int __wrap_pthread_key_delete(pthread_key_t k) { if (k >= NSPEC || !key_used[k]) return EINVAL; key_used[k] = false; return 0; }
static void **spec0() { static void *z[NSPEC]; return cur < 0 ? z : me()->spec; }
void *__wrap_pthread_getspecific(pthread_key_t k) { return k < NSPEC ? spec0()[k] : 0; }
int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { if (k >= NSPEC || !key_used[k]) return EINVAL; spec0()[k] = (void *)v; return 0; }
}
namespace sim { void key_dtors() { for (int r = 0; r < 4; r++) for (unsigned i = 0; i < NSPEC; i++) { void *v = me()->spec[i]; if (v && key_used[i] && key_dtor[i]) { me()->spec[i] = 0; key_dtor[i](v); } } } }
extern "C" {

// ---------------------------------------------------------------- syslog
}
namespace sim {
std::vector<SinkRec> &syslog_recs() { static std::vector<SinkRec> v; return v; }
static std::string s_console;
std::string &console() { return s_console; }
void console_write(const char *p, size_t n) { Core c; s_console.append(p, n); }
struct CapBuf : std::streambuf {
	int overflow(int ch) override { if (ch != EOF) { char b = ch; put(&b, 1); } return ch; }
	std::streamsize xsputn(const char *p, std::streamsize n) override { put(p, n); return n; }
	void put(const char *p, size_t n) { int s = g_sut; g_sut = 0; sp("console", 0); console_write(p, n); g_sut = s; }
};
static CapBuf *capbuf;
void capture_streams(bool)
{
	Core c;
	if (!capbuf) capbuf = new CapBuf;
	std::cout.rdbuf(capbuf); std::cerr.rdbuf(capbuf);
	std::cerr.unsetf(std::ios::unitbuf);
	std::cout.clear(); std::cerr.clear();
}
bool g_syslog_on;
static void sys_put(int pri, const char *fmt, va_list ap)
{
	if (cur < 0) return;
	Core c;
	sp("syslog", 0);
	va_list a2; va_copy(a2, ap);
	int n = vsnprintf(0, 0, fmt, a2);
	va_end(a2);
	std::string b((size_t)(n > 0 ? n : 0) + 1, 0);
	vsnprintf(&b[0], b.size(), fmt, ap);
	b.resize(b.size() - 1);
	tracef("syslog[%d] %s", pri, b.c_str());
	count("op.syslog");
	if (syslog_recs().size() < 20000) syslog_recs().push_back(SinkRec{ cur, pri, ++G->seqno, std::move(b) });
}
}
extern "C" {
void __wrap_vsyslog(int p, const char *fmt, va_list ap) { sys_put(p, fmt, ap); }
void __wrap_syslog(int p, const char *fmt, ...) { va_list ap; va_start(ap, fmt); sys_put(p, fmt, ap); va_end(ap); }
void __wrap___syslog_chk(int p, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); sys_put(p, fmt, ap); va_end(ap); }
void __wrap___vsyslog_chk(int p, int, const char *fmt, va_list ap) { sys_put(p, fmt, ap); }
void __wrap_openlog(const char *, int, int) { sp("openlog", 0); }
void __wrap_closelog() {}
int __wrap_backtrace(void **b, int n) { return cur < 0 ? 0 : 0; }
char **__wrap_backtrace_symbols(void *const *, int) { char **p = (char **)malloc(sizeof(char *)); p[0] = 0; return p; }
size_t __real_fwrite(const void *, size_t, size_t, FILE *); void __real__exit(int) __attribute__((noreturn));
static int con_printf(const char *fmt, va_list ap)
{
	char b[4000]; int n = vsnprintf(b, sizeof b, fmt, ap);
	if (cur >= 0) { Core c; sp("printf", 0); console_write(b, n < (int)sizeof b ? n : sizeof b - 1); }
	else __real_fwrite(b, 1, n < (int)sizeof b ? n : sizeof b - 1, stdout);
	return n;
}
int __wrap_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = con_printf(fmt, ap); va_end(ap); return n; }
int __wrap_vprintf(const char *fmt, va_list ap) { return con_printf(fmt, ap); }
int __wrap_puts(const char *s) { if (cur >= 0) { Core c; sp("puts", 0); console_write(s, strlen(s)); console_write("\n", 1); } else { __real_fwrite(s, 1, strlen(s), stdout); __real_fwrite("\n", 1, 1, stdout); } return 1; }
int __wrap_putchar(int ch) { char b = ch; if (cur >= 0) { Core c; sp("puts", 0); console_write(&b, 1); } return ch; }

// ---------------------------------------------------------------- stdio on simulated files: scheduling points between the calls
int __real_fputs(const char *, FILE *); int __real_fputc(int, FILE *); int __real_fflush(FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *);
// which stream: its address would make a run depend on what the real heap looked like before it
static const void *file_id(FILE *f) { return (void *)(uintptr_t)(f == stdout ? 1 : f == stderr ? 2 : 3); }
int __real_putc(int, FILE *); int __real_vfprintf(FILE *, const char *, va_list);
int __wrap_fputs(const char *s, FILE *f) { if (cur < 0) return __real_fputs(s, f); Core c; sp("fputs", file_id(f)); if (f == stdout || f == stderr) { console_write(s, strlen(s)); return 1; } return __real_fputs(s, f); }
int __wrap_fputc(int ch, FILE *f) { if (cur < 0) return __real_fputc(ch, f); Core c; sp("fputc", file_id(f)); if (f == stdout || f == stderr) { char b = ch; console_write(&b, 1); return ch; } return __real_fputc(ch, f); }
int __wrap_putc(int ch, FILE *f) { return __wrap_fputc(ch, f); }
size_t __wrap_fwrite(const void *p, size_t a, size_t n, FILE *f) { if (cur < 0) return __real_fwrite(p, a, n, f); Core c; sp("fwrite", file_id(f)); if (f == stdout || f == stderr) { console_write((const char *)p, a * n); return n; } return __real_fwrite(p, a, n, f); }
int __wrap_fflush(FILE *f) { if (cur < 0) return __real_fflush(f); Core c; sp("fflush", file_id(f)); if (!f || f == stdout || f == stderr) return 0; return __real_fflush(f); }
int __wrap_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n; if (cur < 0) n = __real_vfprintf(f, fmt, ap); else { Core c; sp("fprintf", file_id(f)); if (f == stdout || f == stderr) n = con_printf(fmt, ap); else n = __real_vfprintf(f, fmt, ap); } va_end(ap); return n; }
int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) { if (cur < 0) return __real_vfprintf(f, fmt, ap); Core c; sp("fprintf", file_id(f)); if (f == stdout || f == stderr) return con_printf(fmt, ap); return __real_vfprintf(f, fmt, ap); }
// the forms the compiler puts in their place when it knows the size of the objects
int __wrap___printf_chk(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = con_printf(fmt, ap); va_end(ap); return n; }
int __wrap___vprintf_chk(int, const char *fmt, va_list ap) { return con_printf(fmt, ap); }
int __wrap___fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = __wrap_vfprintf(f, fmt, ap); va_end(ap); return n; }
int __wrap___vfprintf_chk(FILE *f, int, const char *fmt, va_list ap) { return __wrap_vfprintf(f, fmt, ap); }
}
