// Scheduler, clock, choice streams, phases, violations.
#include "core.h"
#include <link.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <cxxabi.h>
#include <execinfo.h>

namespace sim {

Shared *G;
Fiber fib[MAXF];
int cur = -1, nfib = 0;
int g_sut = 0, g_core = 0;
Cfg cfg;
int g_exit_status;
Prop *g_props;
void (*g_zygote_init)();
void (*g_crash_hook)();

// ---------------------------------------------------------------- streams
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t xo(uint64_t *s)
{
	uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
	return r;
}
static inline void mix(uint64_t &h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; }
void mixhash(uint64_t v) { mix(G->hash, v); }

template <class GEN> static uint32_t rec(int s, GEN gen)
{
	StreamRec &r = G->st[s];
	uint32_t v;
	if (G->replay) { v = r.pos < r.len ? r.data[r.pos] : 0; r.pos++; return v; }
	if (r.len >= STREAM_CAP) return 0;
	v = gen(G->rng[s]);
	r.data[r.len++] = v; r.pos = r.len;
	return v;
}
uint32_t draw(int s, uint32_t n)
{
	if (n <= 1) return 0;
	return rec(s, [n](uint64_t *g) { return (uint32_t)((xo(g) >> 32) % n); }) % n;
}
bool chance(int s, unsigned num, unsigned den)
{
	if (!num) return false;
	return rec(s, [=](uint64_t *g) { return (uint32_t)(((xo(g) >> 32) % den) < num); }) & 1;
}
uint32_t geom(int s, uint32_t mean)
{
	if (!mean) return 0;
	return rec(s, [mean](uint64_t *g) {
		// geometric with the given mean, >= 1
		double u = ((xo(g) >> 11) + 1) * (1.0 / 9007199254740993.0);
		double x = 0; double m = mean;
		// -log(u)*m without libm: use the real one
		x = -__builtin_log(u) * m;
		uint32_t v = (uint32_t)x + 1;
		return v > 100000000 ? 100000000u : v;
	});
}

// ---------------------------------------------------------------- outcome
void tracef(const char *fmt, ...)
{
	if (!G || !G->trace) return;
	Core c;
	char b[800];
	int n = snprintf(b, sizeof b, "%7llu t=%-12lld %-10s ", (unsigned long long)G->seqno, (long long)G->mono, cur >= 0 ? me()->name : "-");
	va_list ap; va_start(ap, fmt); n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); va_end(ap);
	if (n > (int)sizeof b - 3) n = sizeof b - 3;
	b[n++] = '\n';
	if (G->trace_len + n < TRACECAP) { __real_memcpy(G->trace_buf + G->trace_len, b, n); G->trace_len += n; }
}
void event(const char *fmt, ...)
{
	Core c;
	char b[400];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	for (char *p = b; *p; p++) mix(G->hash, *p);
	G->seqno++;
	tracef("* %s", b);
}
void count(const char *name, uint64_t by)
{
	for (int i = 0; i < G->ncnt; i++) if (!strcmp(G->cnt[i].name, name)) { G->cnt[i].n += by; return; }
	if (G->ncnt >= MAXCNT) return;
	Counter &k = G->cnt[G->ncnt++];
	strncpy(k.name, name, sizeof k.name - 1); k.n = by;
}
void nontrivial() { G->nontrivial = 1; }
void fail(const char *cls, const char *fmt, ...)
{
	Core c;
	if (G->status != 2) {
		strncpy(G->vclass, cls, sizeof G->vclass - 1);
		va_list ap; va_start(ap, fmt); vsnprintf(G->vmsg, sizeof G->vmsg, fmt, ap); va_end(ap);
		for (const char *p = G->vclass; *p; p++) mix(G->hash, *p);
		tracef("VIOLATION %s: %s", G->vclass, G->vmsg);
		if (getenv("SIM_BT")) { void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); }
		G->sim_us = G->mono;
		G->status = 2;
	}
	__real__exit(1);
}

// ---------------------------------------------------------------- context switch
extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
	ret
.size sim_switch,.-sim_switch
.globl sim_tramp
.type sim_tramp,@function
sim_tramp:
	.cfi_startproc
	.cfi_undefined rip
	call sim_fiber_entry
	ud2
	.cfi_endproc
.size sim_tramp,.-sim_tramp
)");
extern "C" void sim_tramp();

static int gap_sync, gap_mem, gap_time, gap_hot, since_switch, g_nopreempt, pct_low;
bool g_mem_on;
static uint64_t mem_count;
static void switch_to(int n);
int g_gap_crash; static bool g_crash_power; static int g_crash_armed;
static bool crash_disarmed = true;

static const char *stdup(const char *s, char *buf, size_t n) { strncpy(buf, s, n - 1); buf[n - 1] = 0; return buf; }

extern "C" void sim_fiber_entry()
{
	Fiber *f = me();
	g_core = 0;
	try {
		if (f->is_pthread) { g_sut = 1; f->pret = f->pfn(f->parg); key_dtors(); }
		else { g_sut = 0; (*f->fn)(); Core c; delete f->fn; f->fn = 0; }
	} catch (std::exception &e) {
		g_sut = 0;
		fail("uncaught-exception", "exception escaped thread %s: %s", f->name, e.what());
	} catch (...) {
		g_sut = 0;
		fail("uncaught-exception", "exception escaped thread %s", f->name);
	}
	g_sut = 0; g_core = 1;
	f = me();
	tracef("thread ends");
	hb_release(f);
	f->st = F_DONE;
	resched();
	abort();
}
void fiber_end()
{
	g_core = 1; g_sut = 0;
	tracef("thread ends");
	hb_release(me());
	me()->st = F_DONE;
	resched();
	abort();
}
int cur_proc() { return cur < 0 ? 0 : me()->proc; }

// Fixed addresses: stack addresses are part of the observable behaviour of a run.
static char *map_stack(int id)
{
	char *want = (char *)(0x250000000000ULL + (uint64_t)id * 0x200000);
	char *p = (char *)mmap(want, STACK_SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	if (p != want) abort();
	mprotect(p, 4096, PROT_NONE);
	return p;
}
// What the program keeps per thread (thread_local data, exceptions in flight) is changed over with the fiber.
static size_t tls_size, tls_init_size, tls_room; static const void *tls_init;
static int tls_find(struct dl_phdr_info *i, size_t, void *)
{
	for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
		const ElfW(Phdr) &h = i->dlpi_phdr[k]; size_t al = h.p_align ? h.p_align : 1;
		tls_size = h.p_memsz; tls_init_size = h.p_filesz; tls_room = (tls_size + al - 1) & ~(al - 1); tls_init = (void *)(i->dlpi_addr + h.p_vaddr);
	}
	return 1;		// the first one is the program
}
static char *tls_at() { return (char *)__builtin_thread_pointer() - tls_room; }
static char *tls_new()
{
	Core c;
	if (!tls_size) dl_iterate_phdr(tls_find, 0);
	char *p = (char *)calloc(1, tls_size + 1);
	__real_memcpy(p, tls_init, tls_init_size);
	return p;
}
static Fiber *new_fiber(const char *name)
{
	int id = nfib; uint32_t was = 0;
	if (id >= MAXF) {		// take over the slot of a thread that ended and that nobody can ask for any more
		for (id = 1; id < MAXF; id++) if (id != cur && fib[id].st == F_DONE && !fib[id].killed && (fib[id].joined || fib[id].detached || !fib[id].is_pthread)) break;
		if (id >= MAXF) fail("internal", "too many fibers");
		was = fib[id].vc[id];
	} else nfib++;
	Fiber *f = &fib[id];
	if (f->tls) free(f->tls);
	memset((void *)f, 0, sizeof *f);
	f->tls = tls_new();
	f->id = id;
	f->name = stdup(name, f->namebuf, sizeof f->namebuf);
	f->tid = G->next_tid++;
	f->stack = map_stack(f->id);
	uintptr_t top = (uintptr_t)f->stack + STACK_SIZE + 4096 - 64;
	top &= ~15UL;
	void **s = (void **)top;
	*--s = 0; *--s = 0;			// alignment
	*--s = (void *)sim_tramp;	// return address
	for (int i = 0; i < 6; i++) *--s = 0;
	f->sp = s;
	f->st = F_RUN;
	f->proc = cur >= 0 ? me()->proc : 0;
	f->prio = cfg.pct ? 1000 + (int)draw(S, 1000) : 0;
	f->saved_sut = 0;
	hb_fork(f->id);
	if (f->vc[id] <= was) f->vc[id] = was + 1;
	return f;
}
int spawn_fiber(const char *name, std::function<void()> *fn, void *(*pfn)(void *), void *arg, bool daemon)
{
	Core c;
	Fiber *f = new_fiber(name);
	f->fn = fn; f->pfn = pfn; f->parg = arg; f->is_pthread = pfn != 0; f->daemon = daemon; if (pfn && cur >= 0) f->sigmask = me()->sigmask;
	tracef("spawn %s (fiber %d)", name, f->id);
	return f->id;
}
int spawn(const char *name, std::function<void()> fn)
{
	int id; { Core c; id = spawn_fiber(name, new std::function<void()>(std::move(fn)), 0, 0, false); }
	sp("spawn", 0);
	return id;
}
int spawn_proc(const char *name, int proc, std::function<void()> fn)
{
	int id; { Core c; id = spawn_fiber(name, new std::function<void()>(std::move(fn)), 0, 0, false); fib[id].proc = proc; }
	sp("spawn", 0);
	return id;
}
int spawn_daemon(const char *name, std::function<void()> fn)
{
	int id; { Core c; id = spawn_fiber(name, new std::function<void()>(std::move(fn)), 0, 0, true); }
	return id;
}

// ---------------------------------------------------------------- clock
int64_t mono_us() { return G->mono; }
int64_t wall_us() { return G->mono + G->wall_off; }
uint64_t seq() { return ++G->seqno; }
void jump_wall(int64_t us) { G->wall_off += us; count("fault.wall_clock_jump"); tracef("wall clock jumps by %lld us", (long long)us); mixhash(us); }
void set_wall(int64_t us) { G->wall_off = us - G->mono; }
int64_t ts_us(const struct timespec *ts) { return (int64_t)ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000; }

static inline int64_t dl_mono(const Fiber *f) { return f->dl_wall ? f->deadline - G->wall_off : f->deadline; }

// Is this fiber able to run now?
static bool runnable(Fiber *f)
{
	if (f->st == F_RUN) return true;
	if (f->st != F_BLOCK) return false;
	if (f->intr) return true;
	if (f->has_deadline && dl_mono(f) <= G->mono) return true;
	if (f->ready && f->ready(f)) return true;
	return false;
}

static int64_t next_timer()
{
	int64_t b = INT64_MAX;
	for (int i = 0; i < nfib; i++) if (fib[i].st == F_BLOCK && fib[i].has_deadline) { int64_t d = dl_mono(&fib[i]); if (d < b) b = d; }
	return b;
}

static void switch_to(int n)
{
	if (n == cur) return;
	Fiber *o = me(), *t = &fib[n];
	o->saved_errno = errno; o->saved_sut = g_core;
	if (!o->tls) o->tls = tls_new();
	__real_memcpy(o->tls, tls_at(), tls_size); __real_memcpy(tls_at(), t->tls, tls_size);
	mix(G->ilv, n); mix(G->hash, n);
	since_switch = 0;
	int po = o->proc, pn = t->proc;
	cur = n;
	if (po != pn) proc_switch(po, pn);
	int sc = g_core, ss = g_sut;
	sim_switch(&o->sp, t->sp);
	g_core = sc; g_sut = ss;
	errno = me()->saved_errno;
}

static void deadlock()
{
	char b[2000]; int n = 0; b[0] = 0;
	for (int i = 0; i < nfib && n < 1800; i++)
		if (fib[i].st == F_BLOCK) n += snprintf(b + n, sizeof b - n, " [%s blocked in %s obj=%p%s]", fib[i].name, fib[i].why, fib[i].obj, fib[i].daemon ? " daemon" : "");
	fail("deadlock", "no thread can run and no timer is pending:%s", b);
}

// Choose a fiber to run when the current one cannot (or must not) continue.
static int choose_next(bool allow_cur)
{
	for (;;) {
		int c[MAXF], n = 0;
		// order: current first, then round robin from current
		for (int k = 0; k < nfib; k++) {
			int i = (cur + k) % nfib;
			if (k == 0 && !allow_cur) continue;
			if (runnable(&fib[i])) c[n++] = i;
		}
		if (n == 1) return c[0];
		if (n > 1) {
			if (cfg.pct) {
				int b = 0;
				for (int i = 1; i < n; i++) if (fib[c[i]].prio > fib[c[b]].prio) b = i;
				return c[b];
			}
			return c[draw(S, n)];
		}
		if (!allow_cur && runnable(me())) return cur;
		int64_t t = next_timer();
		if (t == INT64_MAX) deadlock();
		if (t > G->mono) {
			G->mono = t;
			if (cfg.late_us && chance(T, 1, 4)) G->mono += draw(T, cfg.late_us);
		}
		G->steps++;
		if (G->steps > cfg.max_steps) fail("no-progress", "step budget of %llu scheduling points exhausted", (unsigned long long)cfg.max_steps);
	}
}

void resched()
{
	Core c;
	switch_to(choose_next(false));
}

static void deliver_signals();

static void maybe_switch(bool want)
{
	if (g_nopreempt) return;
	if (++since_switch > 3000) {	// fairness: nobody spins forever
		if (cfg.pct) me()->prio = --pct_low;
		since_switch = 0; count("sched.forced");
		switch_to(choose_next(false));
		return;
	}
	if (cfg.pct) {
		if (want) me()->prio = --pct_low;
		int b = cur;
		for (int i = 0; i < nfib; i++) if (fib[i].prio > fib[b].prio && runnable(&fib[i])) b = i;
		if (b != cur) { count("sched.preempt"); switch_to(b); }
		return;
	}
	if (!want) return;
	int c[MAXF], n = 0;
	for (int k = 1; k < nfib; k++) { int i = (cur + k) % nfib; if (runnable(&fib[i])) c[n++] = i; }
	if (!n) return;
	count("sched.preempt");
	switch_to(c[draw(S, n)]);
}

void sp(const char *kind, const void *obj)
{
	if (cur < 0) return;
	Core core;
	G->steps++; G->seqno++;
	G->mono += cfg.tick_us ? cfg.tick_us : (G->steps % 50 == 0);	// time never stands still for good
	mix(G->hash, (uint64_t)cur * 131 + (uint64_t)(uintptr_t)obj + kind[0] * 7 + kind[1] * 1009);
	tracef("%s %p", kind, obj);
	if (G->steps > cfg.max_steps) {
		char b[1500]; int n = 0; b[0] = 0;
		for (int i = 0; i < nfib && n < 1300; i++) n += snprintf(b + n, sizeof b - n, " [%s %s %s]", fib[i].name, fib[i].st == F_RUN ? "running" : fib[i].st == F_BLOCK ? "blocked" : "done", fib[i].st == F_BLOCK ? fib[i].why : "");
		fail("no-progress", "step budget of %llu scheduling points exhausted:%s", (unsigned long long)cfg.max_steps, b);
	}
	if (g_crash_armed && !crash_disarmed && g_gap_crash > 0 && --g_gap_crash == 0) crash(g_crash_power);
	if (cfg.stall_mean && gap_time > 0 && --gap_time == 0) {
		gap_time = geom(T, cfg.stall_mean);
		int64_t t = next_timer(), d;
		switch (draw(T, 5)) {
			case 1: d = 1000 * (1 + draw(T, 20)); break;
			case 2: d = 100000 * (1 + draw(T, 30)); break;
			case 3: d = (t != INT64_MAX && t > G->mono) ? t - G->mono : 500; break;
			case 4: d = (t != INT64_MAX && t > G->mono) ? t - G->mono + draw(T, 5000) : 50; break;
			default: d = 0;
		}
		if (d > 0) { G->mono += d; count("fault.stall"); tracef("stall: clock advances %lld us", (long long)d); }
	}
	bool want = false;
	if (gap_sync > 0 && --gap_sync == 0) { gap_sync = geom(S, cfg.sync_mean); want = true; }
	maybe_switch(want);
	deliver_signals();
}

void mem_sp(void *pc, bool hot)
{
	// called from the memory callbacks, g_sut already cleared by the caller
	bool want = false;
	if (gap_mem > 0 && --gap_mem == 0) { gap_mem = geom(S, cfg.mem_mean); want = true; }
	if (hot && gap_hot > 0 && --gap_hot == 0) { gap_hot = geom(S, cfg.hot_mean); want = true; }
	if (++mem_count > cfg.max_mem) fail("no-progress", "memory access budget exhausted (loop without scheduling points?)");
	if (!want) return;
	Core core;
	G->seqno++;
	tracef("preempt at memory access pc=%p", pc);
	count("sched.mem_preempt");
	if (cfg.pct) { maybe_switch(true); return; }
	maybe_switch(true);
}

bool block(const char *why, const void *obj, int (*ready)(Fiber *), bool has_dl, int64_t dl, bool dl_wall, bool interruptible)
{
	Core c;
	Fiber *f = me();
	f->why = why; f->obj = obj; f->ready = ready; f->has_deadline = has_dl; f->deadline = dl; f->dl_wall = dl_wall;
	f->intr = false;
	f->st = F_BLOCK;
	f->wantmode = interruptible;
	tracef("blocks in %s %p%s", why, obj, has_dl ? " (timed)" : "");
	switch_to(choose_next(false));
	f = me();
	// resumed: either ready, timed out or interrupted
	bool ok = ready ? ready(f) : false;
	f->st = F_RUN;
	f->why = 0; f->ready = 0; f->has_deadline = false;
	if (!ok) tracef("%s %p", f->intr ? "interrupted in" : "timed out in", obj);
	deliver_signals();
	return ok;
}

// ---------------------------------------------------------------- harness waits
static int pred_ready(Fiber *f) { return f->pred && (*f->pred)(); }
void wait_until(std::function<bool()> p)
{
	if (p()) return;
	Core c;
	std::function<bool()> q = p;
	me()->pred = &q;
	while (!block("harness-wait", 0, pred_ready)) ;
	me()->pred = 0;
}
bool wait_until_timeout(std::function<bool()> p, int64_t us)
{
	if (p()) return true;
	Core c;
	std::function<bool()> q = p;
	me()->pred = &q;
	bool r = block("harness-wait", 0, pred_ready, true, G->mono + us);
	me()->pred = 0;
	return r;
}
size_t thread_stack(int fid) { return fib[fid].stack_req; }
bool done(int id) { return fib[id].st == F_DONE; }
static int join_ready(Fiber *f) { return fib[(intptr_t)f->obj].st == F_DONE; }
void join(int id)
{
	while (!done(id)) block("harness-join", (void *)(intptr_t)id, join_ready);
	hb_join(id);
}
void join_threads() { Core c; for (int i = 0; i < nfib; i++) if (i != cur && fib[i].is_pthread) join(i); }
void join_all()
{
	for (int i = 0; i < nfib; i++) if (i != cur && !fib[i].daemon && !fib[i].is_pthread) join(i);
}
int self() { return cur; }
bool blocked(int f) { return fib[f].st == F_BLOCK && !runnable(&fib[f]); }
const char *blocked_on(int f) { return fib[f].st == F_BLOCK ? fib[f].why : ""; }
void yield() { sp("yield", 0); }
void sleep_us(int64_t us) { block("sleep", 0, 0, true, G->mono + us); }
void set_nopreempt(bool b) { g_nopreempt += b ? 1 : -1; }

// ---------------------------------------------------------------- signals
void (*g_sig_deliver)(int sig);
void post_signal(int id, int sig)
{
	Fiber *f = &fib[id];
	if (f->npend < 8) f->pend_sig[f->npend++] = sig;
	if (f->st == F_BLOCK && f->wantmode && !(f->sigmask >> (sig - 1) & 1)) f->intr = true;
	count("fault.signal");
}
static void deliver_signals()
{
	Fiber *f = me();
	if (!f->npend || !g_sig_deliver) return;
	// a handler may be interrupted by another signal, not by its own
	for (int i = 0; i < f->npend && f->in_sig < 3; ) {
		int s = f->pend_sig[i]; bool masked = s != SIGKILL && s != SIGSTOP && f->sigmask >> (s - 1) & 1;
		for (int k = 0; k < f->in_sig; k++) masked |= f->act_sig[k] == s;
		if (masked) { i++; continue; }
		f->npend--;
		memmove(f->pend_sig + i, f->pend_sig + i + 1, sizeof(int) * (f->npend - i));
		f->act_sig[f->in_sig++] = s;
		int e = errno;
		g_sig_deliver(s);
		errno = e;
		me()->in_sig--;
		i = 0;
	}
}

// ---------------------------------------------------------------- run control
void init_gaps()
{
	gap_sync = geom(S, cfg.sync_mean);
	gap_mem = geom(S, cfg.mem_mean);
	gap_hot = geom(S, cfg.hot_mean);
	gap_time = geom(T, cfg.stall_mean);
	g_mem_on = true;
	pct_low = 0;
	for (int i = 0; i < nfib; i++) fib[i].prio = cfg.pct ? 1000 + (int)draw(S, 1000) : 0;
}
void swarm_schedule()
{
	Core c;
	static const unsigned sm[] = { 6, 2, 3, 15, 40, 150, 0 }, mm[] = { 0, 0, 30, 100, 400, 2000, 10 };
	unsigned m = draw(S, 8);
	cfg.pct = m == 7;
	if (cfg.pct) { cfg.sync_mean = 20 + draw(S, 4) * 40; cfg.mem_mean = draw(S, 2) ? 100 + draw(S, 5) * 300 : 0; }
	else { cfg.sync_mean = sm[draw(S, 7)]; cfg.mem_mean = mm[draw(S, 7)]; }
	cfg.hot_mean = draw(S, 3) == 2 ? 0 : 2 + draw(S, 6);
	cfg.spurious_den = draw(S, 3) ? 0 : 8;
	static const unsigned st[] = { 0, 0, 20, 60, 300 };
	cfg.stall_mean = st[draw(T, 5)];
	static const int tk[] = { 1, 0, 13, 117, 900 };
	cfg.tick_us = tk[draw(T, 5)];
	cfg.late_us = draw(T, 3) ? 0 : 3000;
	init_gaps();
}
void swarm_clock_phase(const std::vector<int> &tmo)
{
	Core c;
	int64_t sec = 1400000000 + (int64_t)draw(T, 1000000);
	int64_t us;
	switch (draw(T, 3)) {
		case 1:
			if (!tmo.empty()) {	// a phase where now + timeout lands exactly on / next to a second boundary
				int t = tmo[draw(T, tmo.size())];
				us = (1000000 - (int64_t)(t % 1000) * 1000) % 1000000;
				static const int off[] = { 0, -1, 1, -2, 2, -5, 3 };
				us = (us + off[draw(T, 7)] - (int64_t)draw(T, 3) * cfg.tick_us + 1000000) % 1000000;
				break;
			}
			// fall through
		case 2: us = 999990 + draw(T, 10); break;
		default: us = draw(T, 1000000);
	}
	set_wall(sec * 1000000 + us);
}

void *shared_alloc(size_t n)
{
	n = (n + 63) & ~63UL;
	if (G->hist_used + n > HISTCAP) { fprintf(stderr, "shared_alloc: too much\n"); abort(); }
	void *p = G->hist + G->hist_used;
	G->hist_used += n;
	if (G->hist_used > G->hist_hw) G->hist_hw = G->hist_used;
	return p;
}

int incarnation() { return G->incarnation; }

static void start_main()
{
	nfib = 0;
	Fiber *f = &fib[0];
	char *stk = f->stack;
	memset((void *)f, 0, sizeof *f);
	f->stack = stk;
	f->id = 0; nfib = 1; f->name = stdup("main", f->namebuf, sizeof f->namebuf); f->st = F_RUN; f->tid = G->next_tid++;
	f->vc[0] = 1;
	cur = 0;
	since_switch = 0; g_nopreempt = 0;
	init_gaps();
}
static void (*s_main_fn)();
static void main_body();
extern "C" void sim_main_entry() { main_body(); }
asm(R"(
.text
.globl sim_main_tramp
.type sim_main_tramp,@function
sim_main_tramp:
	.cfi_startproc
	.cfi_undefined rip
	call sim_main_entry
	ud2
	.cfi_endproc
.size sim_main_tramp,.-sim_main_tramp
)");
extern "C" void sim_main_tramp();
void run_main(void (*fn)())
{
	s_main_fn = fn;
	fib[0].stack = map_stack(0);
	void **s = (void **)(((uintptr_t)fib[0].stack + STACK_SIZE + 4096 - 64) & ~15UL);
	asm volatile("" : "+r"(s));
	*--s = 0; *--s = 0; *--s = (void *)sim_main_tramp;
	for (int i = 0; i < 6; i++) *--s = 0;
	static void *save;
	sim_switch(&save, s);
	abort();
}
static void main_body()
{
	void (*fn)() = s_main_fn;
	start_main();
	g_core = 0; g_sut = 0;
	try { fn(); }
	catch (std::exception &e) { g_sut = 0; fail("uncaught-exception", "exception escaped main: %s", e.what()); }
	catch (...) { g_sut = 0; fail("uncaught-exception", "exception escaped main"); }
	g_sut = 0; g_core = 1;
	G->sim_us = G->mono;
	G->status = 1;
	__real__exit(0);
}

void arm_crash(unsigned mean, bool power)
{
	g_gap_crash = geom(F, mean); g_crash_power = power; g_crash_armed = 1; crash_disarmed = false;
}
void disarm_crash() { crash_disarmed = true; }
bool fault_point(const char *) { if (g_crash_armed && !crash_disarmed && g_gap_crash > 0 && --g_gap_crash == 0) crash(g_crash_power); return false; }

void crash(bool power)
{
	Core c;
	G->phase_end = power ? PH_POWER : PH_CRASH;
	count(power ? "fault.power_loss" : "fault.process_crash");
	tracef("=== %s ===", power ? "POWER LOSS" : "PROCESS CRASH");
	mixhash(power ? 77 : 78);
	__real__exit(0);
}

void arm_timers();
int phase(std::function<void()> body)
{
	// must be called from the main fiber with no other fiber alive
	Core c;
	if (nfib != 1) { fprintf(stderr, "phase: fibers alive\n"); abort(); }
	G->phase_end = -1;
	G->incarnation++;
	vfs_phase_start();
	pid_t p = fork();
	if (p < 0) { G->status = 3; strcpy(G->vmsg, "fork failed"); __real__exit(2); }
	if (p == 0) {
		int o = g_core; g_core = 0;
		crash_disarmed = true; g_crash_armed = 0;
		arm_timers();
		start_main();
		try { body(); }
		catch (std::exception &e) { g_sut = 0; fail("uncaught-exception", "exception escaped phase: %s", e.what()); }
		catch (...) { g_sut = 0; fail("uncaught-exception", "exception escaped phase"); }
		g_sut = 0; g_core = 1; (void)o;
		G->phase_end = PH_OK;
		__real__exit(0);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
	if (G->status == 2) __real__exit(1);
	if (G->status == 3) __real__exit(2);
	if (!WIFEXITED(st) || G->phase_end < 0) {
		if (WIFSIGNALED(st)) { int s = WTERMSIG(st); fail("killed", "incarnation killed by signal %d", s); }
		fail("killed", "incarnation ended abnormally, status 0x%x", st);
	}
	int e = G->phase_end;
	vfs_phase_end(e != PH_OK && e != PH_EXIT, e == PH_POWER);
	return e;
}
}
