// Internal interface between the parts of the simulator.
#pragma once
#include "sim.h"
#include <pthread.h>
#include <time.h>
#include <string.h>
#include <sys/types.h>
#include <errno.h>

extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void *__real_memmove(void *, const void *, size_t);
size_t __real_strlen(const char *);
void __real__exit(int) __attribute__((noreturn)); int __real_close(int);
}

namespace sim {

enum { MAXF = 40, STREAM_CAP = 1 << 15, MAXCNT = 160, MSGCAP = 3000, TRACECAP = 1 << 22, HISTCAP = 1 << 20 };
enum { STACK_SIZE = 512 * 1024 };

struct StreamRec { uint32_t len, pos; uint32_t data[STREAM_CAP]; };

struct Counter { char name[44]; uint64_t n; };

// Shared between worker, run child and phase children (MAP_SHARED at a fixed address).
struct Shared {
	int replay;				// 1 = values come from st[].data[0..len)
	int trace;
	uint64_t rng[NSTREAM][4];
	StreamRec st[NSTREAM];
	// result
	volatile int status;	// 0 none, 1 ok, 2 violation, 3 internal error
	char vclass[64];
	char vmsg[MSGCAP];
	uint64_t hash, ilv, steps, memops, nontrivial, races;
	int64_t sim_us;
	Counter cnt[MAXCNT]; int ncnt;
	// simulation state that survives an incarnation
	int64_t mono, wall_off;
	uint64_t seqno;
	int incarnation;
	int next_tid;
	int phase_end, phase_status;
	uint32_t trace_len;
	size_t hist_used, hist_hw;
	// trailing: trace buffer, shared alloc area, disk
	char trace_buf[TRACECAP];
	char hist[HISTCAP] __attribute__((aligned(64)));
};
extern Shared *G;

enum FState { F_FREE, F_RUN, F_BLOCK, F_DONE };
enum { NSPEC = 16 };
void key_dtors();
struct Fiber {
	int id; FState st; const char *name; char namebuf[32];
	void *sp; char *stack;
	std::function<void()> *fn;
	void *(*pfn)(void *); void *parg; void *pret;
	bool is_pthread, joined, detached, daemon;
	int tid;
	// blocking
	const char *why; const void *obj;
	int64_t deadline; bool has_deadline, dl_wall, timed_out;
	std::function<bool()> *pred;
	int (*ready)(Fiber *);		// 1 if the fiber could proceed now
	void *cond; uint64_t cond_seq; bool signaled;
	int prio;
	// per thread state
	int saved_errno; int saved_sut; char *tls; void *spec[16];
	uint32_t vc[MAXF];
	int pend_sig[8]; int npend, in_sig, act_sig[4]; bool intr; uint64_t sigmask;
	int proc; bool killed;
	uint64_t acqs;
	int wantmode;
	unsigned alloc_n, malloc_n;
	size_t stack_req;
};
extern Fiber fib[MAXF];
extern int cur;				// -1 when not in a run
extern int nfib;
bool no_memory();			// this malloc is to fail
void startup_failed(const char *why);	// the program under test cannot even set up its tables
inline bool active() { return cur >= 0; }
inline Fiber *me() { return &fib[cur]; }

// Entering simulator code: memory callbacks off, allocations go to the real heap.
extern int g_core;
struct Core { int o, c; Core() : o(g_sut), c(g_core) { g_sut = 0; g_core = 1; } ~Core() { g_sut = o; g_core = c; } };

void locks_reset(); void locks_abandon(int proc);		// mutexes a dead simulated process held
void sp(const char *kind, const void *obj);				// scheduling point
// Block the current fiber until ready() or the deadline. Returns true if ready, false on timeout.
bool block(const char *why, const void *obj, int (*ready)(Fiber *), bool has_dl = false, int64_t dl = 0, bool dl_wall = false, bool interruptible = false);
void resched();
int64_t ts_us(const struct timespec *ts);
void mem_access(uintptr_t a, unsigned sz, bool wr, void *pc, bool atomic);
void mem_range(const void *p, size_t n, bool wr, void *pc);
void hb_acquire(const void *obj); void hb_release(const void *obj); void hb_reset(const void *obj);
void hb_fork(int child); void hb_join(int child);
void tracef(const char *fmt, ...);
extern bool g_mem_on;		// any mem preemption / race detection wanted
void heap_check(const void *p, size_t n, bool wr, void *pc);
bool in_arena(const void *p);
void reset_run();
void run_main(void (*fn)());
void vfs_reset_run(); void vfs_phase_end(bool crash, bool power); void vfs_phase_start();
void net_reset(); void fs_reset_run(); void fs_phase_end(bool crash, bool power);
void vfs_init();
void console_write(const char *p, size_t n);
extern void (*g_crash_hook)();
int spawn_fiber(const char *name, std::function<void()> *fn, void *(*pfn)(void *), void *arg, bool daemon);
extern void (*g_sig_deliver)(int sig);
extern int g_fail_thread_create;
void proc_switch(int from, int to);
void proc_reset();
[[noreturn]] void fiber_end();		// the current fiber never runs again
int cur_proc();
// simulated files, in shared memory
enum { FS_FILES = 32, FS_CAP = 1 << 17 };
struct FsFile { char name[112]; bool used, exists; uint32_t size; int links; char data[FS_CAP]; };
struct FsDisk { FsFile f[FS_FILES]; };
extern FsDisk *FD;
bool fault_point(const char *where);	// crash point; counts VFS/sched points
}
