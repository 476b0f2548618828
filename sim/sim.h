// Deterministic simulator: public interface used by the property scenarios.
// One run = one process forked from a zygote; all "threads" are fibers scheduled by us; every
// choice (schedule, time, fault, workload) is drawn from recorded streams, so a run is a pure
// function of (binary, streams).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <functional>
#include <string>
#include <vector>

namespace sim {

enum Stream { W = 0, S = 1, F = 2, T = 3, NSTREAM = 4 };	// workload, schedule, faults, time

// ---- choices (0 is always the "simplest" choice) ----
uint32_t draw(int stream, uint32_t n);				// uniform in [0,n)
bool chance(int stream, unsigned num, unsigned den);	// recorded as 0/1
uint32_t geom(int stream, uint32_t mean);			// >=1, or 0 meaning "never" (only when replaying shrunk traces)
inline uint32_t w(uint32_t n) { return draw(W, n); }
inline bool wp(unsigned num, unsigned den) { return chance(W, num, den); }
template <class X> const X &pick(int stream, const std::vector<X> &v) { return v[draw(stream, (uint32_t)v.size())]; }

// ---- outcome ----
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void count(const char *name, uint64_t by = 1);		// evidence counters ("fault.*", "probe.*", "op.*")
void event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));	// goes to trace and event hash
void mixhash(uint64_t v);
void nontrivial();									// marks this run as non trivial for the evidence

// ---- fibers ----
struct SpawnOpts { bool daemon = false; int proc = -1; };
int spawn(const char *name, std::function<void()> fn);
int spawn_proc(const char *name, int proc, std::function<void()> fn);	// a fiber of another simulated process
int spawn_daemon(const char *name, std::function<void()> fn);
bool done(int fid);
void join(int fid);									// harness join; waits until fiber finished
void join_all();									// all fibers started by the scenario except the caller
void join_threads();								// all threads started by the code under test
int self();
int fiber_of_pthread(unsigned long pt);
size_t thread_stack(int fid);						// the stack size its creator asked for; 0: any
bool blocked(int fid);								// not runnable right now
const char *blocked_on(int fid);
void yield();										// a plain scheduling point
void sleep_us(int64_t us);							// simulated time
void wait_until(std::function<bool()> pred);		// harness wait on a predicate
bool wait_until_timeout(std::function<bool()> pred, int64_t us);
void set_nopreempt(bool);

// ---- clock ----
int64_t mono_us();
int64_t wall_us();
void jump_wall(int64_t us);							// wall clock step
void set_wall(int64_t us);
uint64_t seq();										// global event sequence number (strictly increasing)

// ---- configuration of the run ----
struct Cfg {
	unsigned sync_mean = 8;			// mean gap between preemptions at sync points; 0 = none
	unsigned mem_mean = 0;			// mean gap between preemptions at memory accesses; 0 = none
	bool pct = false;
	unsigned hot_mean = 0;			// mean gap at accesses that raced before; 0 = none
	unsigned spurious_den = 0;		// 1/den chance per wait for a spurious condvar wakeup
	unsigned stall_mean = 0;		// mean gap between clock stalls (clock runs on while threads are stopped)
	int64_t tick_us = 1;			// clock advance per scheduling point
	unsigned late_us = 0;			// max extra lateness of timer wake ups
	uint64_t max_steps = 400000;
	uint64_t max_mem = 60000000;
	unsigned eintr_mean = 0;
	bool race_fatal = false;
	bool wall_jumps = false;
};
extern Cfg cfg;
void swarm_schedule();				// draw cfg (mode, gaps, ...) from S/T streams
void swarm_clock_phase(const std::vector<int> &timeouts_ms = {});	// choose the starting phase of the wall clock

// SUT scope: memory callbacks are live (preemption, heap checks, race detection).
extern int g_sut;
// The barriers keep the compiler from carrying harness variables in registers across a switch.
#define SIM_BARRIER() asm volatile("" ::: "memory")
struct Sut { int o; Sut() : o(g_sut) { SIM_BARRIER(); g_sut = 1; SIM_BARRIER(); } ~Sut() { SIM_BARRIER(); g_sut = o; SIM_BARRIER(); } };
struct Harness { int o; Harness() : o(g_sut) { SIM_BARRIER(); g_sut = 0; SIM_BARRIER(); } ~Harness() { SIM_BARRIER(); g_sut = o; SIM_BARRIER(); } };
#define SUT(expr) ([&]() { sim::Sut _s; return (expr); }())
#define SUTV(stmt) do { sim::Sut _s; stmt; } while (0)

// heap queries
bool heap_live(const void *p);		// is p inside a live heap block?
uint64_t heap_blocks();				// live blocks allocated in SUT scope
void alloc_fail(unsigned nth);		// the calling fiber's nth operator new from now on (in SUT scope) throws std::bad_alloc; 0: none
void malloc_fail(unsigned nth);		// the calling fiber's nth malloc, calloc, realloc or strdup from now on (in SUT scope; sqlite's too) gives 0; 0: none
bool alloc_failed();				// it has

// ---- phases (process incarnations) ----
enum PhaseEnd { PH_OK, PH_CRASH, PH_POWER, PH_EXIT };
int phase(std::function<void()> body);	// runs body in a forked child sharing disk/history/streams
[[noreturn]] void crash(bool power);	// end this incarnation now
extern int g_exit_status;
void arm_crash(unsigned mean, bool power);	// crash after a drawn number of scheduling/VFS points
void disarm_crash();
int incarnation();

// shared (survives phases) storage for scenario state; zeroed at run start
void *shared_alloc(size_t bytes);
template <class X> X *shared() { return (X *)shared_alloc(sizeof(X)); }

// ---- signals ----
void post_signal(int fid, int sig);		// delivered at the fiber's next scheduling point

// ---- simulated processes (one address space; registered globals are swapped per process) ----
struct ProcState { bool ended, by_signal; int status; };
ProcState &proc_state(int proc);
void proc_private(void *addr, size_t len);	// these bytes belong to each process separately
void (*sim_signal_handler(int proc, int sig))(int);	// disposition now installed (SIG_DFL / SIG_IGN / function)
struct ProcAct { int proc; char kind; int sig; uint64_t seq; std::string text; };	// 'k' kill, 's' system(), 'c' core dump, 'S' signal()
std::vector<ProcAct> &proc_acts();

// ---- simulated plain files ----
bool fs_exists(const char *path);
std::string fs_read(const char *path);
void fs_put(const char *path, const std::string &data);
std::vector<std::string> fs_list();
struct FsOp { int proc, fid; std::string op, path; bool ok; uint64_t seq; };
std::vector<FsOp> &fs_ops();
struct FsFaults { unsigned open_mean, write_mean; unsigned kill_mean; int kill_proc; };
extern FsFaults g_fsf;

// ---- simulated disk below sqlite ----
struct DiskFaults {
	unsigned mean;			// mean number of I/O operations between faults; 0 = none
	bool read, write, sync, full, open, lock;	// kinds enabled
	unsigned slow_us;		// max extra latency of a sync
	unsigned burst;			// consecutive failures per fault
};
void disk_faults(const DiskFaults &);
void disk_faults_off();
uint64_t disk_faults_fired();

// ---- simulated datagram network ----
struct NetFaults {
	unsigned drop_den, dup_den;	// UDP only: 1/den per datagram
	unsigned delay_us;			// UDP only: max delivery delay (reorders)
	unsigned eintr_mean;		// blocking calls interrupted
	unsigned send_err_mean;		// sendto fails with ENOBUFS
	unsigned recv_err_mean;		// recvfrom fails with ECONNREFUSED (an ICMP error reported late)
	unsigned open_err_mean;		// socket() / bind() failures
	unsigned dns_us, dns_err_den;
	unsigned vanish_den;		// UDP only: a datagram that made the socket readable is gone when it is read
};
extern NetFaults g_netf;
struct NetRec { char kind; int fd; std::string src, dst, data; uint64_t seq; };	// 's' sent, 'x' send refused, 'd' dropped, 'r' received
std::vector<NetRec> &net_log();
int net_open_sockets();
void net_fd_base(int n);		// how many descriptors the process has open already
void net_cut(bool on);				// partition: UDP datagrams are dropped while on

// ---- sinks captured from the code under test ----
struct SinkRec { int fid; int prio; uint64_t seq; std::string text; };
std::vector<SinkRec> &syslog_recs();
std::string &console();				// std::cerr + std::cout bytes, in write order
void capture_streams(bool on);

// ---- registration ----
struct Prop {
	const char *id; const char *title; void (*fn)();
	const char *rule; const char *real; const char *stub;
	Prop *next;
	unsigned quick_runs, thorough_runs;
	Prop(const char *i, const char *t, void (*f)(), const char *rule, const char *real, const char *stub, unsigned q = 40000, unsigned th = 2000000);
};
extern Prop *g_props;
extern void (*g_zygote_init)();		// run once in the zygote

}

#define CHECK(cond, cls, ...) do { if (!(cond)) sim::fail(cls, __VA_ARGS__); } while (0)
