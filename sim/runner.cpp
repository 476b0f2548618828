// Seeded search over simulated runs, violation gating, minimisation, replay files and evidence.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <fstream>
#include <sstream>
#include <set>
#include <map>
#include <algorithm>

extern "C" { int __real_kill(pid_t, int); int __real_sigaction(int, const struct sigaction *, struct sigaction *); int __real_clock_gettime(clockid_t, struct timespec *); }
namespace sim {
void vfs_alloc();
Prop::Prop(const char *i, const char *t, void (*f)(), const char *r, const char *re, const char *s, unsigned q, unsigned th)
	: id(i), title(t), fn(f), rule(r), real(re), stub(s), next(g_props), quick_runs(q), thorough_runs(th) { g_props = this; }
}
using namespace sim;

static double now()
{
	timespec ts; __real_clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static uint64_t splitmix(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static void die(const char *m) { fprintf(stderr, "check error: %s\n", m); __real__exit(2); }

static void map_g()
{
	G = (Shared *)mmap((void *)0x240000000000ULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	if (G == MAP_FAILED) die("mmap");
	vfs_alloc();
}
static void reset_g()
{
	for (int i = 0; i < NSTREAM; i++) G->st[i].pos = 0;
	G->status = 0; G->vclass[0] = G->vmsg[0] = 0;
	G->hash = 0x1234; G->ilv = 0; G->steps = G->memops = G->nontrivial = G->races = 0; G->sim_us = 0;
	__real_memset(G->cnt, 0, sizeof(Counter) * G->ncnt); G->ncnt = 0;
	G->mono = 1000000; G->wall_off = 1400000000LL * 1000000; G->seqno = 0; G->incarnation = 0; G->next_tid = 5000; G->phase_end = G->phase_status = 0;
	G->trace_len = 0; G->hist_used = 0;
	__real_memset(G->hist, 0, G->hist_hw); G->hist_hw = 0;
	vfs_reset_run(); fs_reset_run();
}
static void seed_streams(uint64_t seed, const char *id, uint64_t run)
{
	for (int s = 0; s < NSTREAM; s++) {
		uint64_t x = seed * 0x9E3779B97F4A7C15ULL + run * 0xD1B54A32D192ED03ULL + s * 0x94D049BB133111EBULL;
		for (const char *p = id; *p; p++) x = x * 131 + *p;
		for (int k = 0; k < 4; k++) G->rng[s][k] = splitmix(x);
		G->st[s].len = 0; G->st[s].pos = 0;
	}
	G->replay = 0;
}
static char altstk[65536];
static void on_sig(int s, siginfo_t *si, void *)
{
	if (s == SIGVTALRM) fail("hang", "one scheduling quantum used more than its processor time budget (endless loop)");
	if (s == SIGALRM) fail("hang", "the run is blocked in a real system call");
	fail("crash-signal", "signal %d at address %p", s, s == SIGSEGV || s == SIGBUS ? si->si_addr : 0);
}
namespace sim { void arm_timers()
{
	itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 10; setitimer(ITIMER_VIRTUAL, &it, 0);
	it.it_value.tv_sec = 60; setitimer(ITIMER_REAL, &it, 0);	// blocked in a call the simulator does not own
} }
static void run_child(Prop *p)
{
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM, SIGALRM };
	for (int s : sg) __real_sigaction(s, &sa, 0);
	arm_timers();
	proc_reset(); net_reset();
	cfg = Cfg();
	run_main(p->fn);
}
// One run; the choice streams in G decide it completely.
static void one_run(Prop *p)
{
	reset_g();
	pid_t c = fork();
	if (c < 0) die("fork");
	if (c == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); run_child(p); }
	int st = 0;
	while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
	if (!G->status) {
		G->status = 2;
		strcpy(G->vclass, "abnormal-end");
		snprintf(G->vmsg, MSGCAP, "the simulated process ended without finishing the run (wait status 0x%x)", st);
	}
	if (G->status == 3) die(G->vmsg);
}

struct Rec { std::vector<uint32_t> st[NSTREAM]; };
static Rec save() { Rec r; for (int s = 0; s < NSTREAM; s++) r.st[s].assign(G->st[s].data, G->st[s].data + G->st[s].len); return r; }
static void load(const Rec &r, bool trace)
{
	for (int s = 0; s < NSTREAM; s++) { size_t n = std::min(r.st[s].size(), (size_t)STREAM_CAP); if (n) memcpy(G->st[s].data, r.st[s].data(), n * 4); G->st[s].len = n; G->st[s].pos = 0; }
	G->replay = 1; G->trace = trace;
}

// ---------------------------------------------------------------- worker results
struct WRes {
	uint64_t runs, nontriv, steps, memops, races, switches; double sim_s;
	Counter cnt[MAXCNT]; int ncnt;
	volatile int viol; uint64_t vrun; uint32_t vlen[NSTREAM]; uint32_t vdata[NSTREAM][STREAM_CAP];
	char vclass[64]; char vmsg[MSGCAP]; uint64_t vhash;
	uint64_t known;
	uint32_t nset; uint64_t set[1 << 20];
	uint64_t digest;	// xor of the hashes of all runs: order independent
	char sample[2000];
};
static WRes *R; static volatile int *stop_flag;
static void add_set(WRes *w, uint64_t h)
{
	if (!h) h = 1;
	uint32_t i = h & ((1 << 20) - 1);
	while (w->set[i]) { if (w->set[i] == h) return; i = (i + 1) & ((1 << 20) - 1); }
	if (w->nset > 900000) return;
	w->set[i] = h; w->nset++;
}
struct Known { std::string prop, cls, match, text; };
static std::vector<Known> g_known;
static void load_known(const char *f, const char *id)
{
	std::ifstream in(f); std::string l;
	while (std::getline(in, l)) {
		// KNOWN-FINDING: property=C01 class=deadlock match=<text up to |> | description
		if (l.compare(0, 14, "KNOWN-FINDING:")) continue;
		Known k; k.text = l;
		size_t a = l.find("property="), b = l.find("class="), c = l.find("match="), d = l.find(" | ");
		if (a == std::string::npos || b == std::string::npos) continue;
		k.prop = l.substr(a + 9, l.find(' ', a) - a - 9); k.cls = l.substr(b + 6, l.find(' ', b) - b - 6);
		if (c != std::string::npos) k.match = l.substr(c + 6, d - c - 6);
		if (k.prop == id) g_known.push_back(k);
	}
}
static bool is_known(const char *cls, const char *msg)
{
	for (auto &k : g_known) if (k.cls == cls && (k.match.empty() || strstr(msg, k.match.c_str()))) return true;
	return false;
}

static void worker(Prop *p, int w, int nw, uint64_t seed, uint64_t maxruns, double deadline, bool dump)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	map_g();
	WRes *r = &R[w];
	for (uint64_t i = w; i < maxruns; i += nw) {
		if (*stop_flag || now() > deadline) break;
		seed_streams(seed, p->id, i); G->trace = 0;
		one_run(p);
		r->runs++; r->steps += G->steps; r->memops += G->memops; r->races += G->races; r->sim_s += G->sim_us * 1e-6;
		uint64_t h = G->hash + i * 0x9E3779B97F4A7C15ULL; r->digest ^= splitmix(h);
		if (dump) { char b[100]; int n = snprintf(b, sizeof b, "%llu %016llx %llu\n", (unsigned long long)i, (unsigned long long)G->hash, (unsigned long long)G->steps); if (::write(1, b, n)) {} }
		for (int k = 0; k < G->ncnt; k++) {
			int j = 0; while (j < r->ncnt && strcmp(r->cnt[j].name, G->cnt[k].name)) j++;
			if (j == r->ncnt) { if (j == MAXCNT) continue; r->ncnt++; r->cnt[j] = G->cnt[k]; } else r->cnt[j].n += G->cnt[k].n;
		}
		if (G->nontrivial) { r->nontriv++; add_set(r, G->hash); }
		if (G->status == 2) {
			if (is_known(G->vclass, G->vmsg)) { r->known++; continue; }
			for (int s = 0; s < NSTREAM; s++) { r->vlen[s] = G->st[s].len; memcpy(r->vdata[s], G->st[s].data, G->st[s].len * 4); }
			strcpy(r->vclass, G->vclass); strcpy(r->vmsg, G->vmsg); r->vhash = G->hash; r->vrun = i;
			r->viol = 1; *stop_flag = 1;
			break;
		}
	}
	__real__exit(0);
}

// ---------------------------------------------------------------- minimisation
static Prop *g_p; static std::string g_cls; static double g_shrink_end; static int g_tries;
static std::string class_of(const char *c) { return c; }
static bool still_fails(const Rec &r)
{
	load(r, false); g_tries++;
	one_run(g_p);
	return G->status == 2 && class_of(G->vclass) == g_cls && !is_known(G->vclass, G->vmsg);
}
static Rec trimmed(Rec r)	// what was actually consumed; drop trailing zeros (implicit)
{
	for (int s = 0; s < NSTREAM; s++) {
		if (r.st[s].size() > G->st[s].pos) r.st[s].resize(G->st[s].pos);
		while (!r.st[s].empty() && !r.st[s].back()) r.st[s].pop_back();
	}
	return r;
}
static Rec shrink(Rec r)
{
	if (!still_fails(r)) return r;
	r = trimmed(r);
	bool progress = true;
	for (int round = 0; progress && round < 6 && now() < g_shrink_end; round++) {
		progress = false;
		for (int s : { W, F, S, T }) {
			// cut the tail
			for (size_t cut = r.st[s].size(); cut >= 1 && now() < g_shrink_end; cut /= 2) {
				if (cut > r.st[s].size()) continue;
				Rec q = r; q.st[s].resize(q.st[s].size() - cut);
				if (still_fails(q)) { r = trimmed(q); progress = true; cut = r.st[s].size() + 1; if (!r.st[s].size()) break; }
			}
			// delete and zero chunks
			for (size_t len = std::max<size_t>(r.st[s].size() / 2, 1); len >= 1; len /= 2) {
				for (size_t at = 0; at < r.st[s].size() && now() < g_shrink_end; ) {
					size_t e = std::min(at + len, r.st[s].size());
					Rec q = r; q.st[s].erase(q.st[s].begin() + at, q.st[s].begin() + e);
					if (still_fails(q)) { r = trimmed(q); progress = true; continue; }
					bool nz = false; for (size_t k = at; k < e; k++) nz |= r.st[s][k] != 0;
					if (nz) {
						q = r; for (size_t k = at; k < e; k++) q.st[s][k] = 0;
						if (still_fails(q)) { r = trimmed(q); progress = true; }
					}
					at = at + len;
				}
			}
			// smaller values (not for gaps: there a larger value means fewer preemptions)
			for (size_t k = 0; k < r.st[s].size() && now() < g_shrink_end; k++) {
				auto attempt = [&](uint32_t n) { Rec q = r; q.st[s][k] = n; if (!still_fails(q)) return false; r = trimmed(q); progress = true; return true; };
				if (!r.st[s][k] || attempt(0)) continue;
				uint32_t lo = 0;	// binary search for the smallest value that still fails
				while (k < r.st[s].size() && r.st[s][k] > lo + 1 && now() < g_shrink_end) { uint32_t n = lo + (r.st[s][k] - lo) / 2; if (!attempt(n)) lo = n; }
			}
		}
	}
	return r;
}

// ---------------------------------------------------------------- replay files
static void write_replay(const std::string &path, Prop *p, const Rec &r, const char *cls, const std::string &msg, uint64_t hash, uint64_t seed, uint64_t run, const std::string &trace)
{
	std::ofstream o(path);
	char h[40]; snprintf(h, sizeof h, "%016llx", (unsigned long long)hash);
	std::string m1 = msg; for (char &c : m1) if (c == '\n') c = ' ';
	o << "property " << p->id << "\nclass " << cls << "\nhash " << h << "\nseed " << seed << "\nrun " << run << "\nmessage " << m1 << "\n";
	static const char *nm[] = { "workload", "schedule", "faults", "time" };
	for (int s = 0; s < NSTREAM; s++) { o << "stream " << s << " " << r.st[s].size(); for (uint32_t v : r.st[s]) o << " " << v; o << "\n"; (void)nm; }
	o << "trace\n" << trace;
}
static bool read_replay(const char *path, std::string &cls, uint64_t &hash, Rec &r)
{
	std::ifstream in(path); std::string l; bool ok = false;
	while (std::getline(in, l)) {
		if (!l.compare(0, 6, "class ")) cls = l.substr(6);
		else if (!l.compare(0, 5, "hash ")) hash = strtoull(l.c_str() + 5, 0, 16);
		else if (!l.compare(0, 7, "stream ")) { std::istringstream is(l.substr(7)); int s; size_t n; is >> s >> n; r.st[s].resize(n); for (auto &v : r.st[s]) is >> v; ok = true; }
		else if (l == "trace") break;
	}
	return ok;
}

static std::string jstr(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
	return o + "\"";
}

// The program under test sets up its tables once, before the runs are forked from it, single-threaded and without faults.
// When it cannot even do that, no property holds of it; every replay starts the same way and so reports it again.
static const char *s_starting, *s_startdir = ".";
namespace sim {
void startup_failed(const char *why)
{
	if (!s_starting) return;
	g_core = 1;
	char path[400]; snprintf(path, sizeof path, "%s/%s-startup.replay", s_startdir, s_starting);
	Rec none; write_replay(path, g_p, none, "startup", why, 0, 0, 0, "");
	printf("property %s violated (startup): the program under test does not survive setting up its configuration and report tables: %s\n", s_starting, why);
	printf("VIOLATION property=%s replay=%s\n", s_starting, path);
	fflush(stdout); __real__exit(1);
}
}
static void startup_signal(int s) { startup_failed(s == SIGVTALRM ? "it does not end" : strsignal(s)); __real__exit(99); }
static void startup_signals(void (*h)(int))
{
	static char alt[1 << 16];	// a stack of its own: running out of stack is one of the ways to die
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = h; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM }) __real_sigaction(s, &sa, 0);
	itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = h == SIG_DFL ? 0 : 30; setitimer(ITIMER_VIRTUAL, &it, 0);	// of processor time; it takes milliseconds
}

int main(int argc, char **argv)
{
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_PERS")) {
		personality(ADDR_NO_RANDOMIZE);
		setenv("SIM_NO_PERS", "1", 1);
		execv("/proc/self/exe", argv);
	}
	g_core = 1;		// the runner itself uses the real heap
	const char *tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", *evid = 0, *repdir = ".", *known = 0, *replay = 0, *propid = 0;
	uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1, maxruns = 0; int64_t one = -1; int nw = 8; double wall = 0, shr = 45; bool trace = false, dump = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx(), 0, 10); else if (a == "--evidence") evid = nx(); else if (a == "--replays") repdir = nx();
		else if (a == "--known") known = nx(); else if (a == "--replay") replay = nx(); else if (a == "--runs") maxruns = strtoull(nx(), 0, 10); else if (a == "--workers") nw = atoi(nx());
		else if (a == "--wall") wall = atof(nx()); else if (a == "--one") one = atoll(nx()); else if (a == "--trace") trace = true; else if (a == "--hashes") dump = true; else if (a == "--prop") propid = nx(); else if (a == "--shrink") shr = atof(nx());
	}
	Prop *p = g_props; if (propid) while (p && strcmp(p->id, propid)) p = p->next;
	if (!p) die("no such property");
	bool quick = strcmp(tier, "thorough") != 0;
	if (!maxruns) maxruns = quick ? p->quick_runs : p->thorough_runs;
	if (!wall) wall = quick ? 14 : 540;
	if (known) load_known(known, p->id);
	map_g();
	vfs_init();
	g_p = p;
	if (g_zygote_init) {
		s_starting = p->id; s_startdir = repdir; g_core = 0;
		startup_signals(startup_signal);
		try { g_zygote_init(); } catch (...) { startup_failed("an exception"); }
		startup_signals(SIG_DFL);
		g_core = 1; s_starting = 0;
	}
	double t0 = now();

	if (replay) {
		std::string cls; uint64_t hash = 0; Rec r;
		if (!read_replay(replay, cls, hash, r)) die("unreadable replay file");
		load(r, true);
		one_run(p);
		if (trace) { fwrite(G->trace_buf, 1, G->trace_len, stdout); fflush(stdout); }
		bool same = G->status == 2 && cls == G->vclass && (hash == G->hash || cls == "hang");
		printf("replay: status=%s class=%s hash=%016llx expected class=%s hash=%016llx -> %s\n%s\n", G->status == 2 ? "violation" : "held", G->vclass, (unsigned long long)G->hash, cls.c_str(), (unsigned long long)hash, same ? "reproduced" : "DIFFERENT", G->vmsg);
		fflush(stdout);
		if (same) { printf("VIOLATION property=%s replay=%s\n", p->id, replay); fflush(stdout); __real__exit(1); }
		__real__exit(G->status == 2 ? 2 : 0);
	}
	if (one >= 0) {
		seed_streams(seed, p->id, one); G->trace = 1;
		one_run(p);
		if (trace) fwrite(G->trace_buf, 1, G->trace_len, stdout);
		printf("run %lld: status=%d class=%s msg=%s hash=%016llx steps=%llu memops=%llu sim=%.3fs streams=%u/%u/%u/%u\n", (long long)one, G->status, G->vclass, G->vmsg, (unsigned long long)G->hash, (unsigned long long)G->steps, (unsigned long long)G->memops, G->sim_us * 1e-6, G->st[0].len, G->st[1].len, G->st[2].len, G->st[3].len);
		for (int k = 0; k < G->ncnt; k++) printf("  %s %llu\n", G->cnt[k].name, (unsigned long long)G->cnt[k].n);
		fflush(stdout);
		__real__exit(0);
	}

	R = (WRes *)mmap(0, sizeof(WRes) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	stop_flag = (volatile int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	printf("%s: seed=%llu tier=%s runs<=%llu wall<=%.0fs workers=%d\n", p->id, (unsigned long long)seed, quick ? "quick" : "thorough", (unsigned long long)maxruns, wall, nw); fflush(stdout);
	std::vector<pid_t> ws;
	for (int i = 0; i < nw; i++) { pid_t c = fork(); if (c == 0) worker(p, i, nw, seed, maxruns, t0 + wall, dump); ws.push_back(c); }
	for (pid_t c : ws) { int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ; if (!WIFEXITED(st) || WEXITSTATUS(st)) die("a worker failed"); }
	double t1 = now();

	// aggregate
	uint64_t runs = 0, nontriv = 0, steps = 0, memops = 0, races = 0, kn = 0, digest = 0; double sim_s = 0;
	std::map<std::string, uint64_t> cnt; std::set<uint64_t> dist; WRes *v = 0;
	for (int i = 0; i < nw; i++) {
		WRes *r = &R[i];
		runs += r->runs; nontriv += r->nontriv; steps += r->steps; memops += r->memops; races += r->races; sim_s += r->sim_s; kn += r->known; digest ^= r->digest;
		for (int k = 0; k < r->ncnt; k++) cnt[r->cnt[k].name] += r->cnt[k].n;
		for (uint32_t k = 0; k < (1u << 20); k++) if (r->set[k]) dist.insert(r->set[k]);
		if (r->viol && (!v || r->vrun < v->vrun)) v = r;
	}
	int rc = 0; std::string rpath, vmsg, vcls;
	if (v) {
		Rec r; for (int s = 0; s < NSTREAM; s++) r.st[s].assign(v->vdata[s], v->vdata[s] + v->vlen[s]);
		g_cls = v->vclass;
		fprintf(stderr, "run %llu: %s: %s\n", (unsigned long long)v->vrun, v->vclass, v->vmsg);
		// gate 1: the recorded choices reproduce the violation exactly
		bool hangc = g_cls == "hang";
		for (int k = 0; k < 2; k++) {
			load(r, false); one_run(p);
			if (G->status != 2 || g_cls != G->vclass || (!hangc && G->hash != v->vhash)) { fprintf(stderr, "got status %d %s hash %016llx, expected %016llx\n", G->status, G->vclass, (unsigned long long)G->hash, (unsigned long long)v->vhash); die("violation did not replay"); }
		}
		g_shrink_end = now() + shr;
		size_t before = 0, after = 0; for (auto &x : r.st) before += x.size();
		Rec m = shrink(r);
		for (auto &x : m.st) after += x.size();
		uint64_t hh = 0;
		for (int k = 0; k < 2; k++) { load(m, true); one_run(p); if (G->status != 2 || (k && !hangc && hh != G->hash)) die("minimised violation did not replay"); hh = G->hash; }
		vmsg = G->vmsg; vcls = G->vclass;
		char b[400]; snprintf(b, sizeof b, "%s/%s-seed%llu-run%llu.replay", repdir, p->id, (unsigned long long)seed, (unsigned long long)v->vrun);
		rpath = b;
		write_replay(rpath, p, m, G->vclass, vmsg, hh, seed, v->vrun, std::string(G->trace_buf, G->trace_len));
		// gate 2: a fresh process reproduces it from the file
		pid_t c = fork();
		if (c == 0) {
			if (!freopen("/dev/null", "w", stdout)) __real__exit(3);
			unsetenv("SIM_NO_PERS");
			char *av[] = { argv[0], (char *)"--prop", (char *)p->id, (char *)"--replay", (char *)rpath.c_str(), 0 };
			execv("/proc/self/exe", av); __real__exit(3);
		}
		int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) die("replay in a fresh process did not reproduce the violation");
		fprintf(stderr, "minimised from %zu to %zu recorded choices in %d runs\n", before, after, g_tries);
		printf("property %s violated (%s): %s\n", p->id, vcls.c_str(), vmsg.c_str());
		printf("seed %llu run %llu; trace in the replay file; re-run with: bin/check %s --replay %s\n", (unsigned long long)seed, (unsigned long long)v->vrun, p->id, rpath.c_str());
		printf("VIOLATION property=%s replay=%s\n", p->id, rpath.c_str());
		rc = 1;
	}
	// sample runs for the evidence
	std::string samples; int ns = 0;
	for (uint64_t i = 0; i < 40 && ns < 3 && !v; i++) {
		seed_streams(seed, p->id, i); G->trace = 1; one_run(p);
		if (!G->nontrivial || G->status != 1) continue;
		std::string t(G->trace_buf, G->trace_len), ev; std::istringstream is(t); std::string l; int k = 0;
		while (std::getline(is, l) && k < 25) if (l.find("* ") != std::string::npos) { ev += (k ? "," : "") + jstr(l.substr(0, 160)); k++; }
		char b[300]; snprintf(b, sizeof b, "%s{\"run\":%llu,\"hash\":\"%016llx\",\"scheduling_points\":%llu,\"simulated_s\":%.3f,\"events\":[", ns ? "," : "", (unsigned long long)i, (unsigned long long)G->hash, (unsigned long long)G->steps, G->sim_us * 1e-6);
		samples += b + ev + "]}"; ns++;
	}
	for (auto &k : g_known) printf("%s\n", k.text.c_str());
	double t2 = now();
	printf("%s: %llu runs, %llu non-trivial, %zu distinct, %.1f simulated s, %llu scheduling points, digest %016llx, %.1f s\n", p->id, (unsigned long long)runs, (unsigned long long)nontriv, dist.size(), sim_s, (unsigned long long)steps, (unsigned long long)digest, t2 - t0);
	if (evid) {
		std::ofstream o(evid);
		std::string faults, ops, probes;
		for (auto &c : cnt) {
			std::string &d = !c.first.compare(0, 6, "fault.") ? faults : !c.first.compare(0, 3, "op.") ? ops : probes;
			d += (d.empty() ? "" : ",") + jstr(c.first) + ":" + std::to_string(c.second);
		}
		char b[1200];
		snprintf(b, sizeof b, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"exploration\",\"wall_s\":%.2f,\"violations\":%d,", p->id, quick ? "quick" : "thorough", (unsigned long long)seed, t2 - t0, v ? 1 : 0);
		o << b << "\"coverage\":{\"evaluations\":" << runs << ",\"distinct_nontrivial\":" << dist.size() << ",\"rule\":" << jstr(std::string(p->rule) + "; a run is non-trivial when its workload ran to the end and the scenario's final checks were reached; runs are distinct when the hashes of their full event sequences differ");
		snprintf(b, sizeof b, ",\"nontrivial_runs\":%llu,\"runs_per_hour\":%.0f,\"seeds\":\"every run has a seed of its own derived from VERIF_SEED and the run number\",\"simulated_seconds\":%.3f,\"scheduling_points\":%llu,\"instrumented_memory_accesses\":%llu,\"conflicting_unordered_accesses_seen\":%llu,\"digest_of_all_run_hashes\":\"%016llx\",", (unsigned long long)nontriv, runs * 3600.0 / (t1 - t0 + 1e-9), sim_s, (unsigned long long)steps, (unsigned long long)memops, (unsigned long long)races, (unsigned long long)digest);
		o << b << "\"faults_injected\":{" << faults << "},\"operations\":{" << ops << "},\"probes\":{" << probes << "},";
		o << "\"distinct_measure\":\"hash over the full sequence of scheduling decisions, synchronisation operations and recorded events of a run\",";
		o << "\"real_components\":" << jstr(p->real) << ",\"stub_components\":" << jstr(p->stub) << ",\"known_finding_hits\":" << kn << ",\"samples\":[" << samples << "]";
		if (v) o << ",\"violation\":{\"class\":" << jstr(vcls) << ",\"message\":" << jstr(vmsg) << ",\"replay\":" << jstr(rpath) << "}";
		o << "},\"assumptions\":[\"samples schedules and fault sequences; does not enumerate them\",\"scheduling is preemptive at synchronisation calls, simulated system calls and instrumented memory accesses; sequentially consistent memory\",\"the simulated pthread, clock, file, socket and disk stand-ins behave as POSIX and Linux document\"]}\n";
	}
	fflush(stdout);
	__real__exit(rc);
}
