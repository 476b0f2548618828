// C26: a registered signal runs all its handlers once, in order, leaves the post-mortem files asked for, and ends the process by that signal.
#include "common.h"
#include "UnixSignal.h"
#include <signal.h>
using namespace sim;

static const int sigs[] = { SIGTERM, SIGINT, SIGHUP, SIGUSR1, SIGSEGV, SIGABRT, SIGQUIT, SIGXFSZ, 34, 63, SIGBUS, SIGTRAP, SIGSYS, SIGXCPU, SIGFPE, SIGILL, SIGPIPE, SIGALRM, SIGUSR2, SIGVTALRM, SIGPROF, SIGIO, SIGPWR, SIGSTKFLT, 35, 64 };
enum { NSIG_ = sizeof sigs / sizeof *sigs, NH = 5 };
static bool is_core(int s) { return s == SIGQUIT || s == SIGILL || s == SIGABRT || s == SIGFPE || s == SIGSEGV || s == SIGBUS || s == SIGSYS || s == SIGTRAP || s == SIGXCPU || s == SIGXFSZ; }
struct Call { int h, sig; uint64_t seq; };
static std::vector<Call> calls;
struct Reg { int h, sig, fid; uint64_t beg, end; };
static std::vector<Reg> regs;
static int slow_h, harmless, again_reg, busy;		// busy: threads still registering
static void called(int h, int sig) { Harness x; calls.push_back(Call{ h, sig, seq() }); event("handler %d for signal %d", h, sig); if (h == slow_h) sim::sleep_us(500); }
static void h0(int s) { called(0, s); } static void h1(int s) { called(1, s); } static void h2(int s) { called(2, s); } static void h3(int s) { called(3, s); } static void h4(int s) { called(4, s); }
static sighandler_t hs[NH] = { h0, h1, h2, h3, h4 };

static void run()
{
	swarm_schedule(); swarm_clock_phase();
	capture_streams(true);
	calls.clear(); regs.clear(); slow_h = w(2 * NH);
	proc_private(&gSigVec, sizeof gSigVec);
	bool named = wp(2, 3), pid = wp(1, 2), save = wp(1, 2); bool setopts = wp(3, 4);
	int nthreads = 1 + w(3), nreg = 1 + w(5);
	busy = nthreads;
	static std::vector<int> th; th.clear(); static bool opts; opts = false;
	static const int mild[] = { SIGCHLD, SIGURG, SIGWINCH, SIGCONT }; harmless = wp(1, 6) ? mild[w(4)] : 0; again_reg = 0; if (harmless) { cfg.stall_mean = 0; if (cfg.tick_us > 20) cfg.tick_us = 20; }
	int used[4]; for (int &u : used) u = sigs[w(NSIG_)];
	auto body = [=](bool first) {
		if (first && harmless) SUTV(gSigVec.Register(h0, harmless));
		if (first && setopts) { if (named) SUTV(gSigVec.CoreName("/sim/core.app", pid)); SUTV(gSigVec.TarName("/sim/app.tgz", save)); opts = true; }
		int n = 1 + w(nreg);
		for (int j = 0; j < n; j++) {
			int k = w(12), s = k < 10 ? used[w(4)] : k == 10 ? 65 + w(3) : -(int)w(3);
			regs.push_back(Reg{ (int)w(NH), s, self(), seq(), ~0ULL }); size_t r = regs.size() - 1;
			sighandler_t f = hs[regs[r].h]; SUTV(gSigVec.Register(f, s)); regs[r].end = seq(); count("op.register");
			if (wp(1, 4)) {	// the listing names what is registered
				size_t from = console().size(); int s = used[w(4)]; unsigned sure = 0; for (auto &r : regs) sure += r.sig == s && r.end < seq();
				SUTV(gSigVec.Dump());
				std::string out = console().substr(from), head = "Signal vectors for signal " + std::to_string(s) + ": ";
				size_t b = out.find(head); unsigned named_ = 0, most = 0;
				if (b != std::string::npos) { size_t e = out.find('\n', b); for (size_t i = b; i < e && i != std::string::npos; i = out.find(", ", i + 1)) named_++; }
				for (auto &r : regs) most += r.sig == s;
				CHECK(nthreads > 1 || (named_ >= sure && named_ <= most), "listing", "the listing names %u of %u handlers of signal %d: %s", named_, sure, s, out.c_str()); count("op.list");
			}
			if (wp(1, 3)) sim::sleep_us(w(400));
		}
		busy--;
		for (;;) {		// the program's work
			sim::sleep_us(1000);
			if (first && again_reg == 1) { SUTV(gSigVec.Register(h1, harmless)); SUTV(gSigVec.Dump()); again_reg = 2; }
		}
	};
	th.push_back(spawn_proc("main", 1, [=]() { body(true); }));
	for (int i = 1; i < nthreads; i++) th.push_back(spawn_proc("thread", 1, [=]() { body(false); }));
	// another process with its own handlers is not concerned
	spawn_proc("other", 2, [=]() { SUTV(gSigVec.Register(hs[0], used[0])); for (;;) sim::sleep_us(1000); });
	sim::sleep_us(w(4) ? 4000 + w(2000) : w(2500));
	if (harmless) {		// one that does not end the process: its handlers run, nothing stays behind, others can be registered
		sim::sleep_us(20000); CHECK(!proc_state(1).ended, "survived", "the process ended by itself");
		for (int round = 1; round <= 2; round++) {
			post_signal(th[w(nthreads)], harmless); sim::sleep_us(100000);
			CHECK(!proc_state(1).ended, "wrong-end", "signal %d ended the process", harmless);
			unsigned n = 0, m = 0; for (auto &c : calls) if (c.sig == harmless) (c.h ? m : n)++;
			CHECK(n == (unsigned)round && m == (unsigned)round - 1, "not-run", "the handlers of signal %d ran %u and %u times after it was sent %d times", harmless, n, m, round);
			if (round == 2) break;
			again_reg = 1; sim::sleep_us(100000);
			CHECK(again_reg == 2, "stuck", "another handler for signal %d could not be registered", harmless);
		}
		count("op.harmless");
	}
	int s1 = w(8) ? used[w(4)] : sigs[w(NSIG_)], s2 = w(3) ? 0 : used[w(4)]; if (s2 == s1) s2 = 0;
	uint64_t sent = seq(); bool had_opts = opts;
	post_signal(th[w(nthreads)], s1);
	if (s2) { if (wp(1, 2)) sim::sleep_us(w(30)); post_signal(th[w(nthreads)], s2); }
	// the same one again, once its handling has begun
	bool again = wp(1, 3);
	for (int j = 0; j < 3000 && !proc_state(1).ended; j++) {
		sim::sleep_us(100);
		if (again && !busy && !proc_state(1).ended) for (auto &c : calls) if (c.sig == s1) { again = false; post_signal(th[w(nthreads)], s1); break; }
	}
	CHECK(proc_state(1).ended, "survived", "the process lives on after signal %d", s1);
	int died = proc_state(1).status;
	CHECK(proc_state(1).by_signal && (died == s1 || (s2 && died == s2)), "wrong-end", "sent signal %d, but the process ended with %s %d", s1, proc_state(1).by_signal ? "signal" : "status", died);
	CHECK(!proc_state(2).ended, "wrong-process", "another process ended");
	// every handler registered in time ran once, in the order of registration; those being registered may have
	for (int s : { s1, s2 }) {
		if (!s) continue;
		bool must = s == died; std::vector<int> ran;
		for (auto &c : calls) if (c.sig == s) ran.push_back(c.h);
		std::vector<Reg> in; for (auto &r : regs) if (r.sig == s) in.push_back(r);
		size_t sure = 0; for (auto &r : in) sure += r.end < sent;
		if (must) CHECK(ran.size() >= sure, "not-run", "%zu of %zu handlers ran for signal %d", ran.size(), sure, s);
		if (sure < in.size()) continue;		// somebody registers while it is handled: the handlers may run anew
		CHECK(ran.size() <= in.size(), "ran-twice", "%zu handlers ran for signal %d, %zu are registered", ran.size(), s, in.size());
		// is there an order of registration, allowed by their times, that explains it?
		std::vector<bool> usedr(in.size(), false); std::vector<size_t> order;
		for (int h : ran) { size_t k = in.size(); for (size_t i = 0; i < in.size(); i++) if (!usedr[i] && in[i].h == h) { k = i; break; } CHECK(k < in.size(), "ran-twice", "handler %d ran more often than registered for signal %d", h, s); usedr[k] = true; order.push_back(k); }
		bool dup = false; for (size_t i = 0; i < in.size(); i++) for (size_t j = 0; j < i; j++) dup |= in[i].h == in[j].h;
		if (!dup) for (size_t i = 0; i < order.size(); i++) for (size_t j = 0; j < i; j++) CHECK(in[order[j]].beg < in[order[i]].end, "wrong-order", "the handlers of signal %d ran out of order", s);
		count("probe.handlers", ran.size());
	}
	for (auto &c : calls) CHECK(c.sig == s1 || c.sig == s2 || c.sig == harmless, "wrong-signal", "a handler ran for signal %d", c.sig);
	// post-mortem files, for the signals that leave a core and were registered
	unsigned cores = 0, tars = 0;
	for (auto &a : proc_acts()) {
		if (a.proc != 1) { CHECK(a.kind == 'S', "wrong-process", "another process acts"); continue; }
		if (a.kind == 'c') { cores++; if (had_opts) { std::string want = !named ? "core" : pid ? "/sim/core.app.1001" : "/sim/core.app"; CHECK(a.text == want, "core-name", "the core file is called %s instead of %s", a.text.c_str(), want.c_str()); } }
		if (a.kind == 's') {	// what is saved is of this process, and is gathered where no other one does
			// made, filled with what describes the system and the process, packed and removed, in that order
			size_t at = 0; std::string dir;
			for (const char *step : { "mkdir ", "/proc/cpuinfo", "/proc/1001/", "tar --create", "rm -rf " }) { size_t n = a.text.find(step, at); CHECK(n != std::string::npos, "tar", "the files are saved without \"%s\": %.400s", step, a.text.c_str()); at = n + 1; if (dir.empty()) dir = a.text.substr(n + 6, a.text.find_first_of(" ;", n + 6) - n - 6); }
			while (dir.size() && dir[dir.size() - 1] == '/') dir.erase(dir.size() - 1);
			CHECK(a.text.rfind("rm -rf " + dir) > a.text.find("mkdir "), "tar", "%s is left behind: %.400s", dir.c_str(), a.text.c_str());
			CHECK(a.text.find("/proc/1001/") != std::string::npos, "tar", "the files of another process are saved: %.300s", a.text.c_str());
			for (size_t i = a.text.find("rm -rf "); i != std::string::npos; i = a.text.find("rm -rf ", i + 1)) { std::string d = a.text.substr(i + 7, a.text.find_first_of(" ;", i + 7) - i - 7); CHECK(d.find("1001") != std::string::npos && d.size() > 6, "tar", "something that other processes may use is deleted: %s", d.c_str()); }
		}
		if (a.kind == 's') { tars++; CHECK(!had_opts || (save && a.text.find("/sim/app.tgz") != std::string::npos), "tar", "the process files are not saved as asked"); }
		if (a.kind == 'k') CHECK(a.sig == s1 || a.sig == s2 || a.sig == harmless, "wrong-signal", "the process sent itself signal %d", a.sig);
	}
	bool reg1 = false, maybe = false; for (auto &r : regs) { if (r.sig == died) { maybe = true; if (r.end < sent) reg1 = true; } }
	if (!s2) {
		bool late = false; for (auto &r : regs) late |= r.sig == died && r.end >= sent;
		if (reg1 && is_core(died)) CHECK(late ? cores >= 1 : cores == 1, "core", "%u core files were written for signal %d", cores, died);
		if (!is_core(died) || !maybe) CHECK(!cores && !tars, "core", "signal %d left a core file", died);
		if (had_opts && reg1 && !late && is_core(died)) CHECK(tars == (save ? 1u : 0u), "tar", "the process files were saved %u times", tars);
	}
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C26", "Signal handlers", run,
	"seeded run: a process of 1-3 threads registers handlers, also for impossible signals, and is then sent one or two signals at a random moment to a random thread, once more while handling; all handlers in place must run once in order, core and archive be written as configured, and the process end by that signal, no other process concerned",
	"UnixSignal, Threads, Logger", "signal delivery and disposition, kill, core dumper, system(), pthread, scheduler, clock, heap", 40000, 2000000);
