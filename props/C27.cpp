// C27: one instance at a time; the pid file is there while it runs and gone, with the registered files, when it has ended.
#include "common.h"
#include "UnixSignal.h"
#include "SelfDetect.h"
#include "Exit.h"
#include <signal.h>
using namespace sim;

enum { NP = 7 };
struct P { const char *argv0, *file; bool registered, ending, started; int kills, sent; bool cleans; std::vector<std::string> files; int fid; };
static P ps[NP + 1]; static int np;
// the two programs: names of their own, or long ones that differ at the end only
static const char *F1, *F2;
static const char *names[][5] = {
	{ "OpenBTS", "/usr/local/bin/OpenBTS", "./OpenBTS", "/var/run/OpenBTS.pid", 0 }, { "./sipauthserve", 0, 0, "/var/run/sipauthserve.pid", 0 },
	{ "openbts-umts-transceiver-single-board-a", "/opt/range/bin/openbts-umts-transceiver-single-board-a", "../bin/openbts-umts-transceiver-single-board-a", "/var/run/openbts-umts-transceiver-single-board-a.pid", 0 }, { "./openbts-umts-transceiver-single-board-b", 0, 0, "/var/run/openbts-umts-transceiver-single-board-b.pid", 0 } };
// every signal that ends a program and can be caught
static const int fatal[] = { SIGTERM, SIGINT, SIGHUP, SIGSEGV, SIGABRT, SIGPIPE, SIGUSR1, SIGALRM, 34, 63, SIGQUIT, SIGILL, SIGTRAP, SIGBUS, SIGFPE, SIGUSR2, SIGSTKFLT, SIGXCPU, SIGXFSZ, SIGVTALRM, SIGPROF, SIGIO, SIGPWR, SIGSYS, 35, 50, 64 };
enum { NFATAL = sizeof fatal / sizeof *fatal };
static const int harmless[] = { SIGCHLD, SIGCONT, SIGWINCH, SIGURG, SIGTSTP };
static bool opentrouble, everopen, writetrouble; static int nkilled;

static std::string pid_of(int p) { return std::to_string(1000 + p); }
static bool holds(int p) { std::string c = fs_read(ps[p].file); return fs_exists(ps[p].file) && atoi(c.c_str()) == 1000 + p; }
static void still_there(int p, const char *when)
{
	if (ps[p].ending) return;
	CHECK(fs_exists(ps[p].file), "file-gone", "the pid file of a running program is gone %s", when);
	if (!writetrouble) CHECK(holds(p), "wrong-pid", "the pid file of a running program contains '%s' %s", fs_read(ps[p].file).c_str(), when);
	for (auto &f : ps[p].files) CHECK(fs_exists(f.c_str()), "file-gone", "a registered file of a running program is gone %s", when);
	for (int q = 1; q <= np; q++) CHECK(q == p || !ps[q].registered || ps[q].ending || proc_state(q).ended || ps[q].file != ps[p].file, "two-instances", "two instances run at once %s", when);
}
static int launch(const char *argv0, const char *file, int delay, int how, int work)
{
	int p = ++np; ps[p] = P(); ps[p].argv0 = argv0; ps[p].file = file;
	ps[p].fid = spawn_proc("prog", p, [=]() {
		if (delay) sim::sleep_us(delay);
		ps[p].started = true;
		SUTV(gSelf.RegisterProgram(argv0));
		ps[p].registered = true; count("op.registered");
		still_there(p, "as it starts");
		int nf = w(3);
		if (wp(1, 4)) {		// by two threads at once
			int h[2], done = 0; int *dn = new int(0);
			for (int k = 0; k < 2; k++) h[k] = spawn("helper", [=]() { for (int i = 0; i < 2; i++) { std::string f = "/sim/run/" + std::to_string(p) + "." + std::to_string(10 + 2 * k + i); fs_put(f.c_str(), "x"); SUTV(gSelf.RegisterFile(f.c_str())); if (!ps[p].ending) ps[p].files.push_back(f); } ++*dn; });
			(void)h; (void)done; while (*dn < 2) sim::sleep_us(200);
			count("op.register_by_threads");
		}
		for (int i = 0; i < nf; i++) {
			if (wp(1, 4)) { SUTV(gSelf.RegisterFile("/sim/run/not yet made")); count("op.register_missing"); }	// a program that ends before it made the file
			std::string f = "/sim/run/" + std::to_string(p) + "." + std::to_string(i); fs_put(f.c_str(), "x"); SUTV(gSelf.RegisterFile(f.c_str())); if (!ps[p].ending) ps[p].files.push_back(f);
		}
		for (int i = 0; i < work; i++) { sim::sleep_us(100 + w(400)); still_there(p, "as it works"); }
		if (how == 0) { if (!ps[p].sent) { ps[p].ending = ps[p].cleans = true; ps[p].sent = -1; SUTV(::exit(0)); } }
		if (how == 1) { if (!ps[p].sent) { ps[p].ending = ps[p].cleans = true; ps[p].sent = -1; SUTV(Exit::exit(Exit::SUCCESS)); } }
		for (;;) { sim::sleep_us(1000); still_there(p, "as it idles"); }
	});
	return p;
}
static void send(int p, int sig)
{
	if (proc_state(p).ended || ps[p].sent) return;		// one end is enough
	ps[p].sent = sig; ps[p].ending = true;
	ps[p].cleans = sig != SIGKILL && sim_signal_handler(p, sig) != SIG_DFL && sim_signal_handler(p, sig) != SIG_IGN;
	if (sig == SIGKILL) nkilled++;
	count(sig == SIGKILL ? "fault.sigkill_sent" : "fault.fatal_signal");
	post_signal(ps[p].fid, sig);
}
static void settle()		// until everybody has ended or runs untroubled; what still moves after a long time is stuck
{
	for (int i = 0; i < 400; i++) {
		sim::sleep_us(50000);
		bool done = true;
		for (int p = 1; p <= np; p++) if (!proc_state(p).ended && (!ps[p].registered || ps[p].ending)) done = false;
		if (done) return;
	}
}
static bool trace_left(const char *file) { return fs_exists(file); }
static void ended_check(int p)
{
	CHECK(proc_state(p).ended, "survived", "process %d lives on after signal %d", p, ps[p].sent);
	if (ps[p].sent > 0 && ps[p].cleans) CHECK(proc_state(p).by_signal && proc_state(p).status == ps[p].sent, "wrong-end", "sent signal %d, ended by %s %d", ps[p].sent, proc_state(p).by_signal ? "signal" : "status", proc_state(p).status);
	if (!ps[p].sent) {		// it ended of itself: refused
		CHECK(!ps[p].registered, "wrong-end", "a registered program ended of itself");
		int st = proc_state(p).status;
		CHECK(!proc_state(p).by_signal && (st == Exit::DETECTFILE || (everopen && st == Exit::CREATEFILE)), "wrong-status", "a refused program ended with %s %d", proc_state(p).by_signal ? "signal" : "status", st);
		bool other = false; for (int q = 1; q <= np; q++) if (q != p && ps[q].file == ps[p].file && (ps[q].registered || ps[q].sent)) other = true;
		CHECK(st != Exit::DETECTFILE || other, "wrong-status", "a program that could not create its pid file ended with the status of one that found another instance");
		CHECK(!holds(p), "stale-file", "a refused program left its pid file");
		count("op.refused");
	}
	if (ps[p].cleans) {
		CHECK(!holds(p), "stale-file", "a program ended by %s left its pid file", ps[p].sent > 0 ? strsignal(ps[p].sent) : "exit");
		for (auto &f : ps[p].files) CHECK(!fs_exists(f.c_str()), "stale-file", "a program ended by %s left a registered file", ps[p].sent > 0 ? strsignal(ps[p].sent) : "exit");
	}
}
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	capture_streams(true);
	np = 0; nkilled = 0;
	proc_private(&gSigVec, sizeof gSigVec); proc_private(&gSelf, sizeof gSelf);
	opentrouble = everopen = wp(1, 8); writetrouble = wp(1, 8);
	if (opentrouble) g_fsf.open_mean = 1 + draw(F, 4);
	if (writetrouble) g_fsf.write_mean = 1 + draw(F, 4);
	int lng = wp(1, 3) ? 2 : 0; F1 = names[lng][3]; F2 = names[lng + 1][3];
	const char *a1 = names[lng][w(2)], *a1b = names[lng][2], *a2 = names[lng + 1][0];
	int n = 2 + w(3); bool together = wp(1, 2);
	for (int i = 0; i < n; i++) { bool second = wp(1, 5); launch(second ? a2 : wp(1, 4) ? a1b : a1, second ? F2 : F1, together ? 0 : w(3000), w(4), w(8)); }
	// the operator: harmless signals, then one end for whoever is still there
	int nact = w(6);
	for (int j = 0; j < nact; j++) {
		sim::sleep_us(wp(1, 2) ? w(300) : w(4000));
		int p = 1 + w(np);
		if (!ps[p].started || proc_state(p).ended) continue;
		if (wp(1, 2)) { if (ps[p].registered && !ps[p].sent) { post_signal(ps[p].fid, harmless[w(5)]); count("fault.harmless_signal"); } }
		else send(p, wp(1, 6) ? SIGKILL : fatal[wp(1, 2) ? w(10) : w(NFATAL)]);
	}
	settle();
	int live[2] = { 0, 0 };
	for (int p = 1; p <= np; p++) if (!proc_state(p).ended && !ps[p].sent) { CHECK(ps[p].registered, "stuck", "a starting program neither runs nor ends"); live[ps[p].file == F2]++; still_there(p, "at the end"); }
	CHECK(live[0] <= 1 && live[1] <= 1, "two-instances", "%d and %d instances run at once", live[0], live[1]);
	for (int p = 1; p <= np; p++) if (proc_state(p).ended) ended_check(p);
	// without faults or kills somebody of each program got in
	if (together && !opentrouble) for (int k = 0; k < 2; k++) { bool wanted = false, got = false, sent = false; for (int p = 1; p <= np; p++) if ((ps[p].file == F2) == k) { wanted = true; got |= ps[p].registered; sent |= ps[p].sent != 0; } if (wanted && !sent) CHECK(got, "nobody-runs", "of all instances started together none runs"); }
	// end the rest
	for (int p = 1; p <= np; p++) if (!proc_state(p).ended && !ps[p].sent) send(p, wp(1, 8) ? SIGKILL : fatal[wp(1, 2) ? w(10) : w(NFATAL)]);
	settle();
	memset(&g_fsf, 0, sizeof g_fsf); opentrouble = writetrouble = false;
	for (int p = 1; p <= np; p++) ended_check(p);
	bool anybad = false; for (int p = 1; p <= np; p++) anybad |= ps[p].sent > 0 && !ps[p].cleans;
	if (!anybad) CHECK(!trace_left(F1) && !trace_left(F2), "stale-file", "a pid file is left although every program ended properly");
	for (int p = 1; p <= np; p++) for (auto &f : ps[p].files) unlink(f.c_str());		// what kills left
	// and a new one starts; if a kill left the file, only after it is deleted
	bool stale = trace_left(F1);
	int p = launch(a1, F1, 0, 3, 1);
	settle();
	if (stale) {
		CHECK(proc_state(p).ended && proc_state(p).status == Exit::DETECTFILE && !ps[p].registered, "two-instances", "a program started although the pid file was there");
		CHECK(trace_left(F1), "file-gone", "a refused program removed the pid file");
		unlink(F1); count("probe.stale_refused");
		p = launch(a1, F1, 0, 3, 1); settle();
	}
	CHECK(ps[p].registered && !proc_state(p).ended, "cannot-start", "nothing runs, yet a program cannot start");
	still_there(p, "at the restart");
	int s = fatal[wp(1, 2) ? w(10) : w(NFATAL)]; send(p, s); settle(); ended_check(p);
	CHECK(!trace_left(F1), "stale-file", "a pid file is left although the program ended properly");
	nontrivial();
}
static void zinit() { zygote_config(); Sut s; gConfig.set("Core.File", "core"); gConfig.set("Core.Pid", "0"); gConfig.set("Core.TarFile", "/sim/x.tgz"); gConfig.set("Core.SaveFiles", "0"); }
static int zy = (g_zygote_init = zinit, 0);
static Prop p("C27", "Single instance", run,
	"seeded run: 2-4 simulated processes of one or two programs register at the same or different times, work, and end by exit, signal or kill at random moments, with harmless signals and file errors in between; never do two instances of a program run, the pid file follows the running one, and everything registered is gone after a proper end",
	"SelfDetect, UnixSignal, Exit, Logger, ConfigurationTable", "processes, signals, file system, kill, exit and atexit, scheduler, clock, heap", 18000, 2000000);
