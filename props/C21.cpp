// C21: every enabled log message reaches every configured sink exactly once, whole, and in its thread's order.
#include "common.h"
using namespace sim;

extern FILE *gLogToFile;
static const char *lname[] = { "EMERG", "ALERT", "CRIT", "ERR", "WARNING", "NOTICE", "INFO", "DEBUG" };
struct M { int fib, prio; std::string text; bool enabled; uint64_t beg, end; bool early; };
static std::vector<M> ms;
static const char *PATH = "/sim/app.log";
static bool tofile, tocons; static int level;

static int occurrences(const std::string &hay, const std::string &needle) { int n = 0; for (size_t p = hay.find(needle); p != std::string::npos; p = hay.find(needle, p + needle.size())) n++; return n; }
// the ways a message is put together
#define PUT(L) switch (how) { case 0: LOG(L) << t; break; case 1: LOG(L) << t.c_str(); break; case 2: LOG(L) << format("%s", t.c_str()); break; case 3: LOG(L) << format("%s", t); break; case 4: LOG(L) << t.substr(0, t.size() / 2) << t.substr(t.size() / 2); break; default: LOG(L) << std::hex << 255 << std::dec << t; } break;
static void emit(int prio, const std::string &t, int how)
{
	Sut s;
	switch (prio) {
		case 0: PUT(EMERG) case 1: PUT(ALERT) case 2: PUT(CRIT) case 3: PUT(ERR)
		case 4: PUT(WARNING) case 5: PUT(NOTICE) case 6: PUT(INFO) default: PUT(DEBUG)
	}
}
static std::string trimmed(const std::string &t) { return t.size() && t[t.size() - 1] == '\n' ? t.substr(0, t.size() - 1) : t; }
// alarms are shown twice where they are echoed and shown
static void lines_whole(const std::string &out, const char *what, bool all, int alarms)
{
	// every line of the sink is one message of ours (or not ours at all), and all of it
	size_t p = 0; std::vector<int> lastof(64, -1); std::vector<int> seen(ms.size(), 0);
	while (p < out.size()) {
		size_t e = out.find('\n', p);
		CHECK(e != std::string::npos, "torn-line", "%s ends in the middle of a line", what);
		std::string l = out.substr(p, e - p); p = e + 1;
		CHECK(l.size(), "blank-line", "%s has an empty line that nobody logged", what);
		size_t a = l.find("<<"); if (a == std::string::npos) continue;
		CHECK(l.find("<<", a + 2) == std::string::npos, "mixed-line", "%s has two messages on one line: %.200s", what, l.c_str());
		unsigned k = atoi(l.c_str() + a + 2);
		CHECK(k < ms.size() && l.substr(a) == trimmed(ms[k].text), "torn-line", "%s has a line with part of a message: %.200s", what, l.c_str());
		CHECK(ms[k].enabled, "disabled-shown", "%s shows a message below the level in force", what);
		CHECK(l.compare(0, strlen(lname[ms[k].prio]), lname[ms[k].prio]) == 0 && l[strlen(lname[ms[k].prio])] == ' ', "wrong-level", "%s shows a %s message as: %.60s", what, lname[ms[k].prio], l.c_str());
		CHECK(all || ms[k].prio <= 2, "unasked", "%s shows a message that is not an alarm", what);
		CHECK(++seen[k] <= (ms[k].prio > 2 ? 1 : alarms), "duplicated", "%s shows a message twice", what);
		int &lo = lastof[ms[k].fib & 63]; CHECK((int)k > lo || (alarms == 2 && (int)k == lo), "order", "%s shows the messages of one thread out of order", what); lo = k;
	}
	for (size_t k = 0; k < ms.size(); k++) if (ms[k].enabled) CHECK(seen[k] == (ms[k].prio > 2 ? all : alarms), "lost", "%s does not show message %zu", what, k);
}
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	capture_streams(true);
	tofile = wp(2, 3); tocons = wp(1, 2); level = 3 + w(5); bool crits = wp(1, 2);
	if (tofile && wp(1, 2)) { static char pb[64]; strcpy(pb, PATH); SUTV(gLogInitWithFile("sim", lname[level], LOG_LOCAL7, pb)); }
	else if (tofile) { { Sut s; gConfig.set("Log.File", PATH); strcpy(gCmdName, "OpenSim"); } SUTV(gLogInit("sim", lname[level], LOG_LOCAL7)); }
	else SUTV(gLogInit("sim", lname[level], LOG_LOCAL7));
	CHECK(!tofile || fs_exists(PATH), "no-log-file", "the log file was not created");
	bool again = wp(1, 4);		// set up once more: nothing is opened anew, and nothing written so far is lost
	gLogToConsole = tocons;
	// names of the level in force are cached for a while
	for (int i = 0; i < 1100 && SUT(gGetLoggingLevel(__FILE__)) != level; i++) ;
	CHECK(SUT(gGetLoggingLevel(__FILE__)) == level, "level-ignored", "the level in force is %d, not %d", SUT(gGetLoggingLevel(__FILE__)), level);
	console().clear(); ms.clear(); size_t s0 = syslog_recs().size();
	int nt = 1 + w(4);
	for (int i = 0; i < nt; i++) spawn("logger", [=]() {
		int per = 1 + w(8);
		for (int j = 0; j < per; j++) {
			int prio = crits ? w(8) : 3 + w(5);
			size_t k = ms.size();
			std::string t = "<<" + std::to_string(k) + ":";
			int how = w(6);
			if (how == 2 || how == 3) { int n = wp(1, 2) ? 190 + w(15) : w(4900); for (int q = t.size() + 2; q < n; q++) t += 'a' + q % 26; }	// format() has a buffer of 200
			else switch (w(6)) { case 0: t += "plain"; break; case 1: t += "100% %s %n %d"; break; case 2: t += std::string(w(3000), 'x'); break; case 3: t += "tab\tand \"quotes\" 'n' \\"; break; case 4: t += std::string(8192, 'y'); break; case 5: break; }
			t += ">>"; if (wp(1, 4)) t += "\n";
			if (wp(1, 8)) {		// a message before everything is set up goes to the system log only, whatever the level
				ms.push_back(M{ self(), prio, t, false, seq(), ~0ULL, true });
				SUTV(gLogEarly(prio, "%s", t.c_str())); ms[k].end = seq(); count("op.log_early"); continue;
			}
			ms.push_back(M{ self(), prio, t, prio <= level, seq(), ~0ULL, false });
			emit(prio, t, how);
			ms[k].end = seq(); count("op.log");
			if (prio > level) continue;
			// it is there when the statement ends, and exactly once
			if (tofile) { std::string f = fs_read(PATH); int n = occurrences(f, trimmed(t) + "\n"); CHECK(n == 1, n ? "duplicated" : "lost", "the log file holds a message %d times when the statement ends", n); }
			if (wp(1, 3)) sim::sleep_us(w(200));
		}
	});
	join_all();
	if (again) { SUTV(gLogInit("sim", lname[level], LOG_LOCAL7)); if (tofile && wp(1, 2)) { static char pb2[64]; strcpy(pb2, PATH); SUTV(gLogInitWithFile("sim", lname[level], LOG_LOCAL7, pb2)); } count("op.init_again"); }
	// the system log: one record each, with its priority, text and order
	std::vector<int> lastof(64, -1); std::vector<int> seen(ms.size(), 0);
	auto &sr = syslog_recs();
	for (size_t i = s0; i < sr.size(); i++) {
		size_t a = sr[i].text.find("<<"); if (a == std::string::npos) continue;
		unsigned k = atoi(sr[i].text.c_str() + a + 2);
		CHECK(k < ms.size() && sr[i].text.substr(a) == ms[k].text, "torn-record", "the system log got part of a message: %.200s", sr[i].text.c_str());
		CHECK(ms[k].enabled || ms[k].early, "disabled-shown", "the system log got a message below the level in force");
		CHECK((sr[i].prio & 7) == ms[k].prio && (ms[k].early ? a == 0 : !strncmp(sr[i].text.c_str(), lname[ms[k].prio], strlen(lname[ms[k].prio]))), "wrong-level", "a %s message was logged with priority %d as %.60s", lname[ms[k].prio], sr[i].prio, sr[i].text.c_str());
		CHECK(sr[i].seq > ms[k].beg && sr[i].seq <= ms[k].end, "late", "a message was logged outside its statement");
		CHECK(!seen[k]++, "duplicated", "the system log got a message twice");
		int &lo = lastof[ms[k].fib & 63]; CHECK((int)k > lo, "order", "the system log has the messages of one thread out of order"); lo = k;
	}
	for (size_t k = 0; k < ms.size(); k++) if (ms[k].enabled || ms[k].early) CHECK(seen[k], "lost", "message %zu did not reach the system log", k);
	if (tofile) lines_whole(fs_read(PATH), "the log file", true, 1);
	lines_whole(console(), "the console", tocons, 1 + tocons);
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C21", "Log delivery", run,
	"seeded run: 1-4 threads log messages of every level, up to 8 KB, with format directives, quotes and trailing newlines, to the system log and randomly to file and console; each enabled message must be in every sink exactly once, whole, on its own line, with its level, in its thread's order, and in the file when the statement ends",
	"Logger, Utils, Threads, ConfigurationTable", "pthread, scheduler, clock, syslog, file, standard streams, heap", 18000, 1000000);
