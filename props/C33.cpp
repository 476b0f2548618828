// C33: time stamps name the moment they were made, in the right zone, and sleeps last as long as asked.
#define LOG_GROUP LogGroup::GSM
#include "reports.h"
#include "Logger.h"
#include "Utils.h"
#include "Timeval.h"
#include <time.h>
using namespace sim;

static const char *PATH = "/sim/time.log";
static const char *zones[] = { "UTC0", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NPT-5:45", "XXX12", "YYY-14", "ACST-9:30ACDT,M10.1.0,M4.1.0/3" };
struct Stamp { std::string tag; const char *func; int lvl; int fid, tid; int64_t a, b; bool ok; unsigned line; };
static std::vector<Stamp> logged, couted, watched;
static uint64_t steps;			// steps of the wall clock so far: what was going on then is not judged
static bool jumps, together, watching;	// the watch macros do not keep lines apart, nor from critical messages: then only one thread writes on the console

static std::string full(int64_t us, bool date)
{
	time_t t = us / 1000000; struct tm m; localtime_r(&t, &m); char b[80];
	if (date) snprintf(b, sizeof b, " %04d-%02d-%02dT%02d:%02d:%02d.%d", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec, (int)(us % 1000000 / 100000));
	else snprintf(b, sizeof b, " %02d:%02d:%02d.%d", m.tm_hour, m.tm_min, m.tm_sec, (int)(us % 1000000 / 100000));
	return b;
}
static std::string last(const std::string &s, unsigned w) { return w >= s.size() ? s : s.substr(s.size() - w); }
// is this the stamp of a moment between a and b?
static bool between(const std::string &s, int64_t a, int64_t b, unsigned width, bool date)
{
	for (int64_t x = a / 100000; x <= b / 100000; x++) if (last(full(x * 100000, date), width) == s) return true;
	return false;
}
static std::string iso(int64_t t, bool local)
{
	time_t k = t; struct tm m; if (local) localtime_r(&k, &m); else gmtime_r(&k, &m); char b[80];
	snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d%s", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec, local ? "" : "Z");
	return b;
}
// instants where many digits change at once
static int64_t edge()
{
	static const int64_t days[] = { 1388534400, 1393632000, 1456704000, 1325376000, 1341100800, 1396137600 + 3600, 1414285200 + 3600, 1394348400 , 1414908000, 1582934400, 946684800, 1735689600, 2147483648LL, 4102444800LL };
	int64_t t = wp(1, 3) ? 1300000000 + (int64_t)w(400000000) : days[w(sizeof days / sizeof *days)];
	switch (w(4)) { case 0: t -= t % 3600; break; case 1: t -= t % 60; break; case 2: t -= t % 60 ; t += 60 * w(60); break; default: break; }
	return t;
}
static void log_here(int lvl, const std::string &t, Stamp &s)
{
	s.func = __FUNCTION__; Sut u;
	switch (lvl) {
		case 2: s.line = __LINE__; LOG(CRIT) << t; break;
		case 3: s.line = __LINE__; LOG(ERR) << t; break;
		case 4: s.line = __LINE__; LOG(WARNING) << t; break;
		case 5: s.line = __LINE__; LOG(NOTICE) << t; break;
		default: s.line = __LINE__; LOG(INFO) << t; break;
	}
}
static void log_there(int lvl, const std::string &t, Stamp &s) { s.func = __FUNCTION__; s.line = __LINE__; SUTV(LOG(ERR) << t); }
// just before the next tenth, second or minute of the wall clock
static void align()
{
	static const int64_t unit[] = { 100000, 1000000, 1000000, 60000000 };
	int64_t u = together ? 1000000 : unit[w(jumps ? 3 : 4)], left = u - wall_us() % u - (int64_t)w(together ? 4 : 40) * cfg.tick_us;
	if (left > 0 && left < 70000000) sim::sleep_us(left);
}
struct Row { std::string name; int kind; int64_t a, b, ca, cb; bool ok, any, late; };
static Row rows[6]; static int nrows; static int64_t lastcommit;

static void ops(int t, int per, bool rep)
{
	for (int j = 0; j < per; j++) {
		if (together || wp(1, 2)) align();
		if (jumps && wp(1, 6)) { if (wp(1, 2)) jump_wall(((int64_t)w(20000) - 10000) * 1000); else set_wall((edge() * 1000000) - (int64_t)w(50)); steps++; count("fault.wall_step"); }
		uint64_t n = steps; int64_t a, b; int op = together ? (wp(3, 4) ? w(3) : 5) : w(rep ? 13 : 11);
		switch (op) {
			case 0: case 1: {
				unsigned width = wp(1, 2) ? 100 : w(26); bool date = wp(1, 2);
				a = wall_us(); std::string s = SUT(Utils::timestr(width, date)); b = wall_us();
				if (n == steps) CHECK(between(s, a, b, width, date), "wrong-stamp", "a time stamp of width %u made between %s and %s reads '%s'", width, full(a, true).c_str(), full(b, true).c_str(), s.c_str());
				count("op.timestr"); break;
			}
			case 2: {
				a = wall_us(); std::string s = SUT(Utils::timestr()); b = wall_us();
				if (n == steps) CHECK(between(s, a, b, 12, false), "wrong-stamp", "a time stamp made between %s and %s reads '%s'", full(a, true).c_str(), full(b, true).c_str(), s.c_str());
				count("op.timestr"); break;
			}
			case 3: case 4: {
				int64_t x = edge() - (int64_t)w(3) + 1; bool local = wp(1, 2); if (wp(1, 8)) x = (int64_t)w(2000000000) * 4; if (wp(1, 12)) x = -(int64_t)w(2000000000);
				std::string s;
				if (wp(1, 2)) s = SUT(Timeval::isoTime((time_t)x, local)); else { s = "before"; SUTV(Timeval::isoTime((time_t)x, s, local)); }
				CHECK(s == iso(x, local), "wrong-date", "second %lld is written as '%s', it is '%s'", (long long)x, s.c_str(), iso(x, local).c_str());
				count("op.isotime"); break;
			}
			case 5: case 6: {
				Stamp s; char tag[40]; snprintf(tag, sizeof tag, "<<%d.%d>>", t, j); s.tag = tag; s.lvl = 2 + w(5); s.fid = self(); s.tid = syscall(SYS_gettid);
				bool here = wp(2, 3); if (!here || (s.lvl == 2 && (!watching || t))) s.lvl = 3;
				s.a = wall_us(); if (here) log_here(s.lvl, s.tag, s); else log_there(s.lvl, s.tag, s); s.b = wall_us(); s.ok = n == steps; logged.push_back(s); count("op.log"); break;
			}
			case 7: {
				double d; switch (w(6)) { case 0: d = 0; break; case 1: d = -(double)w(100) / 7; break; case 2: d = w(3000) * 1e-6; break; case 3: d = w(1000) / 100.0; break; case 4: d = 1 + w(60); break; default: d = 4000 + w(9000) + w(1000) / 1000.0; }
				int64_t m0 = mono_us(); SUTV(sleepf(d)); int64_t el = mono_us() - m0;
				CHECK(el + 11 >= (int64_t)(d * 1e6), "short-sleep", "a sleep of %f s lasted %lld us", d, (long long)el);
				CHECK(el <= (d > 0 ? (int64_t)(d * 1e6) : 0) + 500000, "long-sleep", "a sleep of %f s lasted %lld us", d, (long long)el);
				count("op.sleepf"); break;
			}
			case 8: {
				long ms = wp(1, 6) ? 4000000 + (long)w(2000000) : w(5000); int64_t m0 = mono_us(); SUTV(msleep(ms)); int64_t el = mono_us() - m0;
				CHECK(el >= ms * 1000, "short-sleep", "a sleep of %ld ms lasted %lld us", ms, (long long)el);
				CHECK(el <= ms * 1000 + 500000, "long-sleep", "a sleep of %ld ms lasted %lld us", ms, (long long)el);
				count("op.msleep"); break;
			}
			case 9: {
				a = wall_us(); double d = SUT(Utils::timef()); b = wall_us();
				if (n == steps) CHECK(d * 1e6 >= a - 2 && d * 1e6 <= b + 2, "wrong-stamp", "the time between %lld and %lld us is given as %f", (long long)a, (long long)b, d);
				count("op.timef"); break;
			}
			case 10: {
				Stamp s; char tag[40]; snprintf(tag, sizeof tag, "((%d.%d))", t, j); s.tag = tag; s.fid = self(); bool watch = watching; if (watching && t) break;
				s.a = wall_us();
				if (watch) SUTV(WATCHLEVEL(ERR, tag)); else SUTV(COUT(tag));
				s.b = wall_us(); s.ok = n == steps; (watch ? watched : couted).push_back(s); count(watch ? "op.watch" : "op.cout"); break;
			}
			case 11: case 12: {	// the times kept with a counter: only this thread touches its rows
				int i = t * 2 + w(2); if (i >= nrows) break; Row &r = rows[i]; a = wall_us();
				if (i & 1) { unsigned v = w(100); bool ok = SUT(gReports.max(r.name.c_str(), v)); CHECK(ok, "max-failed", "a tracker could not be updated"); }
				else if (wp(1, 3)) { bool ok = SUT(gReports.commit()); CHECK(ok, "commit-failed", "a commit failed"); break; }
				else { bool ok = SUT(gReports.incr(r.name.c_str())); CHECK(ok, "incr-failed", "an increment was refused"); }
				b = wall_us(); r.a = a; r.b = b; r.any = r.late = true; r.ok = n == steps; count("op.report"); break;
			}
		}
	}
}
static void run()
{
	swarm_schedule(); cfg.stall_mean = 0; if (cfg.tick_us > 20) cfg.tick_us = 20; cfg.late_us = 0;
	setenv("TZ", zones[w(sizeof zones / sizeof *zones)], 1); tzset();
	set_wall(edge() * 1000000 - (int64_t)w(3000000)); together = wp(1, 3); jumps = !together && wp(1, 3); watching = wp(1, 2); bool rep = wp(1, 3) && !jumps;
	capture_streams(true); steps = 0; logged.clear(); couted.clear(); watched.clear(); nrows = 0;
	bool file = wp(1, 2); int64_t a = wall_us();
	if (file && wp(1, 2)) { static char pb[64]; strcpy(pb, PATH); SUTV(gLogInit("sim", "INFO", LOG_LOCAL7)); SUTV(gLogInitWithFile("sim", "INFO", LOG_LOCAL7, pb)); }
	else { if (file) { Sut s; gConfig.set("Log.File", PATH); strcpy(gCmdName, "OpenSim"); } SUTV(gLogInit("sim", "INFO", LOG_LOCAL7)); }
	int64_t b = wall_us();
	if (file) {
		std::string f = fs_read(PATH); bool ok = false;
		for (int64_t s = a / 1000000; s <= b / 1000000; s++) ok |= f.compare(0, std::string::npos, "Starting at " + iso(s, true) + "\n") == 0;
		CHECK(ok, "wrong-start", "the log file opened between %s and %s begins: %.100s", full(a, true).c_str(), full(b, true).c_str(), f.c_str());
		count("op.log_file");
	}
	{ bool r = SUT(gConfig.set("Log.Watch.GSM", "INFO")); CHECK(r, "set-failed", "a level could not be set"); }
	for (int i = 0; i < 1100; i++) { (void)SUT(gGetLoggingLevel(__FILE__)); }
	SUTV(gLogGroup.setAll());
	size_t s0 = syslog_recs().size();
	int nt = 1 + w(3), per = 2 + w(8); sqlite3 *db = 0;
	if (rep) {
		reports_open(); db = rep_reader(); nrows = nt * 2;
		for (int i = 0; i < nrows; i++) {
			Row &r = rows[i]; r = Row(); r.name = "row" + std::to_string(i); r.ca = wall_us(); bool ok = SUT(gReports.create(r.name.c_str())); r.cb = wall_us(); CHECK(ok, "create-failed", "a parameter could not be created");
			if (wp(1, 3)) { align(); ok = SUT(gReports.create(r.name.c_str())); CHECK(ok, "create-failed", "a parameter could not be created again"); }	// changes nothing
			if (wp(1, 3)) { align(); r.ca = wall_us(); ok = SUT(gReports.clear(r.name.c_str())); r.cb = wall_us(); CHECK(ok, "clear-failed", "a parameter could not be cleared"); }
		}
		if (wp(1, 3)) {		// in use for a while, then the clock is set, then cleared
			bool ok = true;
			for (int i = 0; i < nrows; i++) if (wp(1, 2)) {
				Row &r = rows[i]; r.a = wall_us();
				ok = i & 1 ? SUT(gReports.max(r.name.c_str(), 7)) : SUT(gReports.incr(r.name.c_str())); r.b = wall_us(); r.any = r.ok = true; CHECK(ok, "update-failed", "a counter could not be updated");
			}
			ok = SUT(gReports.commit()); CHECK(ok, "commit-failed", "a commit failed");
			sim::sleep_us(21000000); for (int i = 0; i < nrows; i += 2) rows[i].b = wall_us();	// what the periodic writer had begun ends too
			switch (w(3)) { case 0: jump_wall(-(int64_t)w(200000000) * 1000000); break; case 1: jump_wall((int64_t)w(100000) * 1000000); break; default: break; }
			count("fault.clock_set_between");
			bool all = wp(1, 2); int64_t ca = wall_us(), cb;
			if (all) { ok = SUT(gReports.clear()); cb = wall_us(); CHECK(ok, "clear-failed", "the parameters could not be cleared"); }
			for (int i = 0; i < nrows; i++) if (all || wp(1, 2)) {
				Row &r = rows[i]; if (!all) { ca = wall_us(); ok = SUT(gReports.clear(r.name.c_str())); cb = wall_us(); CHECK(ok, "clear-failed", "a parameter could not be cleared"); }
				r.ca = ca; r.cb = cb; r.any = false;
			}
			if (wp(1, 2)) sim::sleep_us(1500000);
			for (int i = 0; i < nrows; i++) if (wp(1, 3)) { ok = SUT(gReports.create(rows[i].name.c_str())); CHECK(ok, "create-failed", "a parameter could not be created again"); }
			count(all ? "op.clear_all" : "op.clear_some");
		}
	}
	for (int t = 0; t < nt; t++) spawn("stamper", [=]() { ops(t, per, rep); });
	join_all();
	for (Stamp &s : logged) {
		const std::string *m = 0; int n = 0;
		for (size_t i = s0; i < syslog_recs().size(); i++) if (syslog_recs()[i].text.find(s.tag) != std::string::npos) { m = &syslog_recs()[i].text; n++; }
		CHECK(n == 1, "not-logged", "a message was logged %d times", n);
		static const char *lname[] = { "EMERG", "ALERT", "CRIT", "ERR", "WARNING", "NOTICE", "INFO", "DEBUG" };
		char head[80], tail[200]; snprintf(head, sizeof head, "%s %d:%d", lname[s.lvl], (int)getpid(), s.tid); snprintf(tail, sizeof tail, " %s:%u:%s: %s", __FILE__, s.line, s.func, s.tag.c_str());
		size_t hl = strlen(head), tl = strlen(tail);
		CHECK(m->size() > hl + tl && m->compare(0, hl, head) == 0, "wrong-origin", "a message of thread %d begins: %.120s", s.tid, m->c_str());
		CHECK(m->compare(m->size() - tl, tl, tail) == 0, "wrong-place", "a message logged at %s:%u in %s reads: %.200s", __FILE__, s.line, s.func, m->c_str());
		std::string st = m->substr(hl, m->size() - hl - tl);
		if (s.ok) CHECK(between(st, s.a, s.b, 100, true), "wrong-stamp", "a message logged between %s and %s is stamped '%s'", full(s.a, true).c_str(), full(s.b, true).c_str(), st.c_str());
	}
	const std::string &con = console();
	for (Stamp &s : couted) {
		size_t p = con.find(s.tag); CHECK(p != std::string::npos, "not-shown", "a line is not on the console");
		size_t q = con.rfind('\n', p); q = q == std::string::npos ? 0 : q + 1;
		double d = atof(con.c_str() + q);
		if (s.ok) CHECK(d * 1e6 >= s.a - 20 && d * 1e6 <= s.b + 20, "wrong-stamp", "a line printed between %lld and %lld us is stamped %.20s", (long long)s.a, (long long)s.b, con.c_str() + q);
	}
	for (Stamp &s : watched) {
		size_t p = con.find(s.tag); CHECK(p != std::string::npos && p >= 8, "not-shown", "a watched line is not on the console");
		std::string st = con.substr(p - 8, 7);
		if (s.ok) CHECK(between(st, s.a, s.b, 7, false) && con[p - 1] == ' ', "wrong-stamp", "a line watched between %s and %s is stamped '%s'", full(s.a, true).c_str(), full(s.b, true).c_str(), st.c_str());
	}
	if (rep) {
		bool ok = SUT(gReports.commit()); CHECK(ok, "commit-failed", "a commit failed");
		int64_t end = 0;
		sim::sleep_us(21000000);	// what the periodic writer had begun ends too
		ok = SUT(gReports.commit()); CHECK(ok, "commit-failed", "a commit failed"); end = wall_us();
		for (int i = 0; i < nrows; i++) {
			Row &r = rows[i]; int64_t u = rep_value(db, r.name, "UPDATETIME"), c = rep_value(db, r.name, "CLEAREDTIME");
			CHECK(c >= r.ca / 1000000 && c <= r.cb / 1000000, "wrong-cleared-time", "a counter cleared between %lld and %lld us carries the time %lld", (long long)r.ca, (long long)r.cb, (long long)c);
			if (!r.any) CHECK(u == 0, "wrong-update-time", "a counter never updated carries the time %lld", (long long)u);
			else CHECK(u >= r.a / 1000000 && u <= (i & 1 || !r.late ? r.b : end) / 1000000, "wrong-update-time", "a counter updated last between %lld and %lld us carries the time %lld", (long long)r.a, (long long)(i & 1 || !r.late ? r.b : end), (long long)u);
		}
	}
	if (nt > 1) nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C33", "Time stamps", run,
	"seeded run: 1-3 threads make time stamps of every form, log, print, watch, sleep and update counters, aimed at the last microseconds before a tenth, second, minute, year, leap day or clock change in eight time zones, with clock steps in one run of three; every stamp must name a moment between the begin and the end of the call that made it",
	"Utils::timestr, timef, sleepf, msleep, Timeval::isoTime, LOG, COUT, WATCHLEVEL, log file header, ReportingTable times, SQLite", "clock, time zone setting, syslog, console, files, scheduler", 64000, 1600000);
