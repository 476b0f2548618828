// C22: the alarm list stays within its limit and always holds the most recent alarms.
#include "common.h"
using namespace sim;

struct A { int fib; std::string tag; uint64_t beg, end; };
static std::vector<A> as;
static int maxv;			// the limit in force; -1 while it is being changed
static int lo_max, hi_max;	// limits that may be in force now
static bool trouble;

static int tag_of(const std::string &t) { size_t a = t.find("<<"); return a == std::string::npos ? -1 : atoi(t.c_str() + a + 2); }
static void alarm_now(const char *extra)
{
	size_t k = as.size(); std::string t = "<<" + std::to_string(k) + ":" + extra + ">>";
	as.push_back(A{ self(), t, seq(), ~0ULL });
	{ Sut s; switch (w(3)) { case 0: LOG(CRIT) << t; break; case 1: LOG(ALERT) << t; break; default: LOG(EMERG) << t; } }
	as[k].end = seq(); count("op.alarm");
}
static std::vector<int> listed(bool complete)
{
	std::vector<int> v; std::list<std::string> l = SUT(gGetLoggerAlarms());
	for (auto &t : l) {
		int k = tag_of(t);
		if (k < 0) { v.push_back(-1); continue; }
		CHECK(k < (int)as.size() && t.size() >= as[k].tag.size() && t.substr(t.size() - as[k].tag.size()) == as[k].tag, "torn-alarm", "the list holds part of an alarm: %.200s", t.c_str());
		v.push_back(k);
	}
	return v;
}
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	capture_streams(true);
	as.clear(); trouble = wp(1, 4);
	static ConfigurationTable *onDisk;
	if (trouble) { SUTV(new (&gConfig) ConfigurationTable("/sim/cfg.db", "sim", sim_schema())); }
	lo_max = hi_max = maxv = 20;
	auto set_max = [=](int m) {
		lo_max = std::min(lo_max, m); hi_max = std::max(hi_max, m); maxv = -1;
		bool r = SUT(gConfig.set("Log.Alarms.Max", m)); CHECK(r || trouble, "set-failed", "the limit could not be changed");
		if (r) maxv = m;
	};
	if (wp(3, 4)) { set_max(w(6)); if (maxv >= 0) lo_max = hi_max = maxv; }
	int base = maxv;
	bool change = wp(1, 2), threads_alarm = true;
	int nt = 1 + w(4);
	if (trouble) { DiskFaults d; memset(&d, 0, sizeof d); d.mean = 2 + draw(F, 30); d.burst = draw(F, 8); uint32_t k = 1 + draw(F, 63); d.read = k & 1; d.write = k & 2; d.sync = k & 4; d.full = k & 8; d.open = k & 16; d.lock = k & 32; disk_faults(d); }
	for (int i = 0; i < nt; i++) spawn("alarmer", [=]() {
		int per = 1 + w(8);
		for (int j = 0; j < per; j++) {
			alarm_now(w(3) ? "x" : "100% %s\n and \"more\"");
			if (wp(1, 3)) sim::sleep_us(w(500));
			if (trouble && wp(1, 2)) { cfg_get(&gConfig, wp(1, 2) ? "Sim.Defaulted" : "No.Such.Key"); SUTV(gConfig.purge()); }
			if (wp(1, 4)) { bool d = SUT(gConfig.defines("Log.Level.Nowhere.cpp")); (void)d; }
		}
	});
	spawn("reader", [=]() {
		for (int j = 0; j < 4; j++) {
			uint64_t b = seq(); int top = hi_max;
			std::vector<int> v = listed(false);
			top = std::max(top, hi_max);
			CHECK((int)v.size() <= std::max(top, 20 * (int)trouble), "too-many", "the list holds %zu alarms, the limit is %d", v.size(), top);
			int last[64]; memset(last, -1, sizeof last);
			for (int k : v) if (k >= 0) { CHECK(as[k].beg <= seq(), "future", "an alarm from the future"); int &l = last[as[k].fib & 63]; CHECK(k > l, "order", "one thread's alarms are listed out of order or twice"); l = k; }
			(void)b; sim::sleep_us(w(400)); count("probe.list");
		}
	});
	if (change) spawn("operator", [=]() { for (int j = 0; j < 3; j++) { set_max(w(8)); sim::sleep_us(w(800)); } });
	join_all();
	disk_faults_off();
	if (change || trouble) {
		for (int t = 0; t < 3; t++) { int m = w(6); bool r = SUT(gConfig.set("Log.Alarms.Max", m)); if (r) { maxv = m; break; } }
		CHECK(maxv >= 0, "set-failed", "the limit could not be set although nothing is wrong");
	}
	// the final list: the newest alarms, as many as the limit allows, each thread's without a gap
	if (change || trouble) for (int j = 0, n = 1 + w(9); j < n; j++) alarm_now("late");
	std::vector<int> v = listed(true);
	int own = 0; for (int k : v) own += k >= 0;
	CHECK((int)v.size() <= maxv, "too-many", "the list holds %zu alarms, the limit is %d", v.size(), maxv);
	if (!change && !trouble) CHECK(v.size() == std::min((size_t)maxv, as.size()), "lost-alarm", "the list holds %zu of %zu alarms, the limit is %d", v.size(), as.size(), maxv);
	// whoever dropped out must have begun before everything listed had ended
	std::vector<bool> in(as.size(), false); for (int k : v) if (k >= 0) { CHECK(!in[k], "duplicated", "an alarm is listed twice"); in[k] = true; }
	for (size_t a = 0; a < as.size(); a++) if (!in[a]) for (size_t b = 0; b < as.size(); b++) if (in[b]) CHECK(as[a].beg < as[b].end, "not-latest", "alarm %zu is gone while the older alarm %zu is listed", a, b);
	for (size_t i = 1; i < v.size(); i++) if (v[i] >= 0) for (size_t j = 0; j < i; j++) if (v[j] >= 0) CHECK(as[v[j]].beg < as[v[i]].end, "order", "alarm %d is listed before the older alarm %d", v[j], v[i]);
	if (maxv > 0) { size_t n = as.size(); alarm_now("last"); v = listed(true); CHECK(v.size() && v.back() == (int)n, "lost-alarm", "the newest alarm is not the last of the list"); }
	CHECK((int)v.size() <= maxv, "too-many", "the list holds %zu alarms, the limit is %d", v.size(), maxv);
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C22", "Alarm list", run,
	"seeded run: 1-4 threads raise alarms while a reader copies the list and an operator changes its limit, one run in four with a failing configuration disk; the list never exceeds a limit in force, holds whole alarms once each in their threads' order, and at the end exactly the most recent ones",
	"Logger, ConfigurationTable, sqlite3", "pthread, scheduler, clock, syslog, disk with injected errors, standard streams, heap", 18000, 1500000);
