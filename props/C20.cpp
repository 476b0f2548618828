// C20: the batch committer keeps its period, recovers when the disk does, and ends when told to.
#include "reports.h"
using namespace sim;

enum { NC = 3 };
static const char *cname[] = { "calls.started", "calls.failed", "peer's \"x\"" };
static int64_t started[NC], finished[NC], shutdown_at;
static bool stopping;
static const int64_t PERIOD = 10000000, SLACK = 4000000;

// the database fails while the table of reports is opened: reporting goes on without it, or with it, and the writer still ends when told
static void bad_start()
{
	DiskFaults d; memset(&d, 0, sizeof d); d.mean = 1 + draw(F, 3); d.burst = draw(F, 2) ? 1000 : draw(F, 20); uint32_t k = 1 + draw(F, 63);
	d.read = k & 1; d.write = k & 2; d.sync = k & 4; d.full = k & 8; d.open = k & 16; d.lock = k & 32; disk_faults(d);
	reports_open();
	disk_faults_off();
	static sqlite3 *db; db = rep_reader();
	static bool made[NC]; static int64_t sum[NC];
	for (int i = 0; i < NC; i++) {
		made[i] = SUT(gReports.create(cname[i])); int64_t v = rep_value(db, cname[i]); sum[i] = 0;
		CHECK(made[i] == (v == 0), "wrong-report", "creating a parameter reported %s, its value is %lld", made[i] ? "success" : "failure", (long long)v);
		count(made[i] ? "op.bad_start_works" : "op.bad_start_without");
	}
	int nt = 1 + w(3);
	for (int t = 0; t < nt; t++) spawn("reporter", [=]() {
		for (int j = 1 + w(8); j--;) {
			int c = w(NC);
			switch (w(8)) {
				case 0: { bool r = SUT(gReports.commit()); (void)r; break; }
				case 1: { bool r = SUT(gReports.create(cname[c])); CHECK(r == made[c], "wrong-report", "creating a parameter again reported %s", r ? "success" : "failure"); break; }
				case 2: { bool r = SUT(gReports.max(cname[c], 0)); CHECK(r == made[c], "wrong-report", "raising a value reported %s", r ? "success" : "failure"); break; }
				default: SUTV(gReports.incr(cname[c])); sum[c]++; count("op.incr");
			}
			if (wp(1, 4)) sim::sleep_us(w(12000000));
		}
	});
	sim::sleep_us(2 * PERIOD + 100000000 + SLACK);		// at most 8 * 12 s and a period
	for (int c = 0; c < NC; c++) { int64_t v = rep_value(db, cname[c]); if (made[c]) CHECK(v == sum[c], "lost-increment", "a period after the last increment a counter shows %lld instead of %lld", (long long)v, (long long)sum[c]); }
	SUTV(gReports.reportShutdown()); int64_t at = mono_us();
	join_threads();
	CHECK(mono_us() - at <= PERIOD + SLACK, "late-shutdown", "the committer ended only %.1f s after it was told to", (mono_us() - at) / 1e6);
	join_all();
	nontrivial();
}
static void run()
{
	swarm_schedule(); swarm_clock_phase({ 10000 });
	cfg.stall_mean = 0;					// upper time bounds are asserted
	if (wp(1, 10)) { bad_start(); return; }
	int mode = w(4);					// 0: immediate shutdown, 1: plain, 2: with disk trouble first, 3: slow disk
	reports_open();
	if (mode == 0 && wp(1, 2)) SUTV(gReports.reportShutdown());	// perhaps before the thread ran at all
	static sqlite3 *db; db = rep_reader();
	for (int i = 0; i < NC; i++) { bool r = SUT(gReports.create(cname[i])); CHECK(r, "create-failed", "a parameter could not be created"); }
	if (mode == 2) {
		DiskFaults d; memset(&d, 0, sizeof d); d.mean = 1 + draw(F, 20); d.burst = draw(F, 40); uint32_t k = 1 + draw(F, 63);
		d.read = k & 1; d.write = k & 2; d.sync = k & 4; d.full = k & 8; d.open = k & 16; d.lock = k & 32; disk_faults(d);
	}
	if (mode == 3) { DiskFaults d; memset(&d, 0, sizeof d); d.slow_us = draw(F, 200000); disk_faults(d); }
	int rounds = mode == 0 ? 0 : 1 + w(3);
	for (int rd = 0; rd < rounds; rd++) {
		int nt = 1 + w(3);
		std::vector<int> fs;
		for (int i = 0; i < nt; i++) fs.push_back(spawn("reporter", [=]() {
			int per = 1 + w(6);
			for (int j = 0; j < per; j++) {
				int c = w(NC); started[c]++; SUTV(gReports.incr(cname[c])); finished[c]++; count("op.incr");
				int64_t must = finished[c], at = mono_us();
				if (wp(1, 2)) sim::sleep_us(w(wp(1, 2) ? 9000000 : 5000));
				if (mode != 2 && wp(1, 3)) {		// no trouble: visible after one period, nobody having asked for a commit
					int64_t until = at + PERIOD + SLACK;
					if (until > mono_us()) sim::sleep_us(until - mono_us());
					int64_t v = rep_value(db, cname[c]);
					CHECK(v >= must, "late-commit", "an increment is not in the database %.1f s later: %lld instead of %lld", (mono_us() - at) / 1e6, (long long)v, (long long)must);
					CHECK(v <= started[c], "over-count", "a counter shows %lld after %lld increments", (long long)v, (long long)started[c]);
					count("probe.period");
				}
			}
		}));
		for (int f : fs) sim::join(f);
		if (mode == 2) {
			sim::sleep_us(w(25000000));			// some periods pass while the disk refuses
			int64_t fired = disk_faults_fired(); disk_faults_off();
			sim::sleep_us(2 * PERIOD + SLACK);	// one that may be under way, and one more
			for (int c = 0; c < NC; c++) { int64_t v = rep_value(db, cname[c]); CHECK(v == finished[c], v < finished[c] ? "not-recovered" : "doubled-increment", "two periods after the disk recovered (%lld faults) a counter shows %lld of %lld", (long long)fired, (long long)v, (long long)finished[c]); }
			count("probe.recovered");
			if (rd + 1 < rounds && wp(1, 2)) { DiskFaults d; memset(&d, 0, sizeof d); d.mean = 1 + draw(F, 20); d.burst = draw(F, 40); d.write = d.sync = d.lock = true; disk_faults(d); }
		}
	}
	disk_faults_off();
	if (wp(1, 2)) sim::sleep_us(w(12000000));
	// what was counted well before the end is in the database when the thread has ended
	int64_t must[NC]; bool settled = wp(1, 2);
	memcpy(must, finished, sizeof must);
	if (settled && mode != 0) sim::sleep_us(PERIOD + SLACK);
	SUTV(gReports.reportShutdown()); stopping = true; shutdown_at = mono_us();
	join_threads();
	CHECK(mono_us() - shutdown_at <= PERIOD + SLACK, "late-shutdown", "the committer ended only %.1f s after it was told to", (mono_us() - shutdown_at) / 1e6);
	if (settled && mode != 0) for (int c = 0; c < NC; c++) { int64_t v = rep_value(db, cname[c]); CHECK(v == must[c], "lost-increment", "after shutdown a counter shows %lld instead of %lld", (long long)v, (long long)must[c]); }
	// and nothing writes any more
	int64_t f0 = rep_value(db, cname[0]);
	SUTV(gReports.incr(cname[0]));
	sim::sleep_us(2 * PERIOD);
	int64_t f1 = rep_value(db, cname[0]); CHECK(f1 == f0, "commit-after-end", "the committer had ended, yet a counter moved from %lld to %lld", (long long)f0, (long long)f1);
	bool r = SUT(gReports.commit()); CHECK(r, "commit-failed", "an explicit commit failed after shutdown");
	f1 = rep_value(db, cname[0]); CHECK(f1 == finished[0] + 1, "wrong-count", "a counter shows %lld instead of %lld", (long long)f1, (long long)finished[0] + 1);
	join_all();
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C20", "Committer liveness", run,
	"seeded run: 1-3 threads count at random moments without ever committing; each sampled increment must be in the database within one ten second period, everything must be there two periods after disk errors stop, and the committer must end within a period of the shutdown request, also when that comes before it first ran",
	"ReportingTable, batch committer thread, sqlite3util, sqlite3", "pthread, scheduler, clock, sleep, disk below sqlite with injected errors and delays, heap", 18000, 1000000);
