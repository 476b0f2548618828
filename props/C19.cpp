// C19: what a commit acknowledged survives crashes, nothing is counted that was not reported.
#include "reports.h"
using namespace sim;

enum { NC = 3, NP = 4 };
static const char *cname[] = { "calls.started", "it's \"quoted\" %s; --", "slot.2" };
// per phase and counter; shared between incarnations
struct SH {
	int64_t started[NP][NC], finished[NP][NC];	// increments invoked / returned
	int64_t sure[NP][NC];						// acknowledged by the final commit of the phase
	int64_t seen[NC];							// read back from the database by another connection
	int64_t mstarted, msure;					// tracker: invoked / acknowledged
	bool created, failed[NP], wal;				// some commit failed in that phase; durability is by the write-ahead log
};
static SH *sh;

static void run()
{
	swarm_schedule(); swarm_clock_phase({ 10000 });
	sh = shared<SH>();
	bool faults = wp(1, 3);
	int phases = 1 + w(3);
	for (int ph = 0; ph < phases; ph++) {
		bool power = wp(1, 2); int nt = 1 + w(3), per = 2 + w(6); unsigned mean = 20 + w(600); bool clean = wp(1, 4);
		int e = phase([=]() {
			if (!clean && ph) arm_crash(mean, power);		// the first incarnation creates the table
			reports_open();
			for (int i = 0; i < NC - 1; i++) { bool r = SUT(gReports.create(cname[i])); CHECK(r, "create-failed", "a parameter could not be created"); }
			bool ok = SUT(gReports.create("slot", 1, 2)); CHECK(ok, "create-failed", "an indexed parameter could not be created");
			ok = SUT(gReports.create("peak")); CHECK(ok, "create-failed", "a parameter could not be created");
			sh->created = true;
			if (!clean && !ph) arm_crash(mean, power);
			if (faults) { DiskFaults d; memset(&d, 0, sizeof d); d.mean = 5 + draw(F, 60); d.burst = draw(F, 10); uint32_t k = 1 + draw(F, 63); d.read = k & 1; d.write = k & 2; d.sync = k & 4; d.full = k & 8; d.open = k & 16; d.lock = k & 32; disk_faults(d); }
			static sqlite3 *db; db = rep_reader();
			// what a killed process left unacknowledged may be visible without being durable; what this one adds is durable
			static int64_t base[NC]; for (int c = 0; c < NC; c++) base[c] = rep_value(db, cname[c]);
			static int64_t mbase; mbase = rep_value(db, "peak"); if (mbase < 0) mbase = 1 << 30;
			std::vector<int> fs;
			for (int i = 0; i < nt; i++) fs.push_back(spawn("reporter", [=]() {
				for (int j = 0; j < per; j++) switch (w(8)) {
					case 0: case 1: case 2: { int c = w(NC); sh->started[ph][c]++; if (c == 2) SUTV(gReports.incr("slot", 2)); else SUTV(gReports.incr(cname[c])); sh->finished[ph][c]++; count("op.incr"); break; }
					case 3: case 4: {
						bool r = SUT(gReports.commit());
						for (int c = 0; c < NC; c++) { int64_t v = rep_value(db, cname[c]); if (base[c] >= 0 && v > base[c] && v > sh->seen[c]) sh->seen[c] = v; }	// what is visible is committed
						if (!r) { CHECK(faults, "commit-failed", "a commit failed although the disk did not"); sh->failed[ph] = true; }
						count(r ? "op.commit" : "op.commit_failed"); break;
					}
					case 5: case 6: { int64_t v = w(10000); if (v > sh->mstarted) sh->mstarted = v; bool r = SUT(gReports.max("peak", v)); if (r && v > mbase && v > sh->msure) sh->msure = v; count("op.max"); break; }
					case 7: sim::sleep_us(wp(1, 2) ? w(12000000) : w(10000)); break;
				}
			}));
			for (int f : fs) sim::join(f);
			if (!wp(1, 3)) {		// quiet: all of it is acknowledged
				disk_faults_off();
				SUTV(gReports.reportShutdown()); join_threads();
				join_all();
				bool r = SUT(gReports.commit());
				CHECK(r, "commit-failed", "a commit fails although the disk is fine");
				for (int c = 0; c < NC; c++) sh->sure[ph][c] = sh->finished[ph][c];
				count("op.full_commit");
			}
			if (!clean) crash(power);
		});
		count(e == PH_POWER ? "fault.power_failure" : e == PH_CRASH ? "fault.process_crash" : "op.clean_restart");
	}
	phase([=]() {
		reports_open();
		sqlite3 *db = rep_reader();
		for (int c = 0; c < NC; c++) {
			int64_t v = rep_value(db, cname[c]), lo = 0, hi = 0; bool amb = false;
			for (int ph = 0; ph < phases; ph++) { lo += sh->sure[ph][c]; hi += sh->started[ph][c]; amb |= sh->failed[ph]; }
			if (!sh->created) break;
			CHECK(v != -1, "lost-parameter", "a created parameter is gone");
			CHECK(v >= lo, "lost-committed", "counter %d shows %lld, but %lld increments were committed", c, (long long)v, (long long)lo);
			CHECK(v >= sh->seen[c], "lost-committed", "counter %d shows %lld, but %lld was read before the crash", c, (long long)v, (long long)sh->seen[c]);
			// a write that failed may still reach the disk when the log survives the crash
			if (!amb && !faults) CHECK(v <= hi, "over-count", "counter %d shows %lld after %lld increments", c, (long long)v, (long long)hi);
		}
		if (sh->created) {
			int64_t v = rep_value(db, "peak");
			CHECK(v >= sh->msure && v <= sh->mstarted, "wrong-max", "the tracker shows %lld, acknowledged %lld, reported %lld", (long long)v, (long long)sh->msure, (long long)sh->mstarted);
		}
		// and counting goes on
		bool r = SUT(gReports.create("calls.started")); CHECK(r, "create-failed", "a parameter could not be created after the crash");
		int64_t b = rep_value(db, "calls.started");
		SUTV(gReports.incr("calls.started"));
		r = SUT(gReports.commit()); CHECK(r, "commit-failed", "a commit fails after the crash");
		for (int j = 0; j < 8 && rep_value(db, "calls.started") == b; j++) sim::sleep_us(11000000);	// the committer may have it in hand
		int64_t v = rep_value(db, "calls.started"); CHECK(v == b + 1, "wrong-count", "after the crash an increment took the counter from %lld to %lld", (long long)b, (long long)v);
		SUTV(gReports.reportShutdown()); join_threads();
		join_all();
	});
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C19", "Report durability", run,
	"seeded run: up to three incarnations count, track and commit with the real committer thread; each ends in a process crash or power failure at a random I/O or scheduling point, or cleanly, one run in three with disk errors besides; then committed increments must be there, unreported ones must not, and counting must go on",
	"ReportingTable, batch committer thread, sqlite3util, sqlite3 in write-ahead mode and its recovery", "pthread, scheduler, clock, disk and crash below sqlite with injected errors, heap", 10000, 600000);
