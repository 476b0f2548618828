// C18: counters lose and double no increment, trackers keep the maximum, however many threads report.
#include "reports.h"
using namespace sim;

enum { NC = 4, NM = 2, IDX = 3 };
static std::string cname[NC + IDX], mname[NM];
static struct Late { std::string name; bool indexed; unsigned lo, n; bool made; int64_t cnt[3]; } late[8]; static int nlate;	// created while others count
static int64_t started[NC + IDX], finished[NC + IDX], mstarted[NM], mfinished[NM]; static bool committing;

static std::string lname(int l, int i) { return late[l].indexed ? late[l].name + "." + std::to_string(late[l].lo + i) : late[l].name; }
static bool make(int l) { Late &x = late[l]; return x.indexed ? SUT(gReports.create(x.name.c_str(), x.lo, x.lo + x.n - 1)) : SUT(gReports.create(x.name.c_str())); }
static void run()
{
	swarm_schedule(); swarm_clock_phase({ 10000 });
	static const char *pool[] = { "calls.started", "it's \"quoted\" %s %d; --", "Calls.Started", "x" };
	std::string lng(40 + w(400), 'n');
	for (int i = 0; i < NC; i++) cname[i] = pool[i];
	if (wp(1, 2)) cname[3] = lng;
	std::string base = wp(1, 3) ? "o'clock" : wp(1, 2) ? lng : "slot"; unsigned lo = wp(1, 4) ? 4294967292u + w(2) : w(3);
	mname[0] = "peak.load"; mname[1] = base + ".peak";
	bool trouble = wp(1, 3);
	reports_open();
	static sqlite3 *db; db = rep_reader();
	for (int i = 0; i < NC; i++) { bool r = SUT(gReports.create(cname[i].c_str())); CHECK(r, "create-failed", "a parameter could not be created"); }
	for (int i = 0; i < NM; i++) { bool r = SUT(gReports.create(mname[i].c_str())); CHECK(r, "create-failed", "a parameter could not be created"); }
	{ bool r = SUT(gReports.create(base.c_str(), lo, lo + IDX - 1)); CHECK(r, "create-failed", "an indexed parameter could not be created"); }
	for (int i = 0; i < IDX; i++) cname[NC + i] = base + "." + std::to_string(lo + i);
	int rounds = 1 + w(2);
	for (int rd = 0; rd < rounds; rd++) {
		int nt = 1 + w(3), per = 1 + w(8);
		int64_t before[NC + IDX]; for (int i = 0; i < NC + IDX; i++) { before[i] = rep_value(db, cname[i]); CHECK(before[i] == finished[i], "wrong-count", "a counter stands at %lld before the round instead of %lld", (long long)before[i], (long long)finished[i]); }
		DiskFaults d; memset(&d, 0, sizeof d);
		if (trouble) { d.mean = 3 + draw(F, 60); d.burst = draw(F, 10); uint32_t k = 1 + draw(F, 63); d.read = k & 1; d.write = k & 2; d.sync = k & 4; d.full = k & 8; d.open = k & 16; d.lock = k & 32; disk_faults(d); }
		std::vector<int> fs;
		for (int i = 0; i < nt; i++) fs.push_back(spawn("reporter", [=]() {
			for (int j = 0; j < per; j++) {
				switch (w(9)) {
					case 0: case 1: case 2: case 3: { int c = w(NC); started[c]++; bool r = SUT(gReports.incr(cname[c].c_str())); CHECK(r || trouble, "incr-failed", "an increment was refused"); finished[c]++; count("op.incr"); break; }
					case 4: { int c = w(IDX); started[NC + c]++; bool r = SUT(gReports.incr(base.c_str(), lo + c)); CHECK(r || trouble, "incr-failed", "an increment was refused"); finished[NC + c]++; count("op.incr_indexed"); break; }
					case 8: {	// a parameter of its own, made while the disk may fail
						if (nlate == 8) break;
						int l = nlate++; Late &x = late[l]; x.name = "late" + std::to_string(l) + (l & 1 ? "'s" : ""); x.indexed = wp(1, 2); x.lo = w(12); x.n = x.indexed ? 1 + w(3) : 1;
						x.made = make(l); CHECK(x.made || trouble, "create-failed", "a parameter could not be created"); count(x.made ? "op.create" : "op.create_failed");
						if (x.made) for (int k = w(4); k--;) { int i = w(x.n); x.cnt[i]++; if (x.indexed) SUTV(gReports.incr(x.name.c_str(), x.lo + i)); else SUTV(gReports.incr(x.name.c_str())); if (wp(1, 4)) sim::sleep_us(w(20000)); }
						break;
					}
					case 5: { int m = w(NM); int64_t v = wp(1, 10) ? 4294967295u : w(5000); if (v > mstarted[m]) mstarted[m] = v; bool r = SUT(gReports.max(mname[m].c_str(), (unsigned)v)); CHECK(r || trouble, "max-failed", "a tracker could not be updated"); if (r && v > mfinished[m]) mfinished[m] = v; count(r ? "op.max" : "op.max_failed"); break; }
					case 6: { bool r = SUT(gReports.commit()); CHECK(r || trouble, "commit-failed", "a commit failed although the disk did not"); count(r ? "op.commit" : "op.commit_failed"); break; }
					case 7: sim::sleep_us(wp(1, 2) ? 10100000 : w(20000)); break;
				}
			}
		}));
		int aud = spawn("auditor", [=]() {		// at no time does the database show more than was reported, or less than before
			int64_t last[NC + IDX], ml[NM]; memset(last, 0, sizeof last); memset(ml, 0, sizeof ml);
			for (int j = 0; j < 4; j++) {
				sim::sleep_us(w(6000000));
				int c = w(NC + IDX); int64_t v = rep_value(db, cname[c]), top = started[c];
				if (v >= 0) { CHECK(v >= last[c], "count-went-back", "a counter went back from %lld to %lld", (long long)last[c], (long long)v); last[c] = v; CHECK(v <= top, "over-count", "a counter shows %lld after only %lld increments", (long long)v, (long long)top); count("probe.audit"); }
				int m = w(NM); v = rep_value(db, mname[m]); top = mstarted[m];
				if (v >= 0) { CHECK(v >= ml[m], "max-went-back", "a tracker went back from %lld to %lld", (long long)ml[m], (long long)v); ml[m] = v; CHECK(v <= top, "over-max", "a tracker shows %lld, more than any reported %lld", (long long)v, (long long)top); }
			}
		});
		for (int f : fs) sim::join(f);
		sim::join(aud);
		disk_faults_off();
		bool r = false; for (int j = 0; j < 3 && !r; j++) r = SUT(gReports.commit());
		CHECK(r, "commit-failed", "a commit fails although the disk is fine");
		for (int j = 0; j < 8; j++) {	// a commit the committer had begun also ends
			sim::sleep_us(11000000);
			bool all = true; for (int i = 0; i < NC + IDX; i++) all &= rep_value(db, cname[i]) >= finished[i];
			for (int l = 0; l < nlate; l++) if (late[l].made) for (unsigned i = 0; i < late[l].n; i++) all &= rep_value(db, lname(l, i)) >= late[l].cnt[i];
			if (all) break;
		}
		r = SUT(gReports.commit());
		CHECK(r, "commit-failed", "a commit fails although the disk is fine");
		for (int i = 0; i < NC + IDX; i++) { int64_t v = rep_value(db, cname[i]); CHECK(v == finished[i], v < finished[i] ? "lost-increment" : "doubled-increment", "counter %d shows %lld after %lld increments", i, (long long)v, (long long)finished[i]); }
		for (int l = 0; l < nlate; l++) {
			Late &x = late[l];
			if (x.made) for (unsigned i = 0; i < x.n; i++) {
				int64_t v = rep_value(db, lname(l, i));
				CHECK(v >= 0, "create-lied", "a parameter whose creation was reported as made is not there");
				CHECK(v == x.cnt[i], v < x.cnt[i] ? "lost-increment" : "doubled-increment", "a counter created meanwhile shows %lld after %lld increments", (long long)v, (long long)x.cnt[i]);
			} else { x.made = make(l); CHECK(x.made, "create-failed", "a parameter could not be created although the disk is fine"); }
		}
		for (int i = 0; i < NM; i++) { int64_t v = rep_value(db, mname[i]); CHECK(v >= mfinished[i] && v <= mstarted[i], "wrong-max", "a tracker shows %lld, the largest reported value is %lld", (long long)v, (long long)mfinished[i]); if (!trouble) CHECK(v == mstarted[i], "wrong-max", "a tracker shows %lld, the largest reported value is %lld", (long long)v, (long long)mstarted[i]); mfinished[i] = v; mstarted[i] = v; }
		// clearing one, an indexed one, or all touches exactly those
		int64_t now = wall_us() / 1000000; int how = w(4);
		auto cleared = [=](const std::string &n) { int64_t ct = rep_value(db, n, "CLEAREDTIME"); CHECK(ct >= now && ct <= wall_us() / 1000000, "clear-time", "a cleared parameter carries time %lld instead of %lld", (long long)ct, (long long)now); };
		if (how == 1) { int c = w(NC); bool ok = SUT(gReports.clear(cname[c].c_str())); CHECK(ok, "clear-failed", "a parameter could not be cleared"); started[c] = finished[c] = 0; cleared(cname[c]); }
		if (how == 2) { int c = w(IDX); bool ok = SUT(gReports.clear(base.c_str(), lo + c)); CHECK(ok, "clear-failed", "a parameter could not be cleared"); started[NC + c] = finished[NC + c] = 0; cleared(cname[NC + c]); }
		if (how == 3) { bool ok = SUT(gReports.clear()); CHECK(ok, "clear-failed", "the table could not be cleared"); for (int c = 0; c < NC + IDX; c++) { started[c] = finished[c] = 0; cleared(cname[c]); } for (int m = 0; m < NM; m++) mstarted[m] = mfinished[m] = 0; }
		for (int l = 0; l < nlate; l++) for (unsigned i = 0; i < late[l].n; i++) { if (how == 3) late[l].cnt[i] = 0; int64_t v = rep_value(db, lname(l, i)); CHECK(v == late[l].cnt[i], "clear-wrong", "after clearing, a counter created meanwhile shows %lld instead of %lld", (long long)v, (long long)late[l].cnt[i]); }
		for (int i = 0; i < NC + IDX; i++) { int64_t v = rep_value(db, cname[i]); CHECK(v == finished[i], "clear-wrong", "after clearing, counter %d shows %lld instead of %lld", i, (long long)v, (long long)finished[i]); }
		for (int i = 0; i < NM; i++) { int64_t v = rep_value(db, mname[i]); CHECK(v == mfinished[i], "clear-wrong", "after clearing, a tracker shows %lld instead of %lld", (long long)v, (long long)mfinished[i]); }
		if (trouble && wp(1, 2)) {	// clearing while the disk fails: done when reported as done, else done or not, and nothing in between
			disk_faults(d);
			int c = w(NC), kind = w(3); int64_t v0[NC + IDX]; for (int i = 0; i < NC + IDX; i++) v0[i] = finished[i];
			bool ok = kind == 0 ? SUT(gReports.clear(cname[c].c_str())) : kind == 1 ? SUT(gReports.clear(base.c_str(), lo + c % IDX)) : SUT(gReports.clear());
			disk_faults_off(); sim::sleep_us(3000000);
			bool any = false, none = false;
			for (int i = 0; i < NC + IDX; i++) {
				int64_t v = rep_value(db, cname[i]); bool meant = kind == 0 ? i == c : kind == 1 ? i == NC + c % IDX : true;
				CHECK(v == v0[i] || (meant && v == 0), "clear-wrong", "clearing with a failing disk changed a counter from %lld to %lld", (long long)v0[i], (long long)v);
				if (meant && v0[i]) { if (v) none = true; else any = true; }
				started[i] = finished[i] = v;
			}
			CHECK(!(any && none), "clear-partial", "the table was cleared in part");
			CHECK(!(ok && none), "clear-lied", "a clearing was reported as done but is not");
			if (kind == 2) for (int m = 0; m < NM; m++) { int64_t v = rep_value(db, mname[m]); CHECK(v == 0 || v == mfinished[m], "clear-wrong", "clearing with a failing disk changed a tracker from %lld to %lld", (long long)mfinished[m], (long long)v); mstarted[m] = mfinished[m] = v; }
			if (kind == 2) for (int l = 0; l < nlate; l++) for (unsigned i = 0; i < late[l].n; i++) late[l].cnt[i] = rep_value(db, lname(l, i));
			count(ok ? "op.clear" : "op.clear_failed");
		}
		// creating again changes nothing
		if (wp(1, 2)) { int c = w(NC); bool ok = SUT(gReports.create(cname[c].c_str())); CHECK(ok, "create-failed", "a parameter could not be created again"); int64_t v = rep_value(db, cname[c]); CHECK(v == finished[c], "recreate", "creating an existing parameter changed it from %lld to %lld", (long long)finished[c], (long long)v); }
	}
	SUTV(gReports.reportShutdown()); join_threads();
	join_all();
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C18", "Report conservation", run,
	"seeded run: 1-3 threads increment plain and indexed counters, raise trackers and commit, next to the real ten second committer and an auditor reading the database, one run in three with disk errors; after the last commit each counter equals its increments exactly; clears and re-creation checked in between, names include quotes, near-duplicates and several hundred characters",
	"ReportingTable, batch committer thread, sqlite3util, sqlite3 in write-ahead mode, Logger", "pthread, scheduler, clock, disk below sqlite with injected errors, heap", 18000, 1500000);
