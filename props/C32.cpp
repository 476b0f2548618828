// C32: a call that runs out of memory fails by itself: no lock stays held, nothing is lost or counted twice, the others go on.
#include "reports.h"
#include "Interthread.h"
#include "Logger.h"
#include <sstream>
#include <map>
#include <set>
using namespace sim;

static void arm(unsigned num, unsigned den) { alloc_fail(chance(F, num, den) ? 1 + draw(F, 4) : 0); }
static void disarm() { alloc_fail(0); malloc_fail(0); }
// the same for calls that use the database: half of the time a malloc fails, which may be one of sqlite's
static void arm_db(unsigned num, unsigned den) { disarm(); if (!chance(F, num, den)) return; if (chance(F, 1, 2)) alloc_fail(1 + draw(F, 6)); else malloc_fail(1 + draw(F, chance(F, 1, 2) ? 4 : 40)); }

// ---------------------------------------------------------------- containers
enum { MAXE = 48, NONE = 0, IN, GIVEN_UP };
static int dead[MAXE], got[MAXE], st[MAXE], writers, sure;
static std::vector<std::pair<int, int> > taken;	// (reader, element) in the order the reads returned
struct El : SingleLinkListNode {
	int n; explicit El(int i) : n(i) {}
	virtual ~El() { Harness h; dead[n]++; CHECK(dead[n] == 1, "double-destroy", "element %d was destroyed twice", n); }
	El *next() { return (El *)mNext; } virtual unsigned size() { return 1; }
	bool operator>(const El &o) const { return n > o.n; }
};
// puts an element in, running out of memory now and then; false when the writer gave up
template <class P> static bool put(P p, int n, bool insist)
{
	El *e; { Sut s; e = new El(n); }
	for (int tries = 0; ; tries++) {
		if (tries < 3) arm(1, 2); else disarm();
		st[n] = IN;
		try { SUTV(p(e)); disarm(); count("op.put"); sure++; return true; }
		catch (std::bad_alloc &) {
			disarm(); count("op.put_failed");
			CHECK(!dead[n] && !got[n], "failed-put", "a put that failed for lack of memory did something with its element %d", n);
			st[n] = NONE;
			if (!insist && chance(W, 1, 3)) { st[n] = GIVEN_UP; SUTV(delete e); return false; }
		}
	}
}
static void took(El *e, std::vector<std::pair<int, int> > *log)
{
	int n = e->n; got[n]++;
	CHECK(st[n] == IN, "not-put", "read element %d, which no put put in", n);
	CHECK(got[n] == 1 && !dead[n], "double", "element %d was handed out twice", n);
	if (log) log->push_back(std::make_pair(self(), n));
	SUTV(delete e);
}
template <class Q> static void queues(bool fifo)
{
	Q *q = SUT(new Q); int nw = 1 + w(3), per = 2 + w(6), total = nw * per, nr = 1 + w(2); bool blocking = wp(1, 2);
	writers = nw; sure = 0; taken.clear();
	for (int i = 0; i < nw; i++) spawn("writer", [=]() {
		for (int j = 0; j < per; j++) { put([=](El *e) { q->write(e); }, i * per + j, blocking); if (wp(1, 3)) sim::sleep_us(w(3000)); }
		writers--;
	});
	for (int i = 0; i < nr; i++) spawn("reader", [=]() {
		int quota = total / nr;			// what a blocking reader may rely on
		for (int k = 0; blocking ? k < quota : k < 60; ) {
			bool last = !writers; El *e;
			arm(1, 4);
			try { Sut s; e = blocking ? q->read() : k & 1 ? q->read(5) : q->readNoBlock(); } catch (std::bad_alloc &) { disarm(); count("op.take_failed"); continue; }
			disarm(); k++;
			if (e) { took(e, &taken); count("op.take"); } else if (last) break; else sim::sleep_us(300);
		}
	});
	join_all();
	int in = 0; for (int n = 0; n < total; n++) in += st[n] == IN && !got[n];
	int sz = (int)SUT(q->size());
	CHECK(sz == in, "wrong-size", "%d elements in the container, but %d were put in and not taken", sz, in);
	std::map<std::pair<int, int>, int> last;
	for (auto &t : taken) { auto k = std::make_pair(t.first, t.second / per); CHECK(!fifo || !last.count(k) || last[k] < t.second, "order", "a reader got element %d after %d of the same writer", t.second, last[k]); last[k] = t.second; }
	if (wp(1, 2)) for (int i = 0; i < in; i++) { El *e = SUT(q->readNoBlock()); CHECK(e, "lost", "the container does not give back what was put in"); took(e, 0); }
	SUTV(delete q);
	for (int n = 0; n < total; n++) CHECK(dead[n] == 1, "leak", "element %d was destroyed %d times", n, dead[n]);
}
static void maps()
{
	typedef InterthreadMap<int, El> M; M *m = SUT(new M); int nw = 1 + w(3), per = 2 + w(6), total = nw * per, nr = 1 + w(2); bool blocking = wp(1, 2);
	writers = nw; sure = 0;
	for (int i = 0; i < nw; i++) spawn("writer", [=]() {		// each writer has keys of its own, and uses some of them twice
		for (int j = 0; j < per; j++) {
			int key = i * per + (blocking ? j : j / 2), n = i * per + j;
			put([=](El *e) { m->write(key, e); }, n, blocking);
			if (!blocking && st[n] == IN && wp(1, 3)) { arm(1, 3); bool r = true; try { r = SUT(m->remove(key)); } catch (std::bad_alloc &) { } disarm(); CHECK(r, "lost", "a key just written is not there"); CHECK(dead[n] <= 1, "double", "removed twice"); }
		}
		writers--;
	});
	for (int i = 0; i < nr; i++) spawn("reader", [=]() {
		for (int k = i; k < total; k += nr) {
			El *e = 0; arm(1, 4);
			if (blocking) { try { Sut s; m->InterthreadMap1<int, El *>::get(k, e, true); } catch (std::bad_alloc &) { disarm(); count("op.take_failed"); k -= nr; continue; } disarm(); took(e, 0); count("op.take"); }
			else { try { Sut s; m->size(); m->readNoBlock(k); } catch (std::bad_alloc &) { count("op.take_failed"); } disarm(); sim::sleep_us(w(2000)); }
		}
	});
	join_all();
	int in = 0; for (int n = 0; n < total; n++) in += st[n] == IN && !got[n] && !dead[n];
	int sz = (int)SUT(m->size());
	CHECK(sz == in, "wrong-size", "%d elements in the map, but %d were put in and neither taken nor replaced", sz, in);
	SUTV(delete m);
	for (int n = 0; n < total; n++) CHECK(dead[n] == 1, "leak", "element %d was destroyed %d times", n, dead[n]);
}

// ---------------------------------------------------------------- report counters
static int64_t certain[3], possible[3];
static void reports()
{
	static const char *names[3] = { "a.counter.with.a.rather.long.name", "another.counter.with.a.long.name", "short" };
	memset(certain, 0, sizeof certain); memset(possible, 0, sizeof possible);
	reports_open();
	for (int i = 0; i < 3; i++) SUTV(gReports.create(names[i]));
	int nt = 1 + w(3), per = 3 + w(10);
	for (int i = 0; i < nt; i++) spawn("reporter", [=]() {
		for (int j = 0; j < per; j++) {
			int c = w(3), op = w(8); arm_db(1, 2);
			if (op < 5) possible[c]++;
			try {
				Sut s;
				if (op < 5) gReports.incr(names[c]);
				else if (op == 5) gReports.create(names[c]);
				else if (op == 6) gReports.commit();
				else { char b[60]; snprintf(b, sizeof b, "one more parameter, number %d of %d", i, j); gReports.create(b); }
				disarm(); count("op.report");
				if (op < 5) certain[c]++;
			} catch (std::bad_alloc &) { disarm(); count("op.report_failed"); }
			if (wp(1, 6)) sim::sleep_us(w(11000000));
		}
	});
	join_all();
	cfg.stall_mean = 0;	// a writer that stands still in the middle of its commit is waited for
	for (int k = 0; k < 2; k++) { bool r = SUT(gReports.commit()); CHECK(r, "commit-failed", "a commit fails although nothing is wrong any more"); sim::sleep_us(11000000); }
	sqlite3 *db = rep_reader();
	for (int i = 0; i < 3; i++) { int64_t v = rep_value(db, names[i]); CHECK(v >= certain[i] && v <= possible[i], "wrong-count", "a counter stands at %lld after %lld increments and %lld that ran out of memory", (long long)v, (long long)certain[i], (long long)(possible[i] - certain[i])); }
	SUTV(gReports.reportShutdown());
}

// ---------------------------------------------------------------- configuration and log levels
static void config()
{
	static ConfigurationTable *t; { Sut s; t = new ConfigurationTable("/sim/c.db", "sim", sim_schema("Some.Key.That.Has.A.Default", "the default value, not short either")); }
	static const char *keys[] = { "Some.Key.That.Has.A.Default", "Another.Key.With.A.Long.Name.1", "Another.Key.With.A.Long.Name.2" };
	int nt = 1 + w(3), per = 3 + w(10);
	for (int i = 0; i < nt; i++) spawn("user", [=]() {
		// each thread has a key of its own; what it may read: the last value set, or one whose setting ran out of memory
		std::string key = keys[i]; std::set<std::string> may; may.insert(i ? "" : "the default value, not short either");
		for (int j = 0; j <= per; j++) {
			int op = j == per ? 0 : w(8); std::string v = "value number " + std::to_string(j) + " of thread " + std::to_string(i), r; bool ok = true, none = false;
			if (wp(1, 4)) sim::sleep_us(wp(1, 2) ? 3100000 : w(500000));
			if (j < per) arm_db(1, 2); else disarm();
			try {
				if (op < 3) { Sut s; try { r = t->getStr(key); } catch (ConfigurationTableKeyNotFound &) { none = true; } }
				else if (op < 5) ok = SUT(t->set(key, v));
				else if (op == 5) ok = SUT(t->remove(key));
				else if (op == 6) { Sut s; std::ostringstream os; t->find("Key", os); t->getAllPairs(); try { t->getVectorOfStrings(key); t->getNum(key); } catch (ConfigurationTableKeyNotFound &) { } }
				else { Sut s; t->purge(); t->defines(key); }
				bool failed = alloc_failed(); disarm(); count("op.config"); std::string got;
				{ Harness h; got = none ? "" : std::string(r.c_str()); }
				if (failed) {		// it may have told so by its result
					if (op == 3 || op == 4) { if (ok) { may.clear(); } may.insert(v); }
					else if (op == 5) { if (ok) may.clear(); may.insert(i ? "" : "the default value, not short either"); }
					continue;
				}
				CHECK(ok, "refused", "a change is refused although nothing is wrong with the database");
				if (op < 3) { CHECK(may.count(got), "wrong-value", "read '%s', which is not what was set", got.c_str()); may.clear(); may.insert(got); }
				else if (op < 5) { may.clear(); may.insert(v); }
				else if (op == 5) { may.clear(); may.insert(i ? "" : "the default value, not short either"); }
			} catch (std::bad_alloc &) {
				disarm(); count("op.config_failed");
				if (op == 3 || op == 4) may.insert(v); else if (op == 5) may.insert(i ? "" : "the default value, not short either");
			}
		}
	});
	join_all();
	// nothing keeps another process out of the database
	bool r; { Sut s; sqlite3 *db = 0; sqlite3_open("/sim/c.db", &db); sqlite3_busy_timeout(db, 2000); r = sqlite3_exec(db, "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING) VALUES ('Of.Another.Process','1')", 0, 0, 0) == SQLITE_OK; sqlite3_close(db); }
	CHECK(r, "locked", "another process cannot change the table although nobody uses it any more");
}
static void levels()
{
	static const char *files[] = { "a_source_file_with_a_long_name.cpp", "another_source_file.cpp", "b.cpp" };
	capture_streams(true);
	SUTV(gConfig.set("Log.Level.b.cpp", "DEBUG"));
	int nt = 1 + w(3);
	for (int i = 0; i < nt; i++) spawn("logger", [=]() {
		for (int j = 0; j < 8; j++) {
			int f = w(3), l = -1, op = w(4); arm(1, 2);
			try {
				Sut s;
				if (op < 2) l = gGetLoggingLevel(files[f]);
				else if (op == 2) { std::list<std::string> a = gGetLoggerAlarms(); l = -2; }
				else { sim::alloc_fail(0); LOG(ALERT) << "an alarm with some text in it, so that it needs memory"; l = -2; }
			} catch (std::bad_alloc &) { count("op.level_failed"); }
			disarm(); count("op.level");
			if (l >= 0) CHECK(l == (f == 2 ? 7 : 5), "wrong-level", "the level of %s is %d", files[f], l);
		}
	});
	join_all();
	for (int f = 0; f < 3; f++) { int l = SUT(gGetLoggingLevel(files[f])); CHECK(l == (f == 2 ? 7 : 5), "wrong-level", "the level of %s stays %d", files[f], l); }
}
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	memset(dead, 0, sizeof dead); memset(got, 0, sizeof got); memset(st, 0, sizeof st);
	switch (w(9)) {
		case 0: queues<InterthreadQueue<El> >(true); break;
		case 2: queues<InterthreadQueueWithWait<El> >(true); break;
		case 3: queues<InterthreadPriorityQueue<El> >(false); break;
		case 4: maps(); break;
		case 5: case 6: reports(); break;
		case 7: config(); break;
		default: levels();
	}
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C32", "Out of memory in one call", run,
	"seeded run: 1-3 threads use a container, the report counters, a configuration table or the log levels while some of their calls run out of memory at their first to fourth allocation, or at one of the first forty of those that use the database, sqlite's own included; what the other calls see, the lock state and the totals are checked",
	"Interthread containers, LinkedLists, ReportingTable, ConfigurationTable, log levels and alarm list, Mutex, Signal, sqlite3", "pthread, scheduler, clock, heap with failing allocations, disk below sqlite", 30000, 1200000);
