// C29: the database helpers answer truthfully, wait out short locks, and their attributes are durable.
#include "common.h"
#include "sqlite3util.h"
#include <map>
using namespace sim;

enum { SET, DEL, GET, EXISTS, ALL, NUM, SETA, GETA, CRASH, SKIP };
static const char *opname(int k) { static const char *n[] = { "set", "delete", "get", "exists", "all", "get_number", "set_attr", "get_attr", "crash", "unknown" }; return n[k]; }
static const char *keys[] = { "plain", "O'Brien \"; --", "long key with %s and % and a lot of text so that no small buffer is enough for the query that is made from it, whatever the size of the buffer may be, two hundred characters or more, as people do" };
static const char *attrs[] = { "schema version", "it's" };
enum { NK = 3, NA = 2, MAXOPS = 150 };
struct SharedHist { int n; LOp op[MAXOPS]; int next; };
static SharedHist *sh;
struct Model {
	int64_t v[NK + NA]; int phase; Model() : phase(0) { for (int64_t &x : v) x = 0; }
	std::string key() const { return std::string((const char *)v, sizeof v) + (char)phase; }
	bool apply(const LOp &o)
	{
		if (o.kind == SKIP) return true;
		if (o.r2 != phase) return false;		// what a crash interrupted cannot happen later
		int64_t &c = v[o.a];
		switch (o.kind) {
			case CRASH: phase++; return true;
			case SET: case SETA: c = o.b; return true;
			case DEL: c = 0; return true;
			case GET: case GETA: return !o.done || o.r == c;
			case NUM: return !o.done || o.r == (c == o.b);
			case EXISTS: return !o.done || o.r == (c != 0);
			case ALL: { int64_t h = 0; for (int i = 0; i < NK; i++) if (v[i]) h += v[i] * (i + 1) * 1000003; return !o.done || o.r == h; }
		}
		return false;
	}
};
static int begin(int kind, int64_t a, int64_t b) { Harness hh; CHECK(sh->n < MAXOPS, "harness", "too many operations"); LOp &o = sh->op[sh->n]; o = LOp{ kind, a, b, 0, incarnation() - 1, seq(), ~0ULL, self(), false, 0 }; return sh->n++; }
static void end(int i, int64_t r) { Harness hh; LOp &o = sh->op[i]; o.r = r; o.ret = seq(); o.done = true; event("%s(%lld,%lld) -> %lld", opname(o.kind), (long long)o.a, (long long)o.b, (long long)r); }
static void forget(int i) { sh->op[i].kind = SKIP; end(i, 0); }

static int running, entered;	// operations under way on other connections may hold the database for longer than the helpers wait
static int64_t num(const std::string &s) { return atoll(s.c_str()); }
static std::string quoted(const char *k) { char *q = sqlite3_mprintf("%Q", k); std::string s(q); sqlite3_free(q); return s; }

static void one(sqlite3 *db, bool alone_ok)
{
	int a = w(NK), op = w(12); (void)alone_ok;
	std::string k = keys[a]; char b[40];
	std::string cmd; int v = 0;
	if (op < 3) { v = sh->next++; snprintf(b, sizeof b, "%d", v); cmd = "INSERT OR REPLACE INTO T (K,V,N) VALUES (" + quoted(keys[a]) + ",'" + b + "'," + b + ")"; }
	if (op == 3) cmd = "DELETE FROM T WHERE K==" + quoted(keys[a]);
	int at = w(NA); bool how = wp(1, 2); int way = w(4);
	if (op == 4) { v = sh->next++; snprintf(b, sizeof b, "%d", v); }
	uint64_t f0 = disk_faults_fired(); int e0 = entered; running++; entered++;
	bool alone = running == 1;
	auto excused = [&]() { return !alone || entered != e0 + 1 || disk_faults_fired() != f0; };
	if (op < 4) {
		int o = begin(op < 3 ? SET : DEL, a, v); int rc = -1;
		bool r = how ? SUT(sqlite3_command(db, cmd.c_str())) : SUT(sqlite_command(db, cmd.c_str(), &rc));
		if (!how) CHECK(r == (rc == SQLITE_DONE || rc == SQLITE_ROW), "wrong-code", "a command said %d and code %d", r, rc);
		if (r) { end(o, 1); count("op.command"); }
		else { CHECK(excused(), "refused", "a command was refused although nobody else used the database and the disk was well"); count("op.command_refused"); }
	} else if (op == 4) {
		int o = begin(SETA, NK + at, v);
		if (SUT(sqlite_set_attr(db, attrs[at], b))) { end(o, 1); count("op.set_attr"); }
		else { CHECK(excused(), "refused", "an attribute was refused although nobody else used the database and the disk was well"); count("op.set_attr_refused"); }
	} else if (op == 5) {
		int o = begin(GETA, NK + at, 0); std::string s = SUT(sqlite_get_attr(db, attrs[at]));
		if (s.empty() && excused()) forget(o); else end(o, num(s));
		count("op.get_attr");
	} else if (op == 6) {
		int o = begin(EXISTS, a, 0); bool r = SUT(sqlite3_exists(db, "T", "K", keys[a]));
		if (!r && excused()) forget(o); else end(o, r);
		count("op.exists");
	} else if (op == 7) {
		int o = begin(ALL, 0, 0); int64_t h = 0; int n = 0; bool complete = true;
		{
			sqlQuery *q = SUT(new sqlQuery(db, "T", "K,V,N", "WHERE 1"));
			if (SUT(q->sqlSuccess())) do {
				std::string kk = SUT(q->getResultText(0)), vv = SUT(q->getResultText(1)); int64_t nn = SUT(q->getResultInt(2)); n++;
				int i = 0; while (i < NK && kk != keys[i]) i++;
				CHECK(i < NK && num(vv) == nn, "wrong-row", "a row reads %s, %s, %lld", kk.c_str(), vv.c_str(), (long long)nn);
				CHECK(SUT(q->sqlResultSize()) == 3, "wrong-size", "a row of three columns has %u", q->sqlResultSize());
				h += nn * (i + 1) * 1000003;
			} while (SUT(q->sqlStep()));
			SUTV(delete q);
		}
		(void)complete;
		if (excused() && (n < NK || disk_faults_fired() != f0)) forget(o); else end(o, h);	// nothing tells an error from the end
		count("op.all");
	} else {
		int o = begin(GET, a, 0); int64_t r = 0; bool found = false;
		if (op == 8) { std::string s = "?"; found = SUT(sqlite_single_lookup(db, "T", "K", keys[a], "V", s)); if (found) r = num(s); else CHECK(s == "?", "touched", "a lookup that found nothing changed its result"); }
		else if (op == 9) { char *p = (char *)1; bool failed = !excused(); found = way & 1 ? SUT(sqlite3_single_lookup(db, "T", "K", keys[a], "V", p, 5, &failed)) : SUT(sqlite3_single_lookup(db, "T", "K", keys[a], "V", p)); if (p) { r = num(p); SUTV(free(p)); } if (way & 1) CHECK(!found || !failed, "wrong-code", "a lookup found a row and says it failed"); if ((way & 1) && !found && !failed) { end(o, 0); running--; count("op.lookup"); return; } }
		else if (op == 10) { unsigned u = 0; found = SUT(sqlite3_single_lookup(db, "T", "K", keys[a], "N", u)); r = u; }
		else { sqlQuery *q = SUT(new sqlQuery(db, "T", "V", "K", keys[a])); found = SUT(q->sqlSuccess()); r = num(SUT(q->getResultText())); CHECK(found || !r, "touched", "a query without a row has a value"); if (found) CHECK(!SUT(q->sqlStep()), "wrong-row", "a second row for a unique key"); SUTV(delete q); }
		if (found) CHECK(r != 0, "wrong-value", "a row was found without its value");
		if (!found && excused()) forget(o); else end(o, r);
		count("op.lookup");
		if (found && wp(1, 3)) {	// the same row by its number
			int o2 = begin(NUM, a, r); bool f2 = false; std::string s; char *p = 0;
			switch (w(3)) {
				case 0: f2 = SUT(sqlite_single_lookup(db, "T", "N", (unsigned)r, "K", s)); break;
				case 1: f2 = SUT(sqlite3_single_lookup(db, "T", "N", (unsigned)r, "K", p)); if (p) { s = p; SUTV(free(p)); } break;
				default: { sqlQuery *q = SUT(new sqlQuery(db, "T", "K", "N", (unsigned)r)); f2 = SUT(q->sqlSuccess()); s = SUT(q->getResultText()); SUTV(delete q); }
			}
			if (f2) CHECK(s == k, "wrong-row", "number %lld belongs to %s", (long long)r, s.c_str());
			if (!f2 && excused()) forget(o2); else end(o2, f2);
			count("op.lookup_by_number");
		}
	}
	running--;
}
// keys and values of every size and content come back as they went in
static void values(sqlite3 *db)
{
	static const unsigned us[] = { 0, 1, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu };
	static const int64_t is[] = { 0, -1, INT32_MIN, INT64_C(0x80000000), INT64_MAX, INT64_MIN, INT64_C(0x1234567800000001) };
	unsigned u = wp(1, 3) ? us[w(6)] : w(0x7fffffff) * 2u + w(2); int64_t v = wp(1, 3) ? is[w(7)] : (int64_t)((uint64_t)w(0x7fffffff) << 33 ^ w(0x7fffffff));
	unsigned len = wp(1, 3) ? 200 + w(6000) : w(40); std::string t; for (unsigned i = 0; i < len; i++) t += (char)(wp(1, 6) ? "'\"%;\\\n\t\xc3"[w(8)] : 'a' + w(26));
	char *q = sqlite3_mprintf("CREATE TABLE IF NOT EXISTS U (N INTEGER PRIMARY KEY, V INTEGER, T TEXT)"), *i = sqlite3_mprintf("INSERT OR REPLACE INTO U (N,V,T) VALUES (%u,%lld,%Q)", u, (long long)v, t.c_str());
	CHECK(SUT(sqlite3_command(db, q)) && SUT(sqlite3_command(db, i)), "refused", "a row cannot be written"); sqlite3_free(q); sqlite3_free(i);
	bool nul = wp(1, 3);
	if (nul) { t.insert(w((unsigned)t.size() + 1), 1, 0); Sut su; sqlite3_stmt *st; sqlite3_prepare_v2(db, "UPDATE U SET T=?", -1, &st, 0); sqlite3_bind_text(st, 1, t.data(), (int)t.size(), SQLITE_STATIC); sqlite3_step(st); sqlite3_finalize(st); }
	std::string s, key = std::to_string(u); unsigned ru = 1; char *p = 0;
	CHECK(SUT(sqlite_single_lookup(db, "U", "N", u, "T", s)) && s == t, "wrong-value", "the text of row %u is %zu bytes, %zu were written", u, s.size(), t.size());
	s = "?"; CHECK(SUT(sqlite_single_lookup(db, "U", "N", key.c_str(), "T", s)) && s == t, "wrong-value", "the text of row '%s' is %zu bytes, %zu were written", key.c_str(), s.size(), t.size());
	CHECK(SUT(sqlite_single_lookup_string(db, "U", "N", key.c_str(), "T")) == t, "wrong-value", "the text of row '%s' is another", key.c_str());
	CHECK(SUT(sqlite3_single_lookup(db, "U", "N", u, "T", p)) && p && !strcmp(p, t.c_str()), "wrong-value", "the text of row %u is another", u); SUTV(free(p));
	p = 0; CHECK(SUT(sqlite3_single_lookup(db, "U", "N", key.c_str(), "T", p)) && p && !strcmp(p, t.c_str()), "wrong-value", "the text of row '%s' is another", key.c_str()); SUTV(free(p));
	CHECK(SUT(sqlite3_single_lookup(db, "U", "N", key.c_str(), "N", ru)) && ru == u, "wrong-value", "the number of row %u is %u", u, ru);
	CHECK(SUT(sqlite3_exists(db, "U", "N", key.c_str())), "wrong-value", "row %u is not there", u);
	{
		sqlQuery *n = SUT(new sqlQuery(db, "U", "V,N,T,NULL", "N", u));
		CHECK(SUT(n->sqlSuccess()) && SUT(n->getResultInt(0)) == v && SUT(n->getResultInt(1)) == (int64_t)u && SUT(n->getResultText(2)) == t && SUT(n->getResultText(3)).empty(), "wrong-value", "row %u with %lld reads %lld", u, (long long)v, (long long)n->getResultInt(0));
		SUTV(delete n);
	}
	if (!nul) {	// and the key may be as long
		s = "?"; CHECK(SUT(sqlite_single_lookup(db, "U", "T", t.c_str(), "N", s)) && s == key, "wrong-value", "the row with a text of %zu bytes is not found by it", t.size());
		CHECK(SUT(sqlite3_exists(db, "U", "T", t.c_str())), "wrong-value", "the row with a text of %zu bytes is not there", t.size());
		ru = u + 1; CHECK(SUT(sqlite3_single_lookup(db, "U", "T", t.c_str(), "N", ru)) && ru == u, "wrong-value", "the row with a text of %zu bytes has number %u", t.size(), ru);
	}
	std::string b = t.substr(0, t.find('\0'));
	CHECK(SUT(sqlite_set_attr(db, "size", b.c_str())) && SUT(sqlite_get_attr(db, "size")) == b, "wrong-value", "an attribute of %zu bytes is another", b.size());
	count("op.values");
}
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	sh = shared<SharedHist>(); sh->next = 100;
	bool trouble = draw(F, 3) == 0; DiskFaults d; memset(&d, 0, sizeof d);
	d.mean = 2 + draw(F, 80); d.burst = draw(F, 10); uint32_t kinds = 1 + draw(F, 31);
	d.read = kinds & 1; d.write = kinds & 2; d.sync = kinds & 4; d.full = kinds & 8; d.lock = kinds & 16;
	int phases = 1 + w(2);
	for (int ph = 0; ph < phases; ph++) {
		// one connection each: sqlite's statements on a shared one are one transaction
		int nt = 1 + w(3), per = 2 + w(8), nc = nt; unsigned mean = 30 + w(400); bool wal = wp(1, 3), crashes = wp(1, 2);
		int e = phase([=]() {
			static sqlite3 *c[3]; for (int i = 0; i < nc; i++) { Sut s; sqlite3_open("/sim/x.db", &c[i]); }
			if (wal) SUTV(sqlite3_command(c[0], enableWAL));
			CHECK(SUT(sqlite3_command(c[0], "CREATE TABLE IF NOT EXISTS T (K TEXT PRIMARY KEY, V TEXT, N INTEGER)")), "refused", "a table cannot be made");
			CHECK(SUT(sqlite_set_attr(c[0], "x", "y")), "refused", "an attribute cannot be set");
			if (crashes) arm_crash(mean, false);
			if (trouble) disk_faults(d);
			for (int i = 0; i < nt; i++) spawn("user", [=]() { for (int j = 0; j < per; j++) { one(c[i % nc], nt == 1); if (wp(1, 6)) sim::sleep_us(w(3000)); } });
			join_all();
			disk_faults_off(); disarm_crash();
			for (int i = 0; i < 3; i++) one(c[0], true);
			for (int i = 0; i < nc; i++) SUTV(sqlite3_close(c[i]));
		});
		count(e == PH_CRASH ? "fault.process_crash" : "op.clean_restart");
		int k = begin(CRASH, 0, 0); sh->op[k].r2 = ph; end(k, 0);
	}
	phase([=]() {
		sqlite3 *a, *b; { Sut s; sqlite3_open("/sim/x.db", &a); sqlite3_open("/sim/x.db", &b); }
		for (int i = 0; i < NK; i++) { std::string s; int k = begin(GET, i, 0); bool f = SUT(sqlite_single_lookup(a, "T", "K", keys[i], "V", s)); end(k, f ? num(s) : 0); }
		for (int i = 0; i < NA; i++) { int k = begin(GETA, NK + i, 0); std::string s = SUT(sqlite_get_attr(a, attrs[i])); end(k, num(s)); }
		CHECK(SUT(sqlite_get_attr(a, "never set")).empty(), "invented-value", "an attribute that was never set has a value");
		values(a);
		// a lock that is held for less than the helpers try is waited out
		cfg.stall_mean = 0; cfg.tick_us = 1; cfg.late_us = 0;
		int hold = w(500), kind = w(3); static bool held; held = false;
		spawn("holder", [=]() { SUTV(sqlite3_exec(b, "BEGIN EXCLUSIVE", 0, 0, 0)); held = true; sim::sleep_us(hold); SUTV(sqlite3_exec(b, "COMMIT", 0, 0, 0)); });
		wait_until([]() { return held; });
		bool r; int64_t t0 = mono_us();
		if (kind == 0) r = SUT(sqlite3_command(a, "INSERT OR REPLACE INTO T (K,V,N) VALUES ('z','1',1)"));
		else if (kind == 1) { unsigned u = 9; bool failed = false; char *p = 0; (void)u; SUTV(sqlite3_single_lookup(a, "T", "K", "nothing", "V", p, 5, &failed)); r = !failed; }
		else r = SUT(sqlite_set_attr(a, "z", "1"));
		int64_t el = mono_us() - t0;
		join_all();
		CHECK(r, "gave-up", "a request did not wait for a lock that was held for %d us (it took %lld us)", hold, (long long)el);
		count("op.waited_out");
		SUTV(sqlite3_close(a)); SUTV(sqlite3_close(b));
	});
	History h; for (int i = 0; i < sh->n; i++) h.ops.push_back(sh->op[i]);
	check_linearizable(h, Model(), opname);
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C29", "Database helpers", run,
	"seeded run: up to three incarnations of a process with 1-3 threads on connections of their own run commands, lookups of every flavour, row iterations and attribute changes on a table on the simulated disk, with crashes and (one run in three) failing disk operations; the history is checked for linearizability, answers that an error may explain are left out, and a final phase checks that a short lock is waited out",
	"sqlite3util, sqlite3, Logger, Mutex", "pthread, scheduler, clock, disk and crash below sqlite, heap", 10000, 800000);
