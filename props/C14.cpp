// C14: one configuration table used by several threads behaves like one map.
#include "common.h"
#include <sqlite3.h>
#include <sstream>
using namespace sim;

enum { SET, SETN, REMOVE, GET, GETNUM, DEFINES, PAIR, GETVEC, GETF, GETB, FIND };
static const char *opname(int k) { static const char *n[] = { "set", "setNumber", "remove", "getStr", "getNum", "defines", "pair", "getVector", "getFloat", "getBool", "find" }; return n[k]; }
static const char *keys[] = { "Sim.Plain", "Sim.Defaulted", "sim.plain", "It's.a \"key\"; -- %s", "Sim.Text" };
enum { NK = 5, TEXT = 4, DEF = 96 };
static bool nul[NK];		// there was a row without value in the beginning
struct Model {
	int64_t v[NK]; Model() { for (int i = 0; i < NK; i++) v[i] = -1; }
	std::string key() const { return std::string((const char *)v, sizeof v); }
	bool apply(const LOp &o)
	{
		int64_t &c = v[o.a], eff = c < 0 && o.a == 1 ? DEF : c;
		switch (o.kind) {
			case SET: case SETN: c = o.b; return !o.done || o.r == 1;
			case REMOVE: c = -1; return true;
			case GET: case GETNUM: case GETVEC: case GETF: return !o.done || o.r == eff;
			case GETB: return !o.done || o.r == (eff < 0 ? -1 : eff != 0);
			case DEFINES: return !o.done || o.r == (eff >= 0);
			case PAIR: return !o.done || o.r == c;
			case FIND: return !o.done || o.r == c || (o.r == 0 && c < 0 && nul[o.a]);	// a row without value shows like an empty one
		}
		return false;
	}
};
static ConfigurationTable *t; static History h; static int nextv;
// A value is a number and, depending on that number, more words and blanks after it; every way of reading must agree with it.
static std::vector<unsigned> words(int64_t v) { std::vector<unsigned> r; if (v) for (int i = 0; i <= (int)(v % 4 == 3 ? 0 : v % 4); i++) r.push_back(v + 1000 * i); return r; }
// The last key holds a number and any text after it.
static std::string text(int64_t v, int a)
{
	if (a == TEXT) {
		static const char *tails[] = { "", "'", " it's", " \"quoted\"", " %s %d %n", "; DROP TABLE CONFIG; --", "\\", " \xc3\xa9\xff", "\ttab", "  blanks  ", "''", " (disabled)" };
		int i = v % 13; return std::to_string(v) + (i < 12 ? std::string(tails[i]) : " " + std::string(300 + v * 37 % 5000, 'x'));
	}
	std::string s = v % 4 == 2 ? " " : "", sep = v % 8 > 4 ? "   " : " "; std::vector<unsigned> ws = words(v);
	for (size_t i = 0; i < ws.size(); i++) s += (i ? sep : "") + std::to_string(ws[i]);
	return v % 4 == 3 ? s + "  " : s;
}
static int64_t decode(const std::string &s, int a) { int64_t v = atoll(s.c_str()); CHECK(s == text(v, a), "garbled-value", "read the value '%s', which was never set", s.c_str()); return v; }
static int64_t getstr(int a) { std::string key = keys[a]; try { return decode(SUT(t->getStr(key)), a); } catch (ConfigurationTableKeyNotFound &) { return -1; } }
static void purge_hook(void *, int, char const *, char const *, sqlite3_int64) { t->purge(); }

static void run()
{
	swarm_schedule(); swarm_clock_phase({ 3000 });
	if (wp(1, 2)) cfg.wall_jumps = true;
	bool disk = wp(1, 2);
	{ Sut s; t = new ConfigurationTable(disk ? "/sim/conf.db" : ":memory:", "sim", sim_schema("Sim.Defaulted", "96")); if (chance(W, 1, 3)) t->setUpdateHook(purge_hook); }
	for (int i = 0; i < NK; i++) nul[i] = false;
	if (disk && wp(1, 3)) {		// rows without value, as other tools leave them
		sqlite3 *db; { Sut s; sqlite3_open("/sim/conf.db", &db); }
		for (int i = 0; i < NK; i++) if (wp(1, 2)) { nul[i] = true; char *c = SUT(sqlite3_mprintf("INSERT INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (%Q,NULL,1)", keys[i])); int rc = SUT(sqlite3_exec(db, c, 0, 0, 0)); CHECK(rc == SQLITE_OK, "harness", "insert %d", rc); SUTV(sqlite3_free(c)); }
		SUTV(sqlite3_close(db)); SUTV(t->purge()); count("op.null_rows");
	}
	nextv = 100;
	int nt = 2 + w(3), per = 2 + w(4), nk = 1 + w(NK);
	if (nt * per > 14) per = 14 / nt;
	for (int i = 0; i < nt; i++) spawn("user", [=]() {
		for (int j = 0; j < per; j++) {
			int a = w(nk), op = w(15); std::string key = keys[a]; int k;
			if (wp(1, 5)) sim::sleep_us(wp(1, 2) ? 3100000 : w(1200000));
			count("op.all");
			switch (op) {
				case 0: case 1: case 2: { int v = nextv++; if (wp(1, 4)) v = w(2); k = h.begin(SET, a, v); std::string b = text(v, a); bool r = SUT(t->set(key, b)); h.end(k, r); break; }
				case 3: { nextv = (nextv + 3) & ~3; if (a == TEXT) while (nextv % 13) nextv++; int v = nextv++; k = h.begin(SETN, a, v); bool r = SUT(t->set(key, (long)v)); h.end(k, r); break; }
				case 4: { k = h.begin(REMOVE, a); bool r = SUT(t->remove(key)); h.end(k, r); CHECK(r, "remove-failed", "removing a key failed without any fault"); break; }
				case 5: case 6: case 7: { k = h.begin(GET, a); h.end(k, getstr(a)); break; }
				case 8: { k = h.begin(GETNUM, a); int64_t r; try { r = SUT(t->getNum(key)); } catch (ConfigurationTableKeyNotFound &e) { r = -1; CHECK(e.key() == key, "wrong-key", "the exception names another key"); } h.end(k, r); break; }
				case 9: { k = h.begin(DEFINES, a); bool r = SUT(t->defines(key)); h.end(k, r); break; }
				case 10: {
					int kk[NK]; for (int q = 0; q < nk; q++) kk[q] = h.begin(PAIR, q);
					ConfigurationRecordMap m = SUT(t->getAllPairs());
					for (int q = 0; q < nk; q++) { auto it = m.find(keys[q]); h.end(kk[q], it == m.end() || !it->second.defined() ? -1 : decode(it->second.value(), q)); }
					break;
				}
				case 11: {
					if (a != TEXT && wp(1, 2)) {
						k = h.begin(GETVEC, a); int64_t r;
						try {
							if (wp(1, 2)) { std::vector<unsigned> v = SUT(t->getVector(key)); r = v.empty() ? 0 : (int64_t)v[0]; CHECK(v == words(r), "garbled-value", "a list of %zu numbers starting with %lld was never set", v.size(), (long long)r); }
							else { std::vector<std::string> v = SUT(t->getVectorOfStrings(key)); r = v.empty() ? 0 : atoll(v[0].c_str()); std::vector<std::string> e; for (unsigned n : words(r)) e.push_back(std::to_string(n)); CHECK(v == e, "garbled-value", "a list of %zu words starting with %lld was never set", v.size(), (long long)r); }
						} catch (ConfigurationTableKeyNotFound &) { r = -1; }
						h.end(k, r);
					} else if (wp(1, 2)) {
						k = h.begin(GETF, a); int64_t r;
						try { r = (int64_t)SUT(t->getFloat(key)); } catch (ConfigurationTableKeyNotFound &) { r = -1; }
						h.end(k, r);
					} else {
						k = h.begin(GETB, a); int64_t r;
						try { r = SUT(t->getBool(key)); } catch (ConfigurationTableKeyNotFound &) { r = -1; }
						h.end(k, r);
					}
					break;
				}
				case 12: SUTV(t->purge()); break;
				case 13: {	// search: every line that names one of our keys is a value it may have now
					std::ostringstream o; int kk[NK]; for (int q = 0; q < nk; q++) kk[q] = h.begin(FIND, q);
					SUTV(t->find(wp(1, 2) ? "" : "s", o));
					std::istringstream is(o.str()); std::string l; int64_t got[NK]; for (int q = 0; q < NK; q++) got[q] = -1;
					while (std::getline(is, l)) for (int q = 0; q < nk; q++) { std::string p = std::string(keys[q]) + " "; if (!l.compare(0, p.size(), p)) { std::string x = l.substr(p.size()); got[q] = x == "(disabled)" ? 0 : decode(x, q); } }
					for (int q = 0; q < nk; q++) h.end(kk[q], got[q]);
					break;
				}
				case 14: {	// the schema is what it was made of, whatever is set or removed
					bool all = wp(1, 2); ConfigurationKeyMap m = SUT(t->getSimilarKeys(all ? "" : "Sim.D")); bool in = m.find("Sim.Defaulted") != m.end();
					CHECK(in && (all ? m.find("Log.Level") != m.end() : m.size() == 1) && m.find("Sim.Plain") == m.end(), "wrong-schema", "the schema has %zu keys like %s", m.size(), all ? "any" : "Sim.D");
					bool d = SUT(t->keyDefinedInSchema("Sim.Defaulted")), e = SUT(t->keyDefinedInSchema(keys[0])), f = SUT(t->keyDefinedInSchema(keys[2]));
					CHECK(d && !e && !f, "wrong-schema", "keys in the schema: %d %d %d", d, e, f);
					bool st = SUT(t->isStatic("Sim.Defaulted")); CHECK(!st, "wrong-schema", "a key changed its kind");
				}
			}
		}
	});
	join_all();
	for (int a = 0; a < nk; a++) { int k = h.begin(GET, a); h.end(k, getstr(a)); }
	sim::sleep_us(3200000);
	for (int a = 0; a < nk; a++) { int k = h.begin(GET, a); h.end(k, getstr(a)); }
	check_linearizable(h, Model(), opname);
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C14", "Configuration under concurrency", run,
	"seeded run: 2-4 threads set, remove, look up in every type, list and search up to five keys (one with a default, two differing in case, one full of quotes, one with any text as its value) while the cache expires and the clock is stepped; the history is checked for linearizability against an array of cells",
	"ConfigurationTable, cache and schema, sqlite3util, sqlite3, Mutex, Logger", "pthread, scheduler, clock, disk below sqlite, heap", 26000, 800000);
