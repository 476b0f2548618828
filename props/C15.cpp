// C15: configuration changes that were acknowledged survive crashes; interrupted ones are all or nothing.
#include "common.h"
using namespace sim;

enum { SET, REMOVE, GET, CRASH, UNDO, SKIP };
static const char *opname(int k) { static const char *n[] = { "set", "remove", "get", "crash", "undo", "lookup-in-trouble" }; return n[k]; }
static const char *keys[] = { "Sim.Plain", "Sim.Defaulted", "O'Brien's \"key\" %s; --" };
enum { NK = 3, MAXOPS = 120 };
struct SharedHist { int n; LOp op[MAXOPS]; int phase[MAXOPS]; int next; };
static SharedHist *sh;
struct Model {
	int64_t v[NK], prev[NK]; int phase; bool undone; Model() : phase(0), undone(false) { for (int i = 0; i < NK; i++) v[i] = prev[i] = -1; }
	std::string key() const { return std::string((const char *)v, sizeof v) + std::string((const char *)prev, sizeof prev) + (char)phase + (char)undone; }
	void put(int a, int64_t x) { if (x < 0 && v[a] < 0) return; memcpy(prev, v, sizeof v); v[a] = x; }
	bool apply(const LOp &o)
	{
		if (o.r2 != phase) return false;		// what a crash interrupted cannot happen later
		if (o.kind == SKIP) return true;
		if (o.kind == CRASH) { phase++; undone = false; return true; }
		if (undone) return false;
		// a power failure may take back the last committed change: sqlite's rollback journal does not
		// make the removal of the journal durable (that is its documented behaviour)
		if (o.kind == UNDO) { memcpy(v, prev, sizeof v); undone = true; return true; }
		int64_t &c = v[o.a];
		switch (o.kind) {
			case SET: if (!o.done || o.r) put(o.a, o.b); return true;
			case REMOVE: if (!o.done || o.r) put(o.a, -1); return true;
			case GET: return !o.done || o.r == (c < 0 && o.a == 1 ? 99 : c);
		}
		return false;
	}
};
static int begin(int kind, int64_t a, int64_t b) { Harness hh; CHECK(sh->n < MAXOPS, "harness", "too many operations"); LOp &o = sh->op[sh->n]; o = LOp{ kind, a, b, 0, incarnation() - 1, seq(), ~0ULL, self(), false }; return sh->n++; }
static void end(int i, int64_t r) { Harness hh; LOp &o = sh->op[i]; o.r = r; o.ret = seq(); o.done = true; event("%s(%lld,%lld) -> %lld", opname(o.kind), (long long)o.a, (long long)o.b, (long long)r); }
// one value in four fills several pages of the database
static std::string text(int v) { std::string s = std::to_string(v); if (v % 4 == 0) s += " " + std::string(500 + v * 7919 % 9000, 'a' + v % 26); return s; }
static int64_t lookup(ConfigurationTable *t, const char *key)
{
	std::string s; try { s = SUT(t->getStr(key)); } catch (ConfigurationTableKeyNotFound &) { return -1; }
	int64_t v = atoll(s.c_str());
	CHECK(s == text(v) || s == "99", "garbled-value", "a value reads %.40s, %zu characters", s.c_str(), s.size());
	return v;
}
static ConfigurationTable *open_table() { Sut s; return new ConfigurationTable("/sim/conf.db", "sim", sim_schema()); }

static void run()
{
	swarm_schedule(); swarm_clock_phase();
	sh = shared<SharedHist>(); sh->next = 100;
	// one run in three: the disk also fails now and then
	bool trouble = draw(F, 3) == 0; DiskFaults d; memset(&d, 0, sizeof d);
	d.mean = 4 + draw(F, 80); d.burst = draw(F, 12); uint32_t kinds = 1 + draw(F, 31);
	d.read = kinds & 1; d.write = kinds & 2; d.sync = kinds & 4; d.full = kinds & 8; d.lock = kinds & 16;
	int phases = 1 + w(3);
	for (int ph = 0; ph < phases; ph++) {
		bool power = wp(1, 2); int nt = 1 + w(3), per = 1 + w(4); unsigned mean = 20 + w(400);
		int e = phase([=]() {
			arm_crash(mean, power);
			static ConfigurationTable *t; t = open_table();
			if (trouble) disk_faults(d);
			for (int i = 0; i < nt; i++) spawn("writer", [=]() {
				for (int j = 0; j < per; j++) {
					int a = w(NK), op = w(6);
					uint64_t f0 = disk_faults_fired();
					if (op < 4) {
						int v = sh->next++; std::string val = text(v); int k = begin(SET, a, v);
						if (SUT(t->set(keys[a], val))) { end(k, 1); count("op.set"); }
						else { CHECK(disk_faults_fired() != f0, "set-failed", "a set failed without any fault"); count("op.set_failed"); }	// stays open: made completely or not at all
					} else if (op == 4) {
						int k = begin(REMOVE, a, 0);
						if (SUT(t->remove(keys[a]))) { end(k, 1); count("op.remove"); }
						else { CHECK(disk_faults_fired() != f0, "remove-failed", "a remove failed without any fault"); count("op.remove_failed"); }
					} else { int k = begin(GET, a, 0); int64_t v = lookup(t, keys[a]); if (disk_faults_fired() != f0) sh->op[k].kind = SKIP; end(k, v); }
					if (wp(1, 5)) sim::sleep_us(w(4000000));
				}
			});
			join_all();
			disk_faults_off();
			if (wp(1, 2)) sim::sleep_us(1000);
			if (wp(1, 3)) crash(power);		// after everything was acknowledged
			disarm_crash();
		});
		count(e == PH_POWER ? "fault.power_failure" : e == PH_CRASH ? "fault.process_crash" : "op.clean_restart");
		int k;
		if (e == PH_POWER) { k = begin(UNDO, 0, 0); sh->op[k].r2 = ph; }
		k = begin(CRASH, ph, 0); sh->op[k].r2 = ph; end(k, 0);
	}
	// the survivor: everything is read back, then once more after the cache expired
	phase([=]() {
		ConfigurationTable *t = open_table();
		for (int a = 0; a < NK; a++) { int k = begin(GET, a, 0); end(k, lookup(t, keys[a])); }
		sim::sleep_us(4000000);
		for (int a = 0; a < NK; a++) { int k = begin(GET, a, 0); end(k, lookup(t, keys[a])); }
		int v = sh->next++; std::string val = text(v); int k = begin(SET, 0, v);
		bool r = SUT(t->set(keys[0], val)); end(k, r);
		CHECK(r, "set-failed", "the table cannot be changed after the crash");
	});
	// phases count from 0 in the model
	History h; for (int i = 0; i < sh->n; i++) h.ops.push_back(sh->op[i]);
	check_linearizable(h, Model(), opname);
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C15", "Configuration durability", run,
	"seeded run: up to three incarnations of a process with 1-3 threads set and remove keys in a table on the simulated disk; each is ended at a random I/O or scheduling point by a process crash or a power failure that loses any subset of unsynced pages, and in one run of three reads, writes, syncs and locks fail now and then; the history across incarnations is checked for linearizability where an interrupted change happened completely before the crash or never",
	"ConfigurationTable, sqlite3util, sqlite3 with its rollback journal, Mutex, Logger", "pthread, scheduler, clock, disk and crash below sqlite, heap", 12000, 600000);
