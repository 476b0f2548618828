// C17: database trouble is transient: it never invents, loses or freezes configuration values.
#include "common.h"
using namespace sim;

enum { SET, REMOVE, GET };
static const char *opname(int k) { static const char *n[] = { "set", "remove", "get" }; return n[k]; }
static const char *keys[] = { "Sim.Plain", "Sim.Defaulted", "Other.Key" };
enum { NK = 3, DEF = 99 };
struct Model {
	int64_t v[NK]; Model() { for (int i = 0; i < NK; i++) v[i] = -1; }
	std::string key() const { return std::string((const char *)v, sizeof v); }
	bool apply(const LOp &o)
	{
		int64_t &c = v[o.a];
		switch (o.kind) {
			case SET: c = o.b; return true;
			case REMOVE: c = -1; return true;
			case GET: return o.r == (c < 0 && o.a == 1 ? DEF : c);
		}
		return false;
	}
};
static ConfigurationTable *t; static History h; static int nextv; static std::vector<char> drop; static int64_t everset[NK][64]; static int nset[NK];

static int64_t get(ConfigurationTable *tb, int a, bool trouble_ok)
{
	int k = h.begin(GET, a); uint64_t f0 = disk_faults_fired();
	int64_t v = cfg_get(tb, keys[a]);
	h.end(k, v);
	bool known = v == (a == 1 ? DEF : -1); for (int i = 0; i < nset[a]; i++) known |= everset[a][i] == v;
	CHECK(known, "invented-value", "%s reads %lld, which was never its value", keys[a], (long long)v);
	// a lookup during which the disk failed may say default or undefined; any other must be right
	if (disk_faults_fired() != f0) {
		CHECK(trouble_ok, "harness", "faults are off");
		count("probe.lookup_in_trouble");
		if (v == (a == 1 ? DEF : -1)) { h.ops.resize(h.ops.size()); drop.resize(h.ops.size()); drop[k] = 1; count("probe.lookup_failed"); }
	}
	return v;
}
static void run()
{
	swarm_schedule(); swarm_clock_phase({ 3000 });
	{ Sut s; t = new ConfigurationTable("/sim/conf.db", "sim", sim_schema()); }
	nextv = 100;
	DiskFaults d; memset(&d, 0, sizeof d);
	d.mean = 2 + draw(F, 60); d.burst = draw(F, 12); uint32_t kinds = 1 + draw(F, 63);
	d.read = kinds & 1; d.write = kinds & 2; d.sync = kinds & 4; d.full = kinds & 8; d.open = kinds & 16; d.lock = kinds & 32; d.slow_us = draw(F, 2) ? 200000 : 0;
	int nt = 1 + w(3), per = 2 + w(5);
	disk_faults(d);
	for (int i = 0; i < nt; i++) spawn("user", [=]() {
		for (int j = 0; j < per; j++) {
			int a = w(NK), op = w(8);
			if (wp(1, 4)) sim::sleep_us(wp(1, 2) ? 3200000 : w(1000000));
			if (op < 3) {
				int v = nextv++; everset[a][nset[a]++] = v; char b[30]; snprintf(b, sizeof b, "%d", v);
				int k = h.begin(SET, a, v); uint64_t f0 = disk_faults_fired(); bool r = SUT(t->set(keys[a], std::string(b)));
				if (r) { h.end(k, r); count("op.set"); }
				else { CHECK(disk_faults_fired() != f0, "set-failed", "a set failed although the disk did not"); count("op.set_failed"); }	// stays open: it may or may not have happened
			} else if (op == 3) {
				int k = h.begin(REMOVE, a); uint64_t f0 = disk_faults_fired(); bool r = SUT(t->remove(keys[a]));
				if (r) { h.end(k, r); count("op.remove"); }
				else { CHECK(disk_faults_fired() != f0, "remove-failed", "a remove failed although the disk did not"); count("op.remove_failed"); }
			} else { get(t, a, true); count("op.get"); }
		}
	});
	join_all();
	disk_faults_off();
	for (int a = 0; a < NK; a++) get(t, a, false);		// not sticky: right at once
	if (wp(1, 2)) sim::sleep_us(3300000);
	for (int a = 0; a < NK; a++) get(t, a, false);
	ConfigurationTable *t2 = SUT(new ConfigurationTable("/sim/conf.db", "sim2", sim_schema()));	// what is stored is what is seen
	for (int a = 0; a < NK; a++) get(t2, a, false);
	{
		int a = w(NK), v = nextv++; everset[a][nset[a]++] = v; char b[30]; snprintf(b, sizeof b, "%d", v);
		int k = h.begin(SET, a, v); bool r = SUT(t->set(keys[a], std::string(b))); h.end(k, r);
		CHECK(r, "set-failed", "the table cannot be changed after the trouble ended");
		sim::sleep_us(3300000);
		get(t, a, false); get(t2, a, false);
	}
	History q; drop.resize(h.ops.size()); for (size_t i = 0; i < h.ops.size(); i++) if (!drop[i]) q.ops.push_back(h.ops[i]);
	check_linearizable(q, Model(), opname);
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C17", "Configuration under database faults", run,
	"seeded run: 1-3 threads set, remove and look up three keys while reads, writes, syncs, opens and locks of the simulated disk fail singly or in bursts, or syncs are slow; lookups untouched by a fault, everything after the faults stop, and a second table on the same database must be explained by one order of the changes that were acknowledged and any of those that were refused",
	"ConfigurationTable, sqlite3util retry logic, sqlite3 error handling and rollback", "pthread, scheduler, clock, disk below sqlite with injected errors, heap", 14000, 800000);
