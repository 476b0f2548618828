// C16: a change made by another process is seen within seconds, whatever else is looked up and
// however the clock is set; values never go back.
#include "common.h"
using namespace sim;

enum { NK = 2, FRESH = 4100000 };
static const char *keys[] = { "Sim.Plain", "Sim.Defaulted" };
static ConfigurationTable *ext, *mine[2], *other;
struct Version { int64_t v; uint64_t begun; int64_t acked; };		// acked 0: still being written
static std::vector<Version> ver[NK];		// what the other process stored, in its order
static int wgen, writing; static bool stop; static int nextv;

static void run()
{
	swarm_schedule(); swarm_clock_phase({ 3000 });
	cfg.stall_mean = 0;
	bool jumps = wp(1, 2), own = wp(1, 2);
	int nt = 1 + w(2), readers = 1 + w(2), writes = 1 + w(3);
	{ Sut s; ext = new ConfigurationTable("/sim/conf.db", "ext", sim_schema()); for (int i = 0; i < nt; i++) mine[i] = new ConfigurationTable("/sim/conf.db", "sim", sim_schema()); other = new ConfigurationTable(":memory:", "oth", sim_schema()); }
	for (int a = 0; a < NK; a++) ver[a].push_back({ a ? 99 : -1, 0, 1 });
	nextv = 100;
	spawn("external", [=]() {
		for (int i = 0; i < writes; i++) {
			sim::sleep_us(w(7000000));
			int a = w(NK); bool away = ver[a].back().v >= 100 && wp(1, 3); int v = away ? (a ? 99 : -1) : nextv++; char b[30]; snprintf(b, sizeof b, "%d", v);
			ver[a].push_back({ v, seq(), 0 }); writing++; wgen++;
			bool r;
			do { r = away ? SUT(ext->remove(keys[a])) : SUT(ext->set(keys[a], std::string(b))); if (!r) { count("op.set_busy"); sim::sleep_us(1000); } } while (!r);
			writing--; ver[a].back().acked = mono_us(); count(away ? "op.external_remove" : "op.external_set");
			event("external %s=%d", keys[a], v);
		}
		sim::sleep_us(wp(1, 2) ? FRESH + 2500000 : w(9000000));
		stop = true;
	});
	for (int r = 0; r < readers; r++) spawn("reader", [=]() {
		size_t seen[2][NK]; memset(seen, 0, sizeof seen); int64_t last = -1;
		bool busy = wp(1, 3); int gap = busy ? 20000 : 1500000; std::string mykey = "Own.Key" + std::to_string(r);
		while (!stop) {
			int i = w(nt), a = w(NK);
			int64_t t0 = mono_us(); size_t lo = 0;
			for (size_t j = 1; j < ver[a].size(); j++) { const Version &x = ver[a][j]; if (x.acked && t0 - x.acked >= FRESH) lo = j; }
			int64_t v; int g0 = wgen; bool contended = writing;
			switch (w(5)) {
				case 0: if (a == 1) { v = SUT(mine[i]->getNum(keys[a])); break; } goto plain;
				case 1: if (a == 1) { std::vector<unsigned> x = SUT(mine[i]->getVector(keys[a])); v = x.size() == 1 ? x[0] : -2; break; } goto plain;
				case 2: if (a == 0 && !SUT(mine[i]->defines(keys[a]))) { v = -1; break; } goto plain;
				default: plain: v = cfg_get(mine[i], keys[a]);
			}
			contended |= writing || wgen != g0;
			count("op.lookup");
			int64_t dflt = a ? 99 : -1; size_t top = ver[a].size(), j = lo > seen[i][a] ? lo : seen[i][a];
			while (j < top && ver[a][j].v != v) j++;
			if (lo) count("probe.due_lookup");
			if (j < top) seen[i][a] = j;
			else if (!(contended && v == dflt)) {		// the database may have been busy
				size_t any = 0; while (any < top && ver[a][any].v != v) any++;
				CHECK(any < top, "value-from-nowhere", "a lookup of %s returned %lld which nobody has set", keys[a], (long long)v);
				CHECK(any >= lo, "stale-value", "a lookup of %s returned %lld, more than four seconds after another process had stored %lld", keys[a], (long long)v, (long long)ver[a][lo].v);
				CHECK(false, "value-went-back", "%s went back to %lld", keys[a], (long long)v);
			}
			if (own && wp(1, busy ? 40 : 3)) {		// this process changes keys of its own meanwhile
				int64_t x = wp(1, 4) ? -1 : nextv++; char b[30]; snprintf(b, sizeof b, "%lld", (long long)x); int g = wgen; bool c = writing;
				bool ok = x < 0 ? SUT(mine[i]->remove(mykey)) : SUT(mine[i]->set(mykey, std::string(b)));
				if (ok) last = x;
				else if (nt == 1) { last = -3; }
				if (nt == 1 && last != -3) { g = wgen; c = writing; int64_t y = cfg_get(mine[i], mykey); CHECK(y == last || (y == -1 && (c || writing || g != wgen || readers > 1)), "own-change", "%s reads %lld after this process made it %lld", mykey.c_str(), (long long)y, (long long)last); }
				CHECK(ok || c || writing || g != wgen || readers > 1, "own-change", "a change was refused although nobody else had the database");
				count(ok ? "op.own_change" : "op.own_change_refused");
			}
			if (wp(1, 2)) (void)SUT(other->getStr("Sim.Defaulted"));
			sim::sleep_us(w(gap));
		}
	});
	if (jumps) spawn("clock", [=]() {
		while (!stop) {
			sim::sleep_us(w(4000000));
			int64_t d = wp(1, 2) ? (int64_t)w(5000000) : (int64_t)w(2000000) * 1800;
			if (wp(1, 2)) { d = -d; count("fault.clock_back"); } else count("fault.clock_forward");
			jump_wall(d);
		}
	});
	join_all();
	// quiet at last: every table agrees within seconds
	sim::sleep_us(FRESH);
	for (int i = 0; i < nt; i++) for (int a = 0; a < NK; a++) {
		int64_t v = cfg_get(mine[i], keys[a]);
		CHECK(v == ver[a].back().v, "stale-value", "long after the last change %s reads %lld instead of %lld", keys[a], (long long)v, (long long)ver[a].back().v);
	}
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C16", "External configuration changes", run,
	"seeded run: one process sets and removes two keys through its own table while 1-2 tables on the same database, in use by 1-2 threads at random rates nextv to lookups in an unrelated table and changes of their own to other keys, are read; the wall clock is stepped forward and back in half the runs; values may not be stale for more than about four seconds, may not go back and may not be invented",
	"ConfigurationTable and its cache, sqlite3util, sqlite3 with file locking", "pthread, scheduler, clock, disk below sqlite, heap", 6000, 600000);
