// C07: the mutex excludes, recurses, and tells the truth about failed and timed attempts.
#include "common.h"
using namespace sim;

enum { LOCK, TRY, TIMED, UNLOCK };
static const char *opname(int k) { static const char *n[] = { "lock", "trylock", "timedlock", "unlock" }; return n[k]; }
struct Model {
	int owner, depth; Model() : owner(-1), depth(0) {}
	std::string key() const { return std::string(1, (char)(owner + 1)) + (char)depth; }
	bool apply(const LOp &o)
	{
		bool mine = owner == o.tid, fr = owner < 0;
		switch (o.kind) {
			case LOCK: if (!fr && !mine) return false; owner = o.tid; depth++; return true;
			case TRY: case TIMED:
				if (!o.done) return false;
				if (o.r) { if (!fr && !mine) return false; owner = o.tid; depth++; return true; }
				return !fr && !mine;	// refused only while somebody else holds it
			case UNLOCK: if (!mine || !depth) return false; if (!--depth) owner = -1; return true;
		}
		return false;
	}
};
static Mutex *m[2]; static History h[2];
static int owner[2], depth[2]; static std::string where[2]; static int64_t freed[2]; static int entering[2];		// when it became free; requests under way
 static long shared_val[2]; static int64_t expect[2];
enum { SLACK = 1500 };

static bool acquire(int i, int how, int tmo, const char *file)
{
	int k = h[i].begin(how == 2 ? TRY : how == 3 ? TIMED : LOCK, tmo);
	bool ok = true; int64_t t0 = mono_us(); std::string at;
	size_t con0 = console().size(), sys0 = syslog_recs().size();
	entering[i]++;
	{ Sut s;
		switch (how) {
			case 0: at = " ?"; m[i]->lock(); break;
			case 1: at = std::string(" ") + file + ":7"; m[i]->lock(file, 7); break;
			case 2: at = " ?"; if (wp(1, 2)) ok = m[i]->trylock(); else { ok = m[i]->trylock(file, 8); at = std::string(" ") + file + ":8"; } break;
			case 3: at = " ?"; ok = m[i]->timedlock(tmo); break;
		}
	}
	int64_t el = mono_us() - t0;
	if (ok) {
		CHECK(owner[i] < 0 || owner[i] == self(), "exclusion", "two threads are inside mutex %d (%s)", i, how == 0 ? "lock" : how == 1 ? "lock with position" : how == 2 ? "trylock" : "timedlock");
		owner[i] = self(); depth[i]++;
		int n = SUT(m[i]->lockcnt());
		CHECK(n == depth[i], "lock-count", "lock count is %d while it is locked %d times", n, depth[i]);
		// the description of a held mutex names how often and where it was locked, as far down as it remembers
		if (depth[i] == 1) where[i].clear();
		if (depth[i] <= 5) {
			where[i] += at;
			std::string text = SUT(m[i]->mutext()), want = "lockcnt=" + std::to_string(n) + where[i];
			CHECK(text == want, "wrong-description", "a mutex that is \"%s\" is described as \"%s\"", want.c_str(), text.c_str());
		}
	}
	entering[i]--; h[i].end(k, ok);
	count(ok ? "op.acquired" : "op.refused");
	if (how == 3 && !ok) CHECK(el >= (int64_t)tmo * 1000 - SLACK, "early-timeout", "a %d ms timed lock gave up after %lld us", tmo, (long long)el);
	if (how == 3 && !ok && !cfg.stall_mean) CHECK(el <= (int64_t)tmo * 1000 + 150000, "late-timeout", "a %d ms timed lock gave up after %lld us", tmo, (long long)el);
	if (how == 3 && !ok && !cfg.stall_mean && owner[i] < 0 && !entering[i] && tmo >= 100) CHECK(freed[i] > t0 + tmo * 500LL, "refused-free", "a %d ms timed lock gave up although the mutex was free for the last %lld us", tmo, (long long)(mono_us() - freed[i]));
	if (how == 1 && !cfg.stall_mean) {
		bool own = false;
		for (size_t q = sys0; q < syslog_recs().size(); q++) own |= syslog_recs()[q].fid == self() && syslog_recs()[q].prio <= 3 && syslog_recs()[q].text.find(file) != std::string::npos;
		bool warned = own || console().find(file, con0) != std::string::npos;		// on the console it may be another request blocked by this one
		if (el > 1150000) { CHECK(warned, "missing-warning", "a lock request waited %lld us and nothing was reported", (long long)el); count("op.long_wait"); }
		if (el < 990000) CHECK(!own, "false-warning", "a lock request that waited %lld us was reported as blocked for more than a second", (long long)el);
	}
	return ok;
}
static void release(int i)
{
	CHECK(owner[i] == self(), "exclusion", "mutex %d changed hands while it was held", i);
	int k = h[i].begin(UNLOCK);
	if (!--depth[i]) owner[i] = -1;
	SUTV(m[i]->unlock());
	freed[i] = mono_us();
	h[i].end(k);
}
// the holder waits for a signal: the mutex is free meanwhile and held as before afterwards
static Signal *sig[2];
static void give_up(int i)
{
	CHECK(owner[i] == self() && depth[i] == 1, "exclusion", "mutex %d changed hands while it was held", i);
	std::string at = where[i];
	int k = h[i].begin(UNLOCK), k2 = h[i].begin(LOCK);
	depth[i] = 0; owner[i] = -1; entering[i]++;
	{ Sut s; sig[i]->wait(*m[i], 1 + w(20)); }
	CHECK(owner[i] < 0, "exclusion", "two threads are inside mutex %d (after a wait)", i);
	entering[i]--; owner[i] = self(); depth[i] = 1; where[i] = at;
	h[i].end(k); h[i].end(k2, 1);
	int n = SUT(m[i]->lockcnt());
	CHECK(n == 1, "lock-count", "lock count is %d after a wait with a mutex that was locked once", n);
	std::string text = SUT(m[i]->mutext()), want = "lockcnt=1" + at;
	CHECK(text == want, "wrong-description", "after a wait a mutex that is \"%s\" is described as \"%s\"", want.c_str(), text.c_str());
	count("op.wait");
}
// much longer and much deeper than usual
static void extremes()
{
	static const int tm[] = { 0, 1, 4999, 10001, 30000, 70000, 130000, 700000 };
	if (cfg.tick_us > 20) cfg.tick_us = 20;
	static int hold; hold = 5 + w(400); static bool held; held = false;
	spawn("keeper", [=]() {
		int deep = 1 + w(wp(1, 2) ? 20 : 700);
		for (int r = 0; r < deep; r++) { bool ok = true; if (!r) SUTV(m[0]->lock()); else if (wp(1, 3)) ok = SUT(m[0]->trylock("deep.x", r)); else if (wp(1, 2)) ok = SUT(m[0]->timedlock(1 + w(50))); else SUTV(m[0]->lock()); CHECK(ok, "recursion", "the holder of a mutex could not lock it again"); }
		int n = SUT(m[0]->lockcnt()); std::string text = SUT(m[0]->mutext());
		CHECK(n == deep, "lock-count", "lock count is %d while it is locked %d times", n, deep);
		CHECK(text.find("lockcnt=" + std::to_string(deep) + " ") == 0, "wrong-description", "a mutex locked %d times is described as \"%s\"", deep, text.c_str());
		owner[0] = self(); held = true;
		for (int s = 0; s < hold; s += 50) sim::sleep_us(1000000LL * std::min(50, hold - s) + 1);
		for (int r = 0; r < deep; r++) {
			if (r == deep - 1 || wp(1, 4)) { bool mine = SUT(m[0]->lockcnt()) == deep - r; CHECK(mine, "lock-count", "the lock count does not follow the locks"); }
			if (r == deep - 1) owner[0] = -1;
			SUTV(m[0]->unlock());
		}
		count("op.deep");
	});
	for (int t = 1 + w(3); t--;) spawn("waiter", [=]() {
		for (int j = 0; j < 2; j++) {
			if (wp(1, 2)) sim::sleep_us(w(3000000));
			int tmo = tm[w(8)]; int64_t t0 = mono_us(); bool ok = SUT(m[0]->timedlock(tmo)); int64_t el = mono_us() - t0;
			if (ok) {
				CHECK(owner[0] < 0, "exclusion", "two threads are inside mutex 0 (long wait)"); owner[0] = self();
				if (wp(1, 2)) sim::yield();
				owner[0] = -1; SUTV(m[0]->unlock()); count("op.long_acquired");
			}
			else {
				CHECK(el >= (int64_t)tmo * 1000 - SLACK, "early-timeout", "a %d ms timed lock gave up after %lld us", tmo, (long long)el);
				if (!cfg.stall_mean) CHECK(el <= (int64_t)tmo * 1000 + 150000, "late-timeout", "a %d ms timed lock gave up after %lld us", tmo, (long long)el);
				count("op.long_refused");
			}
		}
	});
	join_all();
}
static void run()
{
	swarm_schedule(); swarm_clock_phase({ 1, 5, 20, 100, 999, 1000 });
	capture_streams(true);
	if (wp(1, 3)) gMutexLogLevel = 7;	// lock tracing on
	int nm = 1 + w(2), nt = 2 + w(3), per = 2 + w(4);
	for (int i = 0; i < nm; i++) { m[i] = SUT(new Mutex); sig[i] = SUT(new Signal); owner[i] = -1; }
	bool longhold = wp(1, 4);
	for (int t = 0; t < nt; t++) {
		char nm_[20]; snprintf(nm_, sizeof nm_, "user%d", t);
		spawn(nm_, [=]() {
			static const int tm[] = { 1, 2, 5, 20, 100, 999, 1000, 1500, 0 };
			char file[20]; snprintf(file, sizeof file, "user-%d.x", t);
			for (int j = 0; j < per; j++) {
				int i = w(nm), how = w(4);
				if (wp(1, 8)) {		// released when a scope ends by an exception
					int k = h[i].begin(LOCK); entering[i]++;
					try {
						Sut s; bool named = wp(1, 2); char room[sizeof(ScopedLock)] __attribute__((aligned(16)));
						struct End { ScopedLock *l; ~End() { l->~ScopedLock(); } } end = { named ? new (room) ScopedLock(*m[i], "scoped.x", 9) : new (room) ScopedLock(*m[i]) };
						if (named) { std::string d = m[i]->mutext(); Harness hh; CHECK(d == "lockcnt=1 scoped.x:9", "wrong-description", "a mutex locked once at scoped.x:9 is described as \"%s\"", d.c_str()); }
						{ Harness hh; CHECK(owner[i] < 0, "exclusion", "two threads are inside mutex %d (scoped)", i); owner[i] = self(); depth[i]++; h[i].end(k); entering[i]--; sim::yield(); k = h[i].begin(UNLOCK); owner[i] = -1; depth[i]--; }
						throw 1;
					} catch (int) {}
					freed[i] = mono_us(); h[i].end(k); count("op.scoped_throw");
					continue;
				}
				if (!acquire(i, how, tm[w(9)], file)) continue;
				if (wp(1, 6)) give_up(i);
				int rec = wp(1, 3) ? 1 + (int)w(7) : 0, got = 1;
				for (int r = 0; r < rec; r++) {
					bool ok = acquire(i, w(4), tm[w(4)], file);
					CHECK(ok, "recursion", "the holder of a mutex could not lock it again");
					got++;
				}
				long v = SUT(shared_val[i]);
				if (wp(1, 2)) sim::yield();
				if (wp(1, 3)) sim::sleep_us(longhold ? (int)w(2400000) : (int)w(8000));
				SUTV(shared_val[i] = v + 1); expect[i]++;
				if (nm == 2 && i == 0 && wp(1, 4) && acquire(1, 2, 0, file)) release(1);
				while (got--) release(i);
			}
		});
	}
	join_all();
	if (wp(1, 8)) extremes();
	for (int i = 0; i < nm; i++) {
		CHECK(shared_val[i] == expect[i], "lost-update", "%lld protected increments left %ld", (long long)expect[i], shared_val[i]);
		check_linearizable(h[i], Model(), opname);
		int n = SUT(m[i]->lockcnt());
		CHECK(n == 0, "lock-count", "lock count is %d after everything was unlocked", n);
		bool ok = SUT(m[i]->trylock());
		CHECK(ok, "left-locked", "mutex %d is still locked after every holder released it", i);
		SUTV(m[i]->unlock());
		SUTV(delete m[i]); SUTV(delete sig[i]);
	}
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C07", "Mutex", run,
	"seeded run: 2-4 threads mix lock, reporting lock, waits for a signal, trylock, timedlock, scoped lock left by exception and up to eightfold recursion on 1-2 mutexes, some held for seconds, sometimes for minutes or hundreds deep; history checked for linearizability against an owner-and-depth model, timeouts and the one-second report against simulated time",
	"Mutex, ScopedLock, Signal, Timeval, backtrace formatting", "pthread mutex, scheduler, clock, syslog, heap", 46000, 2000000);
