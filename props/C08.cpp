// C08: locking several mutexes at once holds all of them, never deadlocks, and restores what was held before.
#include "common.h"
using namespace sim;

static Mutex *m[4]; static Signal *sig[4]; static int owner[4]; static long val[4], expect[4];
static void enter(int i) { CHECK(owner[i] < 0, "exclusion", "two threads hold mutex %d", i); owner[i] = self(); }
static void leave(int i) { CHECK(owner[i] == self(), "exclusion", "mutex %d changed hands while it was held", i); owner[i] = -1; }
static bool free_now(int i)	// can somebody else take it right now? (asked from a fresh thread)
{
	static bool r; r = false;
	int f = spawn("probe", [=]() { Sut s; r = m[i]->trylock(); if (r) m[i]->unlock(); });
	join(f);
	return r;
}
static void work(const int *ix, int n)
{
	long v[3];
	for (int j = 0; j < n; j++) v[j] = SUT(val[ix[j]]);
	if (wp(1, 2)) sim::yield();
	if (wp(1, 3)) sim::sleep_us(w(5000));
	for (int j = 0; j < n; j++) { CHECK(owner[ix[j]] == self(), "exclusion", "mutex %d changed hands inside a multiple lock", ix[j]); SUTV(val[ix[j]] = v[j] + 1); expect[ix[j]]++; }
}
static void run()
{
	swarm_schedule(); swarm_clock_phase({ 1000 });
	capture_streams(true);
	if (wp(1, 4)) gMutexLogLevel = 7;
	int nm = 2 + w(3), nt = 2 + w(3), per = 1 + w(4);
	for (int i = 0; i < nm; i++) { m[i] = SUT(new Mutex); sig[i] = SUT(new Signal); owner[i] = -1; }
	bool named = wp(1, 4);
	for (int t = 0; t < nt; t++) {
		char nm_[20]; snprintf(nm_, sizeof nm_, "user%d", t);
		spawn(nm_, [=]() {
			for (int j = 0; j < per; j++) {
				if (wp(1, 5)) {		// a thread that takes a single one
					int i = w(nm); Sut s; ScopedLock l(*m[i]);
					Harness hh; enter(i); int ix[1] = { i }; work(ix, 1); leave(i);
					continue;
				}
				if (wp(1, 8)) {		// a thread that waits for a signal with one of the mutexes
					int i = w(nm); Sut s; ScopedLock l(*m[i]);
					{ Harness hh; enter(i); leave(i); }
					sig[i]->wait(*m[i], 1 + wp(1, 2) * w(40));
					Harness hh; enter(i);
					int c = SUT(m[i]->lockcnt());
					CHECK(c == 1, "lock-count", "mutex %d has lock count %d after a wait with it", i, c);
					int ix[1] = { i }; work(ix, 1); leave(i); count("op.wait");
					continue;
				}
				int n = nm > 2 && wp(1, 2) ? 3 : 2, ix[3];
				for (int a = 0; a < n; a++) { bool again; do { ix[a] = w(nm); again = false; for (int b = 0; b < a; b++) again |= ix[b] == ix[a]; if (again) for (ix[a] = 0;; ix[a]++) { again = false; for (int b = 0; b < a; b++) again |= ix[b] == ix[a]; if (!again) break; } } while (again); }
				int own = wp(1, 2) ? 1 + (int)w((1 << n) - 1) : 0;	// which of them the caller holds already
				if (own == (1 << n) - 1 && wp(3, 4)) own &= ~1;
				// a caller that holds several must itself have taken them without hazard: in index order, nothing else held
				int ord[3] = { 0, 1, 2 };
				for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (ix[ord[b]] < ix[ord[a]]) { int x = ord[a]; ord[a] = ord[b]; ord[b] = x; }
				for (int a = 0; a < n; a++) if (own >> ord[a] & 1) { SUTV(m[ix[ord[a]]]->lock()); enter(ix[ord[a]]); leave(ix[ord[a]]); }
				{
					Sut s;
					ScopedLockMultiple *l;
					char buf[sizeof(ScopedLockMultiple)] __attribute__((aligned(16)));
					if (n == 3) l = named ? new (buf) ScopedLockMultiple(own, *m[ix[0]], *m[ix[1]], *m[ix[2]], "multi.x", 5) : new (buf) ScopedLockMultiple(own, *m[ix[0]], *m[ix[1]], *m[ix[2]]);
					else l = named ? new (buf) ScopedLockMultiple(own, *m[ix[0]], *m[ix[1]], "multi.x", 5) : new (buf) ScopedLockMultiple(own, *m[ix[0]], *m[ix[1]]);
					{
						Harness hh;
						for (int a = 0; a < n; a++) enter(ix[a]);
						for (int a = 0; a < n; a++) { int c = SUT(m[ix[a]]->lockcnt()); CHECK(c == 1, "lock-count", "mutex %d has lock count %d inside a multiple lock", ix[a], c); }
						work(ix, n);
						for (int a = 0; a < n; a++) leave(ix[a]);
						if (own) for (int a = 0; a < n; a++) if (own >> a & 1) enter(ix[a]);
					}
					l->~ScopedLockMultiple();
				}
				count("op.multi");
				for (int a = 0; a < n; a++) if (own >> a & 1) {
					CHECK(owner[ix[a]] == self(), "not-restored", "mutex %d, held before the multiple lock, was lost to another thread after it", ix[a]);
					int c = SUT(m[ix[a]]->lockcnt());
					CHECK(c == 1, "not-restored", "mutex %d, held before the multiple lock, has lock count %d after it", ix[a], c);
					if (wp(1, 8)) CHECK(!free_now(ix[a]), "not-restored", "mutex %d, held before the multiple lock, is free after it", ix[a]);
					count("op.restored");
				}
				for (int a = 0; a < n; a++) if (own >> a & 1) { leave(ix[a]); SUTV(m[ix[a]]->unlock()); }
			}
		});
	}
	join_all();
	for (int i = 0; i < nm; i++) {
		CHECK(val[i] == expect[i], "lost-update", "%ld protected increments left %ld", expect[i], val[i]);
		CHECK(free_now(i), "left-locked", "mutex %d is still locked after every holder released it", i);
		int c = SUT(m[i]->lockcnt());
		CHECK(c == 0, "lock-count", "lock count is %d after everything was unlocked", c);
		SUTV(delete m[i]); SUTV(delete sig[i]);
	}
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C08", "Multiple lock", run,
	"seeded run: 2-4 threads lock random pairs and triples of 2-4 mutexes in random orders, half of them already holding some, next to single lockers and threads that wait for a signal with one of them; every acquisition is checked against an ownership map, a deadlock or an endless retry fails the run",
	"ScopedLockMultiple, ScopedLock, Mutex, Signal", "pthread mutex, scheduler, clock, syslog, heap", 80000, 2000000);
