// C09: the reader/writer lock.
#include "common.h"
using namespace sim;

enum { RL, WL, TR, TW, UN };
static const char *opname(int k) { static const char *n[] = { "rlock", "wlock", "tryrlock", "trywlock", "unlock" }; return n[k]; }
struct Model {
	int writer; unsigned char readers[8]; Model() : writer(-1) { memset(readers, 0, sizeof readers); }
	int any() const { int n = 0; for (int i = 0; i < 8; i++) n += readers[i]; return n; }
	std::string key() const { return std::string(1, (char)(writer + 1)) + std::string((const char *)readers, 8); }
	bool apply(const LOp &o)
	{
		unsigned char &me = readers[o.tid & 7];
		switch (o.kind) {
			case RL: if (writer >= 0) return false; me++; return true;
			case WL: if (writer >= 0 || any()) return false; writer = o.tid; return true;
			case TR: if (!o.r) return writer >= 0; if (writer >= 0) return false; me++; return true;
			case TW: if (!o.r) return writer >= 0 || any(); if (writer >= 0 || any()) return false; writer = o.tid; return true;
			case UN: if (writer == o.tid) writer = -1; else if (me) me--; else return false; return true;
		}
		return false;
	}
};
static RWLock *l; static History h; static int nread, nwrite, maxread; static long a, b, expect;
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	l = SUT(new RWLock);
	int nt = 2 + w(4), per = 2 + w(6);
	for (int t = 0; t < nt; t++) spawn("user", [=]() {
		for (int j = 0; j < per; j++) {
			int kind = w(4), k = h.begin(kind); bool ok = true;
			{ Sut s; switch (kind) { case RL: l->rlock(); break; case WL: l->wlock(); break; case TR: ok = l->tryrlock(); break; case TW: ok = l->trywlock(); break; } }
			bool wr = kind == WL || kind == TW;
			if (ok) {
				if (wr) { CHECK(!nwrite && !nread, "exclusion", "a writer got in next to %d writers and %d readers", nwrite, nread); nwrite++; }
				else { CHECK(!nwrite, "exclusion", "a reader got in next to a writer"); nread++; if (nread > 1) count("op.shared_readers"); }
			}
			h.end(k, ok);
			if (!ok) { count("op.refused"); if (wp(1, 3)) sim::sleep_us(w(3000)); continue; }
			count(wr ? "op.write_section" : "op.read_section");
			if (wr) { long v = SUT(a); if (wp(1, 2)) sim::yield(); if (wp(1, 4)) sim::sleep_us(w(4000)); SUTV(a = v + 1); SUTV(b = v + 1); expect++; }
			else { long x = SUT(a); if (wp(1, 2)) sim::yield(); if (wp(1, 4)) sim::sleep_us(w(4000)); long y = SUT(b); CHECK(x == y, "torn-read", "a reader saw a half finished update (%ld, %ld)", x, y); }
			int more = 0;
			if (!wr) while (wp(1, 5) && more < 3) {	// a reader may read again
				int kind2 = wp(1, 2) ? RL : TR, k2 = h.begin(kind2); bool ok2 = true;
				{ Sut s; if (kind2 == RL) l->rlock(); else ok2 = l->tryrlock(); }
				h.end(k2, ok2); CHECK(ok2, "readers-excluded", "a reader was refused although only readers hold the lock"); more++; count("op.read_again");
				if (wp(1, 3)) sim::sleep_us(w(2000));
			}
			while (more--) { int k2 = h.begin(UN); SUTV(l->unlock()); h.end(k2); }
			if (wr) nwrite--; else nread--;
			k = h.begin(UN);
			SUTV(l->unlock());
			h.end(k);
		}
	});
	join_all();
	CHECK(a == expect, "lost-update", "%ld protected increments left %ld", expect, a);
	check_linearizable(h, Model(), opname);
	bool ok = SUT(l->trywlock());
	CHECK(ok, "left-locked", "the lock is still held after everybody released it");
	SUTV(l->unlock());
	// readers really share: a second reader is not kept out by the first
	SUTV(l->rlock());
	static bool in; int f = spawn("reader2", [=]() { SUTV(l->rlock()); in = true; SUTV(l->unlock()); });
	while (!sim::done(f)) {
		CHECK(!sim::blocked(f), "readers-excluded", "a reader waits although only another reader holds the lock");
		sim::yield();
	}
	CHECK(in, "readers-excluded", "the second reader did not get in");
	SUTV(l->unlock());
	SUTV(delete l);
	nontrivial();
}
static Prop p("C09", "Reader/writer lock", run,
	"seeded run: 2-5 threads mix blocking and trying read and write sections on one lock; history checked for linearizability against a readers-and-writer model, data consistency inside sections, and a final sharing test",
	"RWLock", "pthread rwlock (reader preference, as the library's default attributes give), scheduler, clock, heap", 96000, 3000000);
