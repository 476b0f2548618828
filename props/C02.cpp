// C02: blocking reads always wake for an available element; timed reads are honest about time and content.
#include "sim.h"
#include "Interthread.h"
#include <stdio.h>
using namespace sim;

struct Plain { int id; Plain(int i) : id(i) {} bool operator>(const Plain &o) const { return id > o.id; } };
struct Node : SingleLinkListNode { int id; Node(int i) : id(i) {} Node *next() { return (Node *)mNext; } };

struct AQueue { typedef Plain I; enum { keyed = 0 }; InterthreadQueue<Plain> q; void write(int, I *x) { q.write(x); } I *read(int) { return q.read(); } I *readt(int, unsigned t) { return q.read(t); } static const char *name() { return "queue"; } };
struct AList { typedef Node I; enum { keyed = 0 }; InterthreadQueue<Node, SingleLinkList<Node> > q; void write(int, I *x) { q.write(x); } I *read(int) { return q.read(); } I *readt(int, unsigned t) { return q.read(t); } static const char *name() { return "linked queue"; } };
struct AWait { typedef Plain I; enum { keyed = 0 }; InterthreadQueueWithWait<Plain> q; void write(int, I *x) { q.write(x); } I *read(int) { return q.read(); } I *readt(int, unsigned t) { return q.read(t); } static const char *name() { return "queue with wait"; } };
struct APrio { typedef Plain I; enum { keyed = 0 }; InterthreadPriorityQueue<Plain> q; void write(int, I *x) { q.write(x); } I *read(int) { return q.read(); } I *readt(int, unsigned t) { return q.read(t); } static const char *name() { return "priority queue"; } };
struct AFront { typedef Plain I; enum { keyed = 0 }; InterthreadQueue<Plain> q; void write(int, I *x) { q.write_front(x); } I *read(int) { return q.read(); } I *readt(int, unsigned t) { return q.read(t); } static const char *name() { return "queue written at the front"; } };
struct AMap { typedef Plain I; enum { keyed = 1 }; InterthreadMap<int, Plain> q; void write(int k, I *x) { q.write(k, x); } I *read(int k) { I *r = 0; q.get(k, r); return r; } I *readt(int k, unsigned t) { I *r = 0; return q.get(k, r, t) ? r : 0; } I *peek(int k) { return q.read(k); } I *peekt(int k, unsigned t) { return q.read(k, t); } static const char *name() { return "map"; } };
struct AMap1 { typedef Plain I; enum { keyed = 1 }; InterthreadMap1<int, Plain *> q; void write(int k, I *x) { q.write(k, x); } I *read(int k) { I *r = 0; q.get(k, r); return r; } I *readt(int k, unsigned t) { I *r = 0; return q.get(k, r, t) ? r : 0; } I *peek(int k) { return q.read(k); } I *peekt(int k, unsigned t) { return q.read(k, t); } static const char *name() { return "general map"; } };

static const unsigned tmos[] = { 1, 2, 3, 5, 10, 30, 100, 250, 999, 1000, 1001, 2500, 60000, 2147484000u, 3000000000u };
enum { SLACK = 3000 };	// the reads document a precision of two milliseconds

struct Wr { int key; int64_t end; uint64_t eseq; };
struct Rd { int key; uint64_t b; bool got; };
static std::vector<Wr> writes; static std::vector<Rd> reads; static bool prompt;

static void empty_check(int key, unsigned tmo, int64_t t0, uint64_t retseq, bool single)
{
	int64_t el = mono_us() - t0;
	count("op.timed_out");
	CHECK(el >= (int64_t)tmo * 1000 - SLACK, "early-timeout", "a read with a %u ms timeout came back empty after %lld us", tmo, (long long)el);
	if (prompt) CHECK(el <= (int64_t)tmo * 1000 + 200000, "late-timeout", "a read with a %u ms timeout came back empty after %lld us", tmo, (long long)el);
	// anything whose write had finished before the deadline and that no other reader can have taken was missed
	int64_t limit = t0 + (int64_t)tmo * 1000 - SLACK;
	int avail = 0;
	for (auto &x : writes) if (x.key == key && x.end && x.end < limit) avail++;
	for (auto &r : reads) if (r.key == key && r.b && (r.got || r.b < retseq)) avail--;
	CHECK(avail <= 0, "missed-element", "a read with a %u ms timeout came back empty although %d element(s) were there before the timeout", tmo, avail);
}

// elements that come and go wake the readers for nothing
template <class A> static void churn(A *a, int key)
{
	typedef typename A::I I; int n = 1 + w(8);
	spawn("churner", [=]() {
		for (int i = 0; i < n; i++) {
			sim::sleep_us(tmos[w(12)] * (100 + w(900)));
			I *x; { Sut s; x = new I(200 + i); }
			SUTV(a->write(key, x)); writes.push_back(Wr{ key, mono_us(), seq() });
			reads.push_back(Rd{ key, seq(), false }); size_t me = reads.size() - 1;
			x = SUT(a->readt(key, 0));
			if (x) { reads[me].got = true; SUTV(delete x); } else reads[me].b = 0;
			count("op.churn");
		}
	});
}
template <class A> static void fifo()
{
	typedef typename A::I I;
	static A *a; a = SUT(new A);
	static int nextid; nextid = 1;
	int nr = 1 + w(4), per = 1 + w(3), total = 0;
	struct Plan { int kind; unsigned tmo; };	// 0 blocking, 1 timed until success, 2 timed once
	for (int i = 0; i < nr; i++) {
		std::vector<Plan> plan;
		for (int k = 0; k < per; k++) { Plan p; p.kind = w(3); p.tmo = tmos[w(15)]; plan.push_back(p); total++; }
		char nm[20]; snprintf(nm, sizeof nm, "reader%d", i);
		spawn(nm, [=]() {
			for (auto &p : plan) for (int tries = 0;; tries++) {
				int64_t t0 = mono_us();
				reads.push_back(Rd{ 0, seq(), false }); size_t me = reads.size() - 1;
				unsigned tmo = tries > 3 ? 60000 : p.tmo;
				I *x = p.kind == 0 ? SUT(a->read(0)) : SUT(a->readt(0, tmo));
				if (x) { reads[me].got = true; count("op.read"); SUTV(delete x); break; }
				CHECK(p.kind != 0, "empty-blocking-read", "a blocking read came back empty");
				reads[me].b = 0;
				empty_check(0, tmo, t0, seq(), false);
				if (p.kind == 2) break;
			}
		});
	}
	if (wp(1, 3)) churn(a, 0);
	int nw = 1 + w(3); static int left; left = total;
	bool idle = wp(1, 3);
	for (int i = 0; i < nw; i++) {
		char nm[20]; snprintf(nm, sizeof nm, "writer%d", i);
		spawn(nm, [=]() {
			if (idle) sim::sleep_us(w(4) * 5000 + w(5000));
			while (left > 0) {
				left--;
				I *x; { Sut s; x = new I(nextid++); }
				SUTV(a->write(0, x));
				writes.push_back(Wr{ 0, mono_us(), seq() });
				count("op.write");
				if (wp(1, 4)) sim::sleep_us(tmos[w(11)] * 1000 - 500 + w(1000));
			}
		});
	}
	join_all();
	SUTV(delete a);
}
template <class A> static void keyed2()
{
	typedef typename A::I I;
	static A *a; a = SUT(new A);
	int nk = 1 + w(3);
	for (int k = 0; k < nk; k++) {
		bool taker = wp(1, 2); int n = taker ? 1 : 1 + w(3);
		for (int i = 0; i < n; i++) {
			bool timed = wp(1, 2); unsigned tmo = tmos[w(15)]; int times = taker ? 1 : 1 + w(2);
			spawn(taker ? "taker" : "reader", [=]() {
				for (int j = 0; j < times; j++) for (int tries = 0;; tries++) {
					int64_t t0 = mono_us(); unsigned t = tries > 3 ? 60000 : tmo;
					I *x = taker ? (timed ? SUT(a->readt(k, t)) : SUT(a->read(k))) : timed ? SUT(a->peekt(k, t)) : SUT(a->peek(k));
					if (x) { count("op.read"); CHECK(x->id == k + 100, "wrong-element", "key %d gave element %d", k, x->id); if (taker) SUTV(delete x); break; }
					CHECK(timed, "empty-blocking-read", "a blocking read came back empty");
					empty_check(k, t, t0, 0, true);
				}
			});
		}
	}
	if (wp(1, 3)) churn(a, 90);
	for (int i = 0; i < 1 + (int)(nk > 1); i++) spawn("writer", [=]() {
		for (int k = i; k < nk; k += 1 + (nk > 1)) {
			if (wp(1, 2)) sim::sleep_us(tmos[w(12)] * 1000 - 500 + w(1000));
			I *x; { Sut s; x = new I(k + 100); }
			SUTV(a->write(k, x));
			writes.push_back(Wr{ k, mono_us(), seq() });
			count("op.write");
		}
	});
	join_all();
	SUTV(delete a);
}
template <class A> static void lone(bool key)
{
	// nobody else is there: a timed read ends, soon after its timeout and not before it
	cfg.stall_mean = 0;
	A *a = SUT(new A); (void)key;
	for (int i = 0; i < 2; i++) {
		unsigned tmo = wp(1, 5) ? 0 : tmos[w(15)];
		int64_t t0 = mono_us();
		void *x = SUT(a->readt(7, tmo));
		int64_t el = mono_us() - t0;
		CHECK(!x, "phantom-element", "a read of an empty container returned something");
		CHECK(el >= (int64_t)tmo * 1000 - SLACK, "early-timeout", "a read with a %u ms timeout came back empty after %lld us", tmo, (long long)el);
		CHECK(el <= (int64_t)tmo * 1000 + 100000, "late-timeout", "a lone read with a %u ms timeout came back after %lld us", tmo, (long long)el);
		count("op.lone_timeout");
	}
	SUTV(delete a);
}
template <class A> static void both()
{
	event("container %s", A::name());
	if (wp(1, 6)) lone<A>(A::keyed); else fifo<A>();
}
template <class A> static void bothk()
{
	event("container %s", A::name());
	if (wp(1, 6)) lone<A>(true); else keyed2<A>();
}
static void run()
{
	swarm_schedule(); swarm_clock_phase({ 1, 2, 5, 10, 30, 100, 250, 999, 1000, 2500 });
	prompt = wp(1, 2); if (prompt) { cfg.stall_mean = 0; if (cfg.tick_us > 20) cfg.tick_us = 20; }
	switch (w(7)) {
		case 0: both<AQueue>(); break;
		case 1: both<AList>(); break;
		case 2: both<AWait>(); break;
		case 3: both<APrio>(); break;
		case 4: both<AFront>(); break;
		case 5: bothk<AMap>(); break;
		case 6: bothk<AMap1>(); break;
	}
	nontrivial();
}
static Prop p("C02", "No lost wake-ups and honest timeouts", run,
	"seeded run: 1-4 readers mixing blocking and timed reads against 1-3 writers on one of seven interthread containers, with stalls, late timers, spurious wake-ups and clock phases around second boundaries; a sleeping reader with an available element shows as a deadlock, timed reads are checked against simulated time; non-trivial when every reader ended",
	"InterthreadQueue, InterthreadQueueWithWait, InterthreadPriorityQueue, InterthreadMap, InterthreadMap1, Mutex, Signal, Timeval", "pthread mutex and condition variables, scheduler, clock, heap", 96000, 3000000);
