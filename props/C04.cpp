// C04: the queue with a low-water wait: linearizable FIFO, waiters leave when and only when the queue is low enough.
#include "sim.h"
#include "lin.h"
#include "Interthread.h"
#include <deque>
#include <stdio.h>
using namespace sim;

enum { WRITE, READ, READT, READNB, SIZE, CLEAR, WAIT };
static const char *opname(int k) { static const char *n[] = { "write", "read", "read_timed", "readNoBlock", "size", "clear", "wait" }; return n[k]; }
struct Model {
	std::deque<int> q;
	std::string key() const { std::string s; for (int x : q) s += (char)x; return s; }
	bool apply(const LOp &o)
	{
		switch (o.kind) {
			case WRITE: q.push_back(o.a); return true;
			case READ: if (q.empty() || (o.done && o.r != q.front())) return false; q.pop_front(); return true;
			case READT: case READNB:
				if (!o.done) { if (!q.empty()) q.pop_front(); return true; }
				if (o.r == 0) return o.kind == READT ? true : q.empty();
				if (q.empty() || q.front() != o.r) return false; q.pop_front(); return true;
			case SIZE: return !o.done || o.r == (int)q.size();
			case CLEAR: q.clear(); return true;
			case WAIT: return (int)q.size() <= o.a;
		}
		return false;
	}
};
static int destroyed[256], taken[256], nextid;
struct Item { int id; Item(int i) : id(i) {} ~Item() { destroyed[id & 255]++; } };
typedef InterthreadQueueWithWait<Item> Q;
static Q *q; static History h; static Item *own[256];

static void put()
{
	int id = ++nextid; Item *x; { Sut s; x = new Item(id); }
	own[id] = x;
	int k = h.begin(WRITE, id); SUTV(q->write(x)); h.end(k); count("op.write");
}
static int take(int kind, int tmo)
{
	int k = h.begin(kind, tmo);
	Item *x = kind == READ ? SUT(q->read()) : kind == READT ? SUT(q->read((unsigned)tmo)) : SUT(q->readNoBlock());
	int id = 0;
	if (x) {
		CHECK(heap_live(x), "stale-element", "a read returned an element that is not alive");
		id = x->id;
		CHECK(id > 0 && id <= nextid && own[id] == x, "foreign-element", "a read returned something never written");
		CHECK(!taken[id]++, "duplicate-delivery", "element %d was delivered twice", id);
	}
	h.end(k, id);
	count(id ? "op.read" : "op.read_empty");
	return id;
}
static void run()
{
	swarm_schedule(); swarm_clock_phase({ 5, 10, 30 });
	q = SUT(new Q);
	int nprod = 1 + w(2), nwait = 1 + w(3), ncons = 1 + w(2), per = 2 + w(4);
	static int prod_done; bool use_clear = wp(1, 5), throttle = wp(1, 2);
	int keep = wp(1, 3) ? 1 + w(2) : 0; static int budget; budget = nprod * per - keep;	// the queue falls to this many elements and stays there
	if (keep) use_clear = false;
	for (int i = 0; i < nprod; i++) spawn("producer", [=]() {
		for (int k = 0; k < per; k++) {
			put();
			if (throttle && wp(1, 2)) { int lim = keep + 1 + w(3), o = h.begin(WAIT, lim); SUTV(q->wait(lim)); h.end(o); count("op.wait"); }
			else if (wp(1, 5)) sim::sleep_us(w(4000));
		}
		prod_done++;
	});
	for (int i = 0; i < nwait; i++) spawn("waiter", [=]() {
		for (int k = 0; k < 1 + (int)w(2); k++) {
			if (wp(1, 3)) sim::sleep_us(w(3000));
			int lim = keep + w(3), o = h.begin(WAIT, lim); SUTV(q->wait(lim)); h.end(o); count("op.wait");
		}
	});
	// each consumer drains in its own manner until everything was produced and the queue is empty
	for (int i = 0; i < ncons; i++) {
		int style = w(3);
		if (keep) spawn("consumer", [=]() {
			while (budget > 0) {
				budget--;
				for (;;) { if (take(style == 2 ? READ : style == 1 ? READT : READNB, style == 1 ? 1 + w(20) : 0)) break; sim::sleep_us(500 + w(3000)); }
				if (wp(1, 3)) sim::sleep_us(w(3000));
				if (h.ops.size() > 110) { while (budget > 0) { budget--; while (!take(READNB, 0)) sim::sleep_us(5000); } }
			}
		});
		else spawn("consumer", [=]() {
			for (int tries = 0; tries < 60; tries++) {
				int n = 0;
				if (style == 0) n = take(READNB, 0);
				else if (style == 1) n = take(READT, wp(1, 5) ? 0 : 1 + w(20));
				else { int o = h.begin(SIZE); int s = SUT((int)q->size()); h.end(o, s); if (s > 0) n = take(ncons == 1 && !use_clear ? READ : READNB, 0); }
				if (!n) {
					if (prod_done == nprod) break;
					sim::sleep_us(500 + w(3000));
				}
				if (h.ops.size() > 110) break;
			}
			for (;;) { if (prod_done == nprod) { if (!take(READNB, 0)) break; } else sim::sleep_us(5000); }
		});
	}
	if (use_clear) spawn("clearer", [=]() { sim::sleep_us(w(5000)); int o = h.begin(CLEAR); SUTV(q->clear()); h.end(o); count("op.clear"); });
	join_all();
	while (take(READNB, 0)) {}
	h.hint([](const LOp &o) { return o.kind == WRITE ? o.a : 0; }, [](const LOp &o) { return o.kind == READ || o.kind == READT || o.kind == READNB ? o.r : 0; });
	check_linearizable(h, Model(), opname);
	int lost = 0;
	for (int i = 1; i <= nextid; i++) {
		CHECK(destroyed[i] <= 1, "double-destroy", "element %d was destroyed %d times", i, destroyed[i]);
		CHECK(!(taken[i] && destroyed[i]), "delivered-and-destroyed", "element %d was delivered and also destroyed by the queue", i);
		if (!taken[i] && !destroyed[i]) lost++;
	}
	CHECK(!lost, "lost-element", "%d written elements were neither delivered nor destroyed", lost);
	int first = nextid + 1, left = w(3);
	for (int i = 0; i < left; i++) put();
	SUTV(delete q);
	for (int i = first; i <= nextid; i++) CHECK(destroyed[i] == 1, "destructor-leak", "element %d left in the queue was destroyed %d times by the queue's destructor", i, destroyed[i]);
	nontrivial();
}
static Prop p("C04", "Queue with low-water wait", run,
	"seeded run: 1-2 producers (half of them throttling on the low-water wait), 1-3 threads waiting for low water, 1-2 consumers, optional clear; history checked for linearizability against a deque in which a wait may only return when the size is at or below its mark; a waiter left asleep shows as a deadlock",
	"InterthreadQueueWithWait, PointerFIFO, Mutex, Signal, Timeval", "pthread mutex and condition variables, scheduler, clock, heap", 84000, 3000000);
