// C06: the priority queue always hands out its best element, exactly once.
#include "sim.h"
#include "lin.h"
#include "Interthread.h"
#include <set>
#include <stdio.h>
using namespace sim;

enum { WRITE, READ, READT, READNB, PEEK, SIZE, CLEAR };
static const char *opname(int k) { static const char *n[] = { "write", "read", "read_timed", "readNoBlock", "peek", "size", "clear" }; return n[k]; }
// ids carry their rank: id = rank * 200 + serial; lowest rank first, equal ranks in any order
static int rankof(int id) { return id / 200; }
struct Model {
	std::multiset<int> q;
	std::string key() const { std::string s; for (int x : q) { s += (char)x; s += (char)(x >> 8); } return s; }
	bool best(int id) const { return q.count(id) && rankof(id) == rankof(*q.begin()); }
	bool apply(const LOp &o)
	{
		switch (o.kind) {
			case WRITE: q.insert(o.a); return true;
			case READ: case READT: case READNB:
				if (!o.done) return false;		// all reads end in these runs
				if (o.r == 0) return o.kind == READT || (o.kind == READNB && q.empty());
				if (!best(o.r)) return false;
				q.erase(q.find(o.r)); return true;
			case PEEK: return o.r == 0 ? q.empty() : best(o.r);
			case SIZE: return o.r == (int)q.size();
			case CLEAR: q.clear(); return true;
		}
		return false;
	}
};
static int destroyed[1024], taken[1024], nser, used[200], nused;
struct Item { int id; Item(int i) : id(i) {} bool operator>(const Item &o) const { return rankof(id) > rankof(o.id); } ~Item() { destroyed[id & 1023]++; } };
static Item *own[1024];
struct ByRank { bool operator()(const Item *a, const Item *b) { return rankof(a->id) > rankof(b->id); } };
static History h;
template <class Q> struct Sc {
	static Q *q;
	static void put()
	{
		int id = (1 + (int)w(4)) * 200 + nser++; used[nused++] = id;
		Item *x; { Sut s; x = new Item(id); }
		own[id] = x;
		int k = h.begin(WRITE, id); SUTV(q->write(x)); h.end(k); count("op.write");
	}
	static int take(int kind, int tmo)
	{
		int k = h.begin(kind, tmo);
		Item *x = kind == READ ? SUT(q->read()) : kind == READT ? SUT(q->read((unsigned)tmo)) : SUT(q->readNoBlock());
		int id = 0;
		if (x) {
			CHECK(heap_live(x), "stale-element", "a read returned an element that is not alive");
			id = x->id;
			CHECK(id > 0 && id < 1024 && own[id] == x, "foreign-element", "a read returned something never written");
			CHECK(!taken[id]++, "duplicate-delivery", "element %d was delivered twice", id);
		}
		h.end(k, id); count(id ? "op.read" : "op.read_empty");
		return id;
	}
	static void go()
	{
		q = SUT(new Q);
		int nw = 1 + w(3), nr = 1 + w(3), per = 1 + w(5); if (nw * per > 14) per = 14 / nw;
		if (wp(1, 8)) { nw = 1 + w(2); nr = 1; per = 15 + w(30); }	// a long one, mostly one after another
		bool use_clear = wp(1, 6); static int wdone;
		for (int i = 0; i < nw; i++) spawn("writer", [=]() { for (int k = 0; k < per; k++) { put(); if (wp(1, 6)) sim::sleep_us(w(4000)); } wdone++; });
		for (int i = 0; i < nr; i++) spawn("reader", [=]() {
			for (int k = 0; k < per + 2; k++) switch (w(6)) {
				case 0: case 1: take(READNB, 0); break;
				case 2: case 3: take(READT, wp(1, 4) ? 0 : 1 + w(30)); break;
				case 4: { int o = h.begin(PEEK); Item *x = SUT(q->peek()); int id = 0; if (x) { id = 9999; for (int j = 0; j < nused; j++) if (own[used[j]] == x) id = used[j]; } h.end(o, id); break; }
				case 5: { int o = h.begin(SIZE); int n = SUT((int)q->size()); h.end(o, n); break; }
			}
		});
		bool blocking = wp(1, 2); int br = -1;
		if (blocking) br = spawn("blocking-reader", [=]() { CHECK(take(READ, 0), "empty-blocking-read", "a blocking read came back empty"); });
		if (use_clear) spawn("clearer", [=]() { sim::sleep_us(w(4000)); int o = h.begin(CLEAR); SUTV(q->clear()); h.end(o); count("op.clear"); });
		wait_until([=]() { return wdone == nw; });
		if (blocking) { for (int i = 0; i < 14 && !done(br); i++) { put(); sim::sleep_us(2000); } wait_until([=]() { return sim::done(br); }); }
		join_all();
		while (take(READNB, 0)) {}
		h.hint([](const LOp &o) { return o.kind == WRITE ? o.a : 0; }, [](const LOp &o) { return o.kind == READ || o.kind == READT || o.kind == READNB ? o.r : 0; });
		check_linearizable(h, Model(), opname);
		for (int i = 0; i < nused; i++) {
			int id = used[i];
			CHECK(destroyed[id] <= 1, "double-destroy", "element %d was destroyed %d times", id, destroyed[id]);
			CHECK(!(taken[id] && destroyed[id]), "delivered-and-destroyed", "element %d was delivered and also destroyed by the queue", id);
			CHECK(taken[id] || destroyed[id], "lost-element", "element %d was neither delivered nor destroyed", id);
		}
		int first = nused, left = w(4);
		for (int i = 0; i < left; i++) put();
		SUTV(delete q);
		for (int i = first; i < nused; i++) CHECK(destroyed[used[i]] == 1, "destructor-leak", "element %d left in the queue was destroyed %d times by its destructor", used[i], destroyed[used[i]]);
		nontrivial();
	}
};
template <class Q> Q *Sc<Q>::q;
static void run()
{
	swarm_schedule(); swarm_clock_phase({ 5, 10, 30 });
	if (wp(2, 3)) Sc<InterthreadPriorityQueue<Item> >::go(); else Sc<InterthreadPriorityQueue<Item, std::vector<Item *>, ByRank> >::go();
}
static Prop p("C06", "Priority queue", run,
	"seeded run: 1-3 writers, 1-3 readers, optional blocking reader and clear on one priority queue with colliding ranks; history checked for linearizability against a multiset that hands out any element of the best rank",
	"InterthreadPriorityQueue, PointerCompare, Mutex, Signal, Timeval", "pthread mutex and condition variables, scheduler, clock, heap", 80000, 3000000);
