// C05: the interthread maps are linearizable and own their elements.
#include "sim.h"
#include "lin.h"
#include "Interthread.h"
#include <map>
#include <stdio.h>
using namespace sim;

enum { WRITE, GETNB, GETT, GET, READNB, READT, READ, REMOVE, SIZE, ITER };
static const char *opname(int k) { static const char *n[] = { "write", "getNoBlock", "get_timed", "get", "readNoBlock", "read_timed", "read", "remove", "size", "iterate" }; return n[k]; }
struct Model {
	int m[4]; Model() { for (int &x : m) x = 0; }
	std::string key() const { std::string s; for (int x : m) s += (char)x; return s; }
	bool apply(const LOp &o)
	{
		int k = o.a & 3;
		switch (o.kind) {
			case WRITE: m[k] = o.b; return true;
			case GETNB: case GETT: case GET:
				if (o.done && o.r == 0) return o.kind == GETT ? true : o.kind == GETNB && !m[k];
				if (o.done && o.r != m[k]) return false;
				if (o.kind == GET && !m[k]) return false;
				m[k] = 0; return true;
			case READNB: case READT: case READ:
				if (!o.done) return true;
				if (o.r == 0) return o.kind == READT ? true : o.kind == READNB && !m[k];
				return o.r == m[k];
			case REMOVE: if (o.done && (o.r != 0) != (m[k] != 0)) return false; m[k] = 0; return true;
			case SIZE: { int n = 0; for (int x : m) n += !!x; return !o.done || o.r == n; }
			case ITER: { int64_t s = 0; for (int i = 0; i < 4; i++) if (m[i]) s = s * 1009 + i * 211 + m[i]; return !o.done || o.r == s; }
		}
		return false;
	}
};
static int destroyed[256], taken[256], nextid;
struct Item { int id; Item(int i) : id(i) {} ~Item() { destroyed[id & 255]++; } };
typedef InterthreadMap<int, Item> M;
struct M1 : InterthreadMap1<int, Item *> { void vdelete(Item *x) { delete x; } ~M1() { for (iterator i = begin(); i != end(); ++i) vdelete(i->second); mMap.clear(); } };
static History h; static Item *own[256];
static int idof(Item *x) { if (!x) return 0; for (int i = 1; i <= nextid; i++) if (own[i] == x) return i; return 9999; }

template <class T> struct Sc {
	static T *m;
	static void put(int k)
	{
		int id = ++nextid; Item *x; { Sut s; x = new Item(id); }
		own[id] = x;
		int o = h.begin(WRITE, k, id); SUTV(m->write(k, x)); h.end(o); count("op.write");
	}
	static int take(int kind, int k, int tmo)
	{
		int o = h.begin(kind, k, tmo); Item *x = 0; bool r;
		{ Sut s; r = kind == GETNB ? m->getNoBlock(k, x) : kind == GETT ? m->get(k, x, (unsigned)tmo) : m->get(k, x); }
		CHECK(kind != GET || r, "empty-blocking-read", "a blocking get reported no element");
		int id = 0;
		if (r) {
			CHECK(x && heap_live(x), "stale-element", "a get handed out an element that is not alive");
			id = x->id;
			CHECK(id > 0 && id <= nextid && own[id] == x, "foreign-element", "a get handed out something never written");
			CHECK(!taken[id]++, "duplicate-delivery", "element %d was handed out twice", id);
			CHECK(!destroyed[id], "stale-element", "element %d was handed out after its destruction", id);
		}
		h.end(o, id); count(id ? "op.get" : "op.get_empty");
		return id;
	}
	static void peek(int kind, int k, int tmo)
	{
		int o = h.begin(kind, k, tmo); Item *x;
		{ Sut s; x = kind == READNB ? m->readNoBlock(k) : kind == READT ? m->read(k, (unsigned)tmo) : m->read(k); }
		CHECK(kind != READ || x, "empty-blocking-read", "a blocking read reported no element");
		h.end(o, idof(x)); count("op.peek");
	}
	static void go()
	{
		m = SUT(new T);
		int nt = 2 + w(3), per = 2 + w(5), nk = 1 + w(3); bool removes = wp(2, 3), blocking = wp(1, 2);
		for (int i = 0; i < nt; i++) spawn("user", [=]() {
			for (int j = 0; j < per; j++) {
				int k = w(nk);
				switch (w(10)) {
					case 0: case 1: case 2: put(k); break;
					case 3: take(GETNB, k, 0); break;
					case 4: take(GETT, k, wp(1, 4) ? 0 : 1 + w(20)); break;
					case 5: peek(READNB, k, 0); break;
					case 6: peek(READT, k, wp(1, 4) ? 0 : 1 + w(20)); break;
					case 7: if (removes) { int o = h.begin(REMOVE, k); bool r = SUT(m->remove(k)); h.end(o, r); count("op.remove"); } else put(k); break;
					case 8: { int o = h.begin(SIZE); int n = SUT((int)m->size()); h.end(o, n); break; }
					case 9: {
						int o = h.begin(ITER); int64_t s = 0;
						{ Sut u; ScopedLock l(m->qGetLock()); for (typename T::iterator it = m->begin(); it != m->end(); ++it) s = s * 1009 + it->first * 211 + it->second->id; }
						h.end(o, s); count("op.iterate"); break;
					}
				}
				if (wp(1, 6)) sim::sleep_us(w(4000));
			}
		});
		int bk = -1, bg = -1;
		if (blocking) {	// on a key nobody removes from: one reader in place, then one getter
			bk = spawn("blocking-reader", [=]() { peek(READ, 3, 0); });
			bg = spawn("blocking-getter", [=]() { sim::wait_until([=]() { return sim::done(bk); }); take(GET, 3, 0); });
			spawn("feeder", [=]() { sim::sleep_us(w(6000)); put(3); if (wp(1, 2)) { sim::sleep_us(w(2000)); } });
		}
		join_all();
		// what is left is found, exactly once
		for (int k = 0; k < 4; k++) take(GETNB, k, 0);
		for (int k = 0; k < 4; k++) take(GETNB, k, 0);
		check_linearizable(h, Model(), opname);
		for (int i = 1; i <= nextid; i++) {
			CHECK(destroyed[i] <= 1, "double-destroy", "element %d was destroyed %d times", i, destroyed[i]);
			CHECK(!(taken[i] && destroyed[i]), "delivered-and-destroyed", "element %d was handed out and also destroyed by the map", i);
			CHECK(taken[i] || destroyed[i], "lost-element", "element %d was neither handed out nor destroyed", i);
		}
		int first = nextid + 1, left = w(4);
		for (int i = 0; i < left; i++) put(i);
		SUTV(delete m);
		for (int i = first; i <= nextid; i++) CHECK(destroyed[i] == 1, "destructor-leak", "element %d left in the map was destroyed %d times by the map's destructor", i, destroyed[i]);
		nontrivial();
	}
};
template <class T> T *Sc<T>::m;
static void run()
{
	swarm_schedule(); swarm_clock_phase({ 1, 5, 10, 20 });
	if (wp(2, 3)) Sc<M>::go(); else Sc<M1>::go();
}
static Prop p("C05", "Interthread maps", run,
	"seeded run: 2-4 threads mix writes, gets, reads, removes, size and locked iteration over 1-3 keys, plus blocking readers on a fourth; the history is checked for linearizability against an array of four cells and every element's destruction is counted",
	"InterthreadMap, InterthreadMap1, Mutex, Signal, Timeval", "pthread mutex and condition variables, scheduler, clock, heap", 88000, 3000000);
