// C01: the interthread queue is a linearizable FIFO; every element is handed to exactly one reader.
#include "sim.h"
#include "lin.h"
#include "Interthread.h"
#include <deque>
#include <stdio.h>
using namespace sim;

enum { WRITE, WFRONT, READ, READT, READNB, FRONT, SIZE, FLUSH, TOTAL, ITER, CLEAR };
static const char *opname(int k) { static const char *n[] = { "write", "write_front", "read", "read_timed", "readNoBlock", "front", "size", "flushNoDelete", "totalSize", "iterate", "clear" }; return n[k]; }

struct Model {
	std::deque<int> q;
	std::string key() const { std::string s; for (int x : q) s += (char)x; return s; }
	bool apply(const LOp &o)
	{
		switch (o.kind) {
			case WRITE: q.push_back(o.a); return true;
			case WFRONT: q.push_front(o.a); return true;
			case READ: if (q.empty()) return false; if (o.done && o.r != q.front()) return false; q.pop_front(); return true;
			case READT: case READNB:
				if (!o.done) { if (!q.empty()) q.pop_front(); return true; }
				if (o.r == 0) return o.kind == READT ? true : q.empty();
				if (q.empty() || q.front() != o.r) return false; q.pop_front(); return true;
			case FRONT: return !o.done || (q.empty() ? o.r == 0 : o.r == q.front());
			case SIZE: return !o.done || o.r == (int)q.size();
			case TOTAL: { int t = 0; for (int x : q) t += 10 + x % 7; return !o.done || o.r == t; }
			case ITER: { int64_t h = 0; for (int x : q) h = h * 101 + x; return !o.done || o.r == h; }
			case FLUSH: case CLEAR: q.clear(); return true;
		}
		return false;
	}
};
static int destroyed[256];
struct Item : SingleLinkListNode {
	int id; int pad[4];
	Item(int i) : id(i) {}
	Item *next() { return (Item *)mNext; }
	virtual unsigned size() { return 10 + id % 7; }
	virtual ~Item() { destroyed[id & 255]++; }
};
struct Plain { int id; Plain(int i) : id(i) {} ~Plain() { destroyed[id & 255]++; } };

// the pooling list, which the queue takes for its elements as well
struct Pool : PointerFIFO { typedef void iterator; typedef void const_iterator; void *front() const { return const_cast<Pool *>(this)->PointerFIFO::front(); } };
typedef InterthreadQueue<Plain, Pool> QPool;
template <class I, class Q> struct Total { static int get(Q &) { return -1; } };
template <class I> struct Total<I, InterthreadQueue<I, SingleLinkList<I> > > { static int get(InterthreadQueue<I, SingleLinkList<I> > &q) { return q.totalSize(); } };
template <class I, class Q> struct Iter { static int64_t get(Q &) { return -1; } };
template <class I> struct Iter<I, InterthreadQueue<I> > {
	static int64_t get(InterthreadQueue<I> &q)
	{
		ScopedLock l(q.qGetLock());
		int64_t h = 0;
		for (typename InterthreadQueue<I>::iterator it = q.begin(); it != q.end(); ++it) h = h * 101 + (*it)->id;
		return h;
	}
};

template <class I, class Q> static void scenario(int look)
{
	struct St { Q *q; History h; int next; std::vector<Plain *> dummy; };
	static Q *q; static History h; static int next, taken[256], dropped[256];
	q = SUT(new Q); next = 1;
	static std::vector<I *> own; own.assign(256, (I *)0);
	bool use_front = wp(1, 3), use_flush = wp(1, 5), use_clear = !use_flush && wp(1, 5);
	int nw = 1 + w(3), nr = 1 + w(3), per = 1 + w(5);
	static int writes_done; writes_done = 0;
	int total = nw * per; if (total > 16) { per = 16 / nw; total = nw * per; }
	auto put = [=](bool front) {
		int id = next++;
		I *x; { Sut s; x = new I(id); }
		own[id] = x;
		int k = h.begin(front ? WFRONT : WRITE, id);
		{ Sut s; if (front) q->write_front(x); else q->write(x); }
		h.end(k);
		count("op.write");
	};
	for (int i = 0; i < nw; i++) {
		char nm[16]; snprintf(nm, sizeof nm, "writer%d", i);
		spawn(nm, [=]() {
			for (int k = 0; k < per; k++) {
				put(use_front && wp(1, 3));
				if (wp(1, 6)) sim::sleep_us(w(5000));
			}
			writes_done++;
		});
	}
	auto take = [=](int kind, int tmo) -> int {
		int k = h.begin(kind, tmo);
		I *x = 0; int64_t t0 = mono_us();
		{ Sut s; x = kind == READ ? q->read() : kind == READT ? q->read((unsigned)tmo) : q->readNoBlock(); }
		int id = 0;
		if (x) {
			CHECK(heap_live(x), "stale-element", "a read returned an element that is not alive");
			id = x->id;
			CHECK(id > 0 && id < next && own[id] == x, "foreign-element", "a read returned something never written (id %d)", id);
			CHECK(!taken[id], "duplicate-delivery", "element %d was delivered twice", id);
			taken[id] = 1;
		}
		h.end(k, id);
		(void)t0;
		count(id ? "op.read" : "op.read_empty");
		return id;
	};
	for (int i = 0; i < nr; i++) {
		char nm[16]; snprintf(nm, sizeof nm, "reader%d", i);
		spawn(nm, [=]() {
			int nulls = 0;
			for (int k = 0; k < per + 2; k++) {
				switch (w(8)) {
					case 0: case 1: take(READNB, 0); break;
					case 2: case 3: case 4: take(READT, wp(1, 4) ? 0 : 1 + w(30)); break;
					case 5: { int o = h.begin(FRONT); I *x; { Sut s; x = q->front(); } h.end(o, x ? [&] { int id = 0; for (int j = 1; j < next; j++) if (own[j] == x) id = j; return id ? id : 99999; }() : 0); break; }
					case 6: { int o = h.begin(SIZE); int n = SUT((int)q->size()); h.end(o, n); break; }
					case 7: if (look == 0) count("op.none"); else if (look == 1) { int o = h.begin(TOTAL); int n = SUT((Total<I, Q>::get(*q))); h.end(o, n); }
						else { int o = h.begin(ITER); int64_t n = SUT((Iter<I, Q>::get(*q))); h.end(o, n); } break;
				}
			}
			(void)nulls;
		});
	}
	if (use_flush || use_clear) spawn("flusher", [=]() {
		sim::sleep_us(w(3000));
		int o = h.begin(use_flush ? FLUSH : CLEAR);
		{ Sut s; if (use_flush) q->flushNoDelete(); else q->clear(); }
		h.end(o);
	});
	// a blocking reader that must always be fed: a dedicated element is written for it at the end
	bool blocking = wp(1, 2);
	int br = -1;
	if (blocking) br = spawn("blocking-reader", [=]() { take(READ, 0); });
	wait_until([=]() { return writes_done == nw; });
	if (blocking) {
		for (int i = 0; i < 20 && !done(br); i++) { put(false); sim::sleep_us(2000); }
		wait_until([=]() { return sim::done(br); });
	}
	join_all();
	// drain: whatever is left comes out in order
	for (;;) if (!take(READNB, 0)) break;
	h.hint([](const LOp &o) { return o.kind == WRITE || o.kind == WFRONT ? o.a : 0; }, [](const LOp &o) { return o.kind == READ || o.kind == READT || o.kind == READNB ? o.r : 0; });
	check_linearizable(h, Model(), opname);
	// ownership: nothing delivered may have been destroyed; cleared elements are destroyed exactly once
	int lost = 0;
	for (int i = 1; i < next; i++) {
		CHECK(destroyed[i] <= 1, "double-destroy", "element %d was destroyed %d times", i, destroyed[i]);
		if (taken[i]) CHECK(!destroyed[i], "delivered-and-destroyed", "element %d was delivered to a reader and also destroyed by the queue", i);
		if (!taken[i] && !destroyed[i]) lost++;
	}
	if (!use_flush) CHECK(!lost, "lost-element", "%d written elements were neither delivered nor destroyed", lost);
	// the destructor destroys what is still queued, once
	int left = (int)w(3), first = next;
	for (int i = 0; i < left; i++) put(false);
	{ Sut s; delete q; }
	for (int i = first; i < next; i++) CHECK(destroyed[i] == 1, "destructor-leak", "element %d left in the queue was destroyed %d times by the queue's destructor", i, destroyed[i]);
	nontrivial();
}
static void run()
{
	swarm_schedule(); swarm_clock_phase({ 5, 10, 30 });
	switch (w(3)) {
		case 0: scenario<Plain, InterthreadQueue<Plain> >(2); break;
		case 1: scenario<Item, InterthreadQueue<Item, SingleLinkList<Item> > >(1); break;
		default: scenario<Plain, QPool>(0);
	}
}
static Prop p("C01", "queue", run,
	"seeded run: 1-3 writers, 1-3 readers, optional blocking reader and flusher on one queue, random schedule, stalls and spurious wakeups; the full history is checked for linearizability against a deque; non-trivial when the run completes with at least one write and read",
	"InterthreadQueue, PtrList, SingleLinkList, PointerFIFO, Mutex, Signal, ScopedLock, Timeval", "pthread mutex and condition variables, scheduler, clock, heap", 80000, 3000000);
