// C03: two connected queues: one thread waits on either and never misses an element; both behave as one object of two sequences.
#include "sim.h"
#include "lin.h"
#include "Interthread.h"
#include <deque>
#include <stdio.h>
using namespace sim;

static int gone[256];
struct Item { int id; Item(int i) : id(i) {} ~Item() { gone[id & 255]++; } };
struct NItem : SingleLinkListNode { int id; NItem(int i) : id(i) {} ~NItem() { gone[id & 255]++; } NItem *next() { return (NItem *)mNext; } };
static const unsigned tmos[] = { 1, 2, 3, 5, 10, 30, 100, 999, 1000, 1001, 2500, 60000 };
enum { SLACK = 3000 };
enum { WRITE, WRITE_FRONT, READ, READT, READNB, FRONT, SIZE, EITHER, EITHERT, ITER, CLEAR };
static const char *opname(int k) { static const char *n[] = { "write", "write_front", "read", "read_timed", "readNoBlock", "front", "size", "wait_either", "wait_either_timed", "iterate", "clear" }; return n[k]; }
struct Model {		// o.a is the queue, o.b the element
	std::deque<int> q[2];
	std::string key() const { std::string s; for (int x : q[0]) s += (char)x; s += (char)0; for (int x : q[1]) s += (char)x; return s; }
	bool apply(const LOp &o)
	{
		std::deque<int> &d = q[o.a & 1];
		switch (o.kind) {
			case WRITE: d.push_back(o.b); return true;
			case WRITE_FRONT: d.push_front(o.b); return true;
			case READ: if (d.empty() || (o.done && o.r != d.front())) return false; d.pop_front(); return true;
			case READT: case READNB:
				if (!o.done) { if (!d.empty()) d.pop_front(); return true; }
				if (!o.r) return o.kind == READT || d.empty();
				if (d.empty() || d.front() != o.r) return false;
				d.pop_front(); return true;
			case FRONT: return !o.done || (d.empty() ? !o.r : o.r == d.front());
			case SIZE: return !o.done || o.r == (int)d.size();
			case EITHER: return q[0].size() + q[1].size() > 0;
			case EITHERT: return true;
			case CLEAR: d.clear(); return true;
			case ITER: { int64_t x = 0; for (int i : d) x = x * 101 + i; return !o.done || o.r == x; }
		}
		return false;
	}
};

template <class I, class Q> struct Iter { static int64_t get(Q &) { return -1; } };
template <class I> struct Iter<I, InterthreadQueue<I> > {
	static int64_t get(InterthreadQueue<I> &q)
	{
		ScopedLock l(q.qGetLock());
		int64_t h = 0;
		for (typename InterthreadQueue<I>::iterator it = q.begin(); it != q.end(); ++it) h = h * 101 + (*it)->id;
		return h;
	}
};
static bool prompt;
template <class I, class Q> static void scenario(bool iter)
{
	static Q *q[2]; static History h; static int due[2], nextid, delivered[256];
	q[0] = SUT(new Q); q[1] = SUT(new Q);
	static Q *third; third = 0;
	if (wp(1, 3)) {		// the two are part of a chain of three
		third = SUT(new Q);
		Q *c[3] = { q[0], q[1], third }; int at = w(3); std::swap(c[2], c[at]); if (wp(1, 2)) std::swap(c[0], c[1]);
		SUTV(c[1]->iqConnect(*c[0])); SUTV(c[2]->iqConnect(*c[1])); count("op.chain");
	}
	else if (wp(1, 2)) SUTV(q[0]->iqConnect(*q[1])); else SUTV(q[1]->iqConnect(*q[0]));
	int nw = 1 + w(4), per = 1 + w(4);
	for (int i = 0; i < nw; i++) {
		int side = w(3); bool slow = wp(1, 2), fronts = wp(1, 3);
		std::vector<int> plan;
		for (int k = 0; k < per; k++) { plan.push_back(side == 2 ? (int)w(2) : side); due[plan[k]]++; }
		char nm[20]; snprintf(nm, sizeof nm, "writer%d", i);
		spawn(nm, [=]() {
			for (int s : plan) {
				if (slow) sim::sleep_us(wp(1, 2) ? w(4000) : tmos[w(11)] * 1000 - 500 + w(1000));
				int id = ++nextid; bool front = fronts && wp(1, 2);
				I *x; { Sut u; x = new I(id); }
				int o = h.begin(front ? WRITE_FRONT : WRITE, s, id);
				if (front) SUTV(q[s]->write_front(x)); else SUTV(q[s]->write(x));
				h.end(o); count("op.write");
			}
		});
	}
	if (wp(1, 4)) spawn("looks", [=]() {		// another thread only looks
		for (int i = 0; i < 6; i++) {
			int s = i & 1;
			if (iter && wp(1, 2)) { int o = h.begin(ITER, s); int64_t x = SUT((Iter<I, Q>::get(*q[s]))); h.end(o, x); count("op.iterate"); }
			else { int o = h.begin(SIZE, s), n = SUT((int)q[s]->size()); h.end(o, n); }
			if (wp(1, 3)) sim::sleep_us(w(3000));
		}
	});
	if (third && wp(1, 2)) spawn("third", [=]() {	// the one nobody waits for may get elements, too
		for (int i = 0; i < 3; i++) {
			I *x; { Sut u; x = new I(250); third->write(x); x = third->readNoBlock(); }
			CHECK(x && third->size() == 0, "lost-element", "an element just written is not there"); SUTV(delete x);
			if (wp(1, 3)) sim::sleep_us(w(3000));
		}
	});
	int timeouts_mode = w(3);	// 0 always wait for ever, 1 timed, 2 mixed
	spawn("consumer", [=]() {
		auto take = [=](int s, int how) {
			unsigned tmo = 1 + w(3);
			int o = h.begin(how, s);
			I *x = how == READ ? SUT(q[s]->read()) : how == READT ? SUT(q[s]->read(tmo)) : SUT(q[s]->readNoBlock());
			int id = 0;
			if (x) {
				CHECK(heap_live(x), "stale-element", "a read returned an element that is not alive");
				id = x->id; due[s]--; count("op.read");
				CHECK(id > 0 && id <= nextid && !delivered[id & 255]++, "duplicate-delivery", "element %d was delivered twice", id);
				SUTV(delete x);
			}
			h.end(o, id);
			return id;
		};
		while (due[0] + due[1]) {
			int via = w(2), n = 0;
			unsigned tmo = timeouts_mode == 0 || (timeouts_mode == 2 && wp(1, 2)) ? 0 : tmos[w(12)];
			if (h.ops.size() > 150) tmo = 0;
			if (wp(1, 6) && due[via]) { take(via, READ); count("op.read_blocking"); continue; }	// it knows more will come here
			int64_t t0 = mono_us();
			int o = h.begin(tmo ? EITHERT : EITHER); SUTV(q[via]->iqWaitForEither(*q[!via], tmo)); h.end(o);
			int64_t el = mono_us() - t0;
			count("op.wait");
			bool order = wp(1, 2), one = wp(1, 3);
			for (int j = 0; j < 2; j++) {
				int s = j ^ order;
				for (;;) {
					if (one && n) break;
					if (wp(1, 6)) {
						// nobody else takes elements, so what is first stays alive while it is looked at
						int f = h.begin(FRONT, s); I *x = SUT(q[s]->front()); int id = 0;
						if (x) { CHECK(heap_live(x), "stale-element", "the first element is not alive"); id = x->id; }
						h.end(f, id);
					}
					if (!take(s, w(4) ? READNB : READT)) break;
					n++;
				}
			}
			if (!n) {
				CHECK(tmo, "spurious-return", "a wait without a timeout returned although both queues were empty");
				CHECK(el >= (int64_t)tmo * 1000 - SLACK, "early-timeout", "a wait with a %u ms timeout returned after %lld us with both queues empty", tmo, (long long)el);
				if (prompt) CHECK(el <= (int64_t)tmo * 1000 + 200000, "late-timeout", "a wait with a %u ms timeout returned after %lld us", tmo, (long long)el);
				count("op.timed_out");
			}
		}
	});
	join_all();
	h.hint([](const LOp &o) { return o.kind == WRITE || o.kind == WRITE_FRONT ? o.b : 0; }, [](const LOp &o) { return o.kind == READ || o.kind == READT || o.kind == READNB ? o.r : 0; });
	check_linearizable(h, Model(), opname);
	for (int i = 1; i <= nextid; i++) CHECK(delivered[i & 255] == 1, "lost-element", "element %d was written but never delivered", i);
	if (wp(1, 3)) {		// emptying one of them while both are in use
		static History g; static int first; first = nextid + 1;
		int ends = 2 + w(2);
		for (int i = 0; i < ends; i++) spawn("writer", [=]() {
			for (int j = 1 + w(3); j--;) {
				int s = w(2), id = ++nextid; I *x; { Sut u; x = new I(id); }
				int o = g.begin(WRITE, s, id); SUTV(q[s]->write(x)); g.end(o); if (wp(1, 4)) sim::sleep_us(w(3000));
			}
		});
		spawn("clearer", [=]() { for (int j = 1 + w(3); j--;) { sim::sleep_us(w(3000)); int s = w(2), o = g.begin(CLEAR, s); SUTV(q[s]->clear()); g.end(o); count("op.clear"); } });
		join_all();
		for (int s = 0; s < 2; s++) for (;;) {
			int o = g.begin(READNB, s); I *x = SUT(q[s]->readNoBlock()); int id = 0;
			if (x) { CHECK(heap_live(x), "stale-element", "a read returned an element that is not alive"); id = x->id; SUTV(delete x); }
			g.end(o, id); if (!id) break;
		}
		check_linearizable(g, Model(), opname);
		for (int i = first; i <= nextid; i++) CHECK(gone[i & 255] == 1, "wrong-destruction", "element %d was destroyed %d times", i, gone[i & 255]);
	}
	// both are empty: a timed wait ends and is about as long as asked for
	cfg.stall_mean = 0;
	unsigned tmo = tmos[w(12)]; bool churn = wp(1, 2); static bool over;
	if (churn) spawn("churner", [=]() {	// elements that come and go wake the waiting thread for nothing
		for (int i = 0; i < 4 && !over; i++) {
			sim::sleep_us(tmo * (200 + w(700))); int s = w(2); I *x;
			{ Sut u; x = new I(250); q[s]->write(x); x = q[s]->readNoBlock(); }
			CHECK(x, "lost-element", "an element just written is not there"); SUTV(delete x); count("op.churn");
		}
	});
	int64_t t0 = mono_us();
	SUTV(q[0]->iqWaitForEither(*q[1], tmo));
	int64_t el = mono_us() - t0;
	over = true;
	CHECK((churn || el >= (int64_t)tmo * 1000 - SLACK) && el <= (int64_t)tmo * 1000 + 100000, "wrong-timeout", "a lone wait with a %u ms timeout took %lld us", tmo, (long long)el);
	join_all();
}
static void run()
{
	swarm_schedule(); swarm_clock_phase({ 1, 2, 5, 10, 30, 100, 999, 1000, 2500 });
	prompt = wp(1, 2); if (prompt) { cfg.stall_mean = 0; if (cfg.tick_us > 20) cfg.tick_us = 20; }
	if (wp(1, 2)) scenario<Item, InterthreadQueue<Item> >(true);
	else scenario<NItem, InterthreadQueue<NItem, SingleLinkList<NItem> > >(false);
	nontrivial();
}
static Prop p("C03", "Connected queues", run,
	"seeded run: 1-4 writers feed two connected queues at either end, one consumer loops over the combined wait (timed or not) and drains; the history is checked for linearizability against two sequences, and a consumer that sleeps although an element is queued shows as a deadlock; non-trivial when all elements arrived",
	"InterthreadQueue (connected), PtrList, SingleLinkList, Mutex, Signal, Timeval", "pthread mutex and condition variables, scheduler, clock, heap", 62000, 3000000);
