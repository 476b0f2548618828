// C13: reference counted objects live exactly as long as the last pointer to them, whatever the threads do.
#include "common.h"
#include "Utils.h"
using namespace sim;

static int destroyed[64], made;
struct Obj : RefCntBase { int id; long canary; Obj(int i) : id(i), canary(0x1234567) {} ~Obj() { canary = 0; Harness h; destroyed[id & 63]++; } };
typedef RefCntPointer<Obj> P;
struct Node : Obj { RefCntPointer<Node> next; P also; Node() : Obj(59) {} };
typedef RefCntPointer<Node> N;
static int chained;		// nodes of chains made
static P *slot[4]; static Mutex *slotlock[4]; static int nslot;
static int refs[64];	// strong references known to the harness (a lower bound while an operation is under way)

static void use(P &p) { Obj *o = p.self(); if (!o) return; CHECK(heap_live(o), "use-after-free", "a reference counted pointer leads to freed memory"); CHECK(!destroyed[o->id], "destroyed-early", "object %d was destroyed while a pointer to it exists", o->id); long c = SUT(p->canary); CHECK(c == 0x1234567, "destroyed-early", "object damaged"); }
// very many pointers to one object, made and dropped by two threads
static void crowd()
{
	cfg.max_steps *= 20; cfg.max_mem *= 20; cfg.stall_mean = 0;
	static P *first; first = SUT(new P(new Obj(62))); static int held; held = 1;
	static std::vector<P> *v[2]; int n = wp(1, 2) ? 8000 + w(9000) : 16380 + w(10), half[2] = { n, 32770 + (int)w(3000) - n };
	for (int t = 0; t < 2; t++) spawn("holder", [=]() { v[t] = SUT(new std::vector<P>); { Sut s; v[t]->reserve(half[t]); for (int i = 0; i < half[t]; i++) v[t]->push_back(*first); } });
	join_all();
	int c = SUT((*first)->getRefCnt());
	CHECK(c == half[0] + half[1] + 1, "wrong-count", "an object with %d pointers counts %d", half[0] + half[1] + 1, c);
	CHECK(!destroyed[62], "destroyed-early", "an object was destroyed while %d pointers to it exist", c);
	for (int t = 0; t < 2; t++) spawn("holder", [=]() { SUTV(delete v[t]); });
	join_all(); use(*first);
	CHECK(!destroyed[62], "destroyed-early", "an object was destroyed while a pointer to it exists");
	SUTV(delete first);
	CHECK(destroyed[62] == 1, "leak", "an object was destroyed %d times after the last of very many pointers went away", destroyed[62]);
	count("op.crowd");
}
// several threads take the same new object under their pointers at once, and hold it till all have it
static void adopt()
{
	static Obj *raw; raw = SUT(new Obj(61)); static int have, nt; have = 0; nt = 2 + w(3);
	for (int t = 0; t < nt; t++) spawn("adopter", [=]() {
		P *mine; if (wp(1, 2)) mine = SUT(new P(raw)); else { mine = SUT(new P); SUTV(*mine = raw); }
		if (wp(1, 2)) { P *b = SUT(new P(*mine)); use(*b); SUTV(delete b); }
		have++; while (have < nt) sim::sleep_us(100);
		use(*mine);
		SUTV(delete mine);
	});
	join_all();
	CHECK(destroyed[61] == 1, destroyed[61] ? "double-destroy" : "leak", "an object that %d threads held was destroyed %d times", nt, destroyed[61]);
	count("op.adopt");
}
// a chain of objects that hold the next: walked, cut short in the middle, and dropped; some hold the shared object as well
static void chain(P *mine)
{
	int n = 2 + w(6), left = n;
	N *head = SUT(new N);
	chained += n;
	for (int i = 0; i < n; i++) { Sut s; N x(new Node); x->next = *head; if (i & 1) x->also = *mine; *head = x; }
	bool keep = wp(1, 2); N *tail = SUT(new N(*head));
	for (int i = 0; i < n - 1; i++) { if (wp(1, 2)) SUTV(*tail = (*tail)->next); else SUTV(*tail = (*tail)->next.self()); }	// keeps only what it is at
	for (int i = w(4); i-- && left > 2;) { left--; if (wp(1, 3)) { SUTV(*head = (*head)->next); } else if (wp(1, 2)) { SUTV(*head = (*head)->next.self()); } else { SUTV((*head)->next = (*head)->next->next); } }
	if (!keep) SUTV(tail->free());
	int len = 0; { Sut s; for (N p = *head; !p.isNULL(); p = p->next) { Harness h; CHECK(heap_live(p.self()) && p.self()->canary == 0x1234567, "destroyed-early", "an element of a chain is gone"); len++; } }
	CHECK(len == left, "chain-length", "a chain of %d elements has %d", left, len);
	SUTV(delete head);
	if (keep) { long c = SUT((*tail)->canary); CHECK(heap_live(tail->self()) && c == 0x1234567, "destroyed-early", "the end of a chain is gone with its head"); }
	SUTV(delete tail);
	count("op.chain");
}
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	chained = 0;
	if (wp(1, 12)) adopt();
	if (wp(1, 400)) { crowd(); nontrivial(); return; }
	nslot = 1 + w(3);
	for (int i = 0; i < nslot; i++) { slot[i] = SUT(new P); slotlock[i] = SUT(new Mutex); }
	int nt = 2 + w(3), per = 3 + w(6);
	if (wp(1, 2)) { P p = SUT(P(new Obj(made++))); for (int i = 0; i < nslot; i++) SUTV(*slot[i] = p); }
	for (int t = 0; t < nt; t++) spawn("user", [=]() {
		P *mine = SUT(new P);
		for (int j = 0; j < per; j++) {
			int i = w(nslot);
			switch (w(11)) {
				case 0: if (made < 59) { int id = made++; Sut s; *mine = new Obj(id); count("op.make"); } break;
				case 1: case 2: { Sut s; P tmp; { ScopedLock l(*slotlock[i]); tmp = *slot[i]; } *mine = tmp; count("op.copy"); break; }	// take a copy of the shared pointer
				case 3: { Sut s; P old; { ScopedLock l(*slotlock[i]); old = *slot[i]; *slot[i] = *mine; } count("op.publish"); break; }
				case 10: chain(mine); break;
				case 4: { Sut s; mine->free(); count("op.free"); break; }
				case 5: { Sut s; *mine = (Obj *)0; count("op.null"); break; }
				case 6: { if (wp(1, 2)) { SUTV(*mine = mine->self()); use(*mine); } Sut s; *mine = *mine; P b(*mine), c(b); b = c; c = c.self(); count("op.self"); break; }
				case 9: {	// comparisons tell which object is meant, and change nothing
					Sut s; P b(*mine), none; Obj *o = mine->self(); P fresh(new Obj(63));
					bool ok = b == *mine && !(b != *mine) && *mine == o && !(*mine != o) && fresh != *mine && !(fresh == *mine) && fresh != o && !(fresh == o) && mine->isNULL() == !o && none.isNULL() && !fresh.isNULL() && (none == *mine) == !o && (!o || (&**mine == o && &b->id == &o->id)) && fresh->getRefCnt() == 1;
					fresh.free(); ok = ok && fresh.isNULL() && fresh == none; b.free(); ok = ok && b.isNULL();
					Harness h; CHECK(ok, "comparison", "two pointers compare wrongly"); destroyed[63] = 0; count("op.compare"); break; }
				case 7: use(*mine); { Sut s; ScopedLock l(*slotlock[i]); Harness h; use(*slot[i]); } count("op.use"); break;
				case 8: { Sut s; std::vector<P> v(3, *mine); v.push_back(*mine); v.erase(v.begin()); if (mine->self()) { Harness h; use(*mine); } count("op.container"); break; }
			}
			use(*mine);
		}
		SUTV(delete mine);
	});
	join_all();
	CHECK(destroyed[59] == chained, destroyed[59] < chained ? "leak" : "double-destroy", "of %d elements of chains %d were destroyed", chained, destroyed[59]);
	// exactly the objects still reachable are alive
	bool reach[64] = { 0 };
	for (int i = 0; i < nslot; i++) { use(*slot[i]); Obj *o = slot[i]->self(); if (o) reach[o->id] = true; }
	for (int i = 0; i < made; i++) CHECK(destroyed[i] == (reach[i] ? 0 : 1), reach[i] ? "destroyed-early" : destroyed[i] ? "double-destroy" : "leak", "object %d, %s, was destroyed %d times", i, reach[i] ? "still referenced" : "no longer referenced", destroyed[i]);
	for (int i = 0; i < nslot; i++) { Obj *o = slot[i]->self(); if (!o) continue; int n = 0; for (int k = 0; k < nslot; k++) n += slot[k]->self() == o; int c = SUT(o->getRefCnt()); CHECK(c == n, "wrong-count", "an object with %d pointers counts %d", n, c); }
	for (int i = 0; i < nslot; i++) SUTV(delete slot[i]);
	for (int i = 0; i < made; i++) CHECK(destroyed[i] == 1, destroyed[i] ? "double-destroy" : "leak", "object %d was destroyed %d times after the last pointer went away", i, destroyed[i]);
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C13", "Reference counting", run,
	"seeded run: 2-4 threads make, copy, publish, self-assign, drop and containerise reference counted pointers to shared objects; destructions are counted and every dereference is checked against the live heap",
	"RefCntBase, RefCntPointer, Mutex, Logger level lookup, ConfigurationTable in memory", "pthread, scheduler, clock, heap", 26000, 1200000);
