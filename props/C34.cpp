// C34: vectors hold what their operations define, segments alias without owning, and storage is released once - also when memory runs out on the way.
#include "common.h"
#include "Interthread.h"
#include "BitVector.h"
#include <memory>
using namespace sim;

static void arm(unsigned den) { alloc_fail(chance(F, 1, den) ? 1 + draw(F, 3) : 0); }
static bool trouble;
template <class V> struct Kind;
template <> struct Kind<BitVector> { typedef char T; enum { BITS = 1, SHIFTS = 0 }; static char val() { return w(2); } };
template <> struct Kind<SoftVector> { typedef float T; enum { BITS = 0, SHIFTS = 1 }; static float val() { return w(9) / 8.0F; } };
template <> struct Kind<Vector<int> > { typedef int T; enum { BITS = 0, SHIFTS = 1 }; static int val() { return w(1000000); } };

template <class V> struct World {
	typedef typename Kind<V>::T T; enum { BITS = Kind<V>::BITS, SHIFTS = Kind<V>::SHIFTS };
	struct Store { std::vector<T> d; bool live; Store(size_t n) : d(n), live(true) {} };		// a block, and whether its owner still has it
	struct Slot { V *v; std::shared_ptr<Store> s; size_t off, len; bool owns; Slot() : v(0), off(0), len(0), owns(false) {} T at(size_t i) const { return s->d[off + i]; } };
	struct Parcel { Slot a; };
	enum { N = 6 }; Slot p[N];
	InterthreadQueue<Parcel> *post;

	void verify(const Slot &x, const char *when)
	{
		size_t n = SUT(x.v->size()); CHECK(n == x.len, "wrong-size", "%s a vector has %zu elements instead of %zu", when, n, x.len);
		CHECK(SUT(x.v->bytes()) == n * sizeof(T), "wrong-size", "%s %zu elements are %zu bytes", when, n, SUT(x.v->bytes()));
		if (n) CHECK(SUT(x.v->isOwner()) == x.owns, "wrong-owner", "%s a vector of %zu elements %s its storage", when, n, x.owns ? "does not own" : "owns");
		for (size_t i = 0; i < n; i++) { T t = SUT((*x.v)[i]); CHECK(t == x.at(i), "wrong-element", "%s element %zu of %zu is %g instead of %g", when, i, n, (double)t, (double)x.at(i)); }
	}
	void all(const char *when) { for (auto &x : p) if (x.v) verify(x, when); }
	void fill(Slot &x) { for (size_t i = 0; i < x.len; i++) { T t = Kind<V>::val(); SUTV((*x.v)[i] = t); x.s->d[x.off + i] = t; } }
	// the owner's block is gone: aliases of it must not be looked at any more, only released
	void released(std::shared_ptr<Store> s) { if (!s) return; s->live = false; for (auto &x : p) if (x.v && !x.owns && x.s == s && x.len) { V *v = x.v; x = Slot(); SUTV(delete v); count("op.drop_alias"); } }
	void drop(int i) { Slot x = p[i]; p[i] = Slot(); SUTV(delete x.v); if (x.owns) released(x.s); count("op.delete"); }
	void fresh(Slot &x, size_t n) { x.s = std::make_shared<Store>(n); x.off = 0; x.len = n; x.owns = n > 0; }
	void copied(Slot &x, const Slot &y) { std::shared_ptr<Store> s = std::make_shared<Store>(y.len); for (size_t i = 0; i < y.len; i++) s->d[i] = y.at(i); x.s = s; x.off = 0; x.len = y.len; x.owns = y.len > 0; }
	void aliased(Slot &x, const Slot &y, size_t off, size_t len) { x.s = y.s; x.off = y.off + off; x.len = len; x.owns = false; }
	// an operation that gives slot i something new in place of what it held; false: memory ran out and i is empty or as it was
	template <class Op> bool attempt(int i, bool mayfail, Op op)
	{
		if (mayfail && trouble) arm(3);
		try { Sut s; op(); alloc_fail(0); return true; }
		catch (std::bad_alloc &) {
			bool f = alloc_failed(); alloc_fail(0); CHECK(f, "spurious-error", "an operation ran out of memory although there is enough"); count("fault.alloc");
			Slot &x = p[i]; if (!x.v) return false;		// nothing came into being
			size_t n = SUT(x.v->size());
			CHECK(n == x.len || n == 0, "half-done", "after running out of memory a vector of %zu elements has %zu", x.len, n);
			if (n) CHECK(SUT(x.v->isOwner()) == x.owns, "wrong-owner", "after running out of memory a vector of %zu elements %s storage", n, n && x.owns ? "does not own its" : "owns");
			if (n != x.len || !n) { std::shared_ptr<Store> s = x.s; bool o = x.owns; x.s.reset(); x.len = 0; x.owns = false; if (o) released(s); }
			return false;
		}
	}
	void step()
	{
		int i = w(N), j = w(N), k = w(N), how = w(15);
		for (int q = 0; q < N; q++) { if (!p[j].v) j = (j + 1) % N; if (!p[k].v) k = (k + 2) % N; if (how >= 7 ? !p[i].v : p[i].v && q % 3) i = (i + 1) % N; }
		Slot &x = p[i]; size_t n = w(4) ? w(20) : w(400);
		if (how < 7 && x.v) { drop(i); }		// the first ones make a new vector
		if (how >= 7 && !x.v) how = 0;
		Slot &y = p[j], &z = p[k]; 
		switch (how) {
			case 0: if (attempt(i, true, [&]() { V *v = new V(n); x.v = v; })) { fresh(x, n); fill(x); count("op.new"); } break;
			case 1: if (y.v && attempt(i, true, [&]() { const V &c = *y.v; V *v = new V(c); x.v = v; })) { if (BITS && !y.owns) aliased(x, y, 0, y.len); else copied(x, y); count("op.copy"); } break;
			case 2: if (y.v) shifted(x, y); break;
			case 3: if (y.v && z.v && attempt(i, true, [&]() { x.v = concat(*y.v, *z.v); })) { Slot c; c.s = std::make_shared<Store>(y.len + z.len); for (size_t q = 0; q < y.len; q++) c.s->d[q] = y.at(q); for (size_t q = 0; q < z.len; q++) c.s->d[y.len + q] = z.at(q); x.s = c.s; x.off = 0; x.len = y.len + z.len; x.owns = x.len > 0; count("op.concat"); } break;
			case 4: case 5: if (y.v) { size_t a = w(y.len + 1), b = w(y.len - a + 1); int m = w(3); if (m == 1) a = 0; if (m == 2) b = y.len - a; if (attempt(i, false, [&]() { x.v = new V(m == 0 ? y.v->segment(a, b) : m == 1 ? y.v->head(b) : y.v->tail(a)); })) { aliased(x, y, a, b); count("op.segment"); } } break;
			case 6: if (y.v) special(x, y, i); break;
			case 7: if (attempt(i, true, [&]() { x.v->resize(n); })) { std::shared_ptr<Store> s = x.s; bool o = x.owns; fresh(x, n); if (o) released(s); fill(x); count("op.resize"); } break;
			case 8: { SUTV(x.v->clear()); std::shared_ptr<Store> s = x.s; bool o = x.owns; fresh(x, 0); if (o) released(s); count("op.clear"); break; }
			case 9: if (y.v) { if (attempt(i, true, [&]() { x.v->clone(*y.v); })) { std::shared_ptr<Store> s = x.s; bool o = x.owns; copied(x, y); if (o) released(s); count("op.clone"); } } break;
			case 10: if (y.v && z.v && attempt(i, true, [&]() { x.v->vConcat(*y.v, *z.v); })) { std::shared_ptr<Store> s = x.s; bool o = x.owns; Slot c; c.s = std::make_shared<Store>(y.len + z.len); for (size_t q = 0; q < y.len; q++) c.s->d[q] = y.at(q); for (size_t q = 0; q < z.len; q++) c.s->d[y.len + q] = z.at(q); x.s = c.s; x.off = 0; x.len = y.len + z.len; x.owns = x.len > 0; if (o) released(s); count("op.concat"); } break;
			case 11: if (y.v && i != j && y.s != x.s) {	// parts of one into another
				size_t m = std::min(x.len, y.len), span = w(m + 1), at = w((wp(1, 2) ? y.len : x.len) - span + 1);
				if (at + span <= y.len && wp(1, 2)) { SUTV(x.v->copyToSegment(*y.v, at, span)); for (size_t q = 0; q < span; q++) y.s->d[y.off + at + q] = x.at(q); }
				else if (at + span <= x.len) { SUTV(x.v->segmentCopyTo(*y.v, at, span)); for (size_t q = 0; q < span; q++) y.s->d[y.off + q] = x.at(at + q); }
				count("op.copy_part");
			} break;
			case 12: { T t = Kind<V>::val(); size_t a = w(x.len + 1), b = w(x.len - a + 1); if (wp(1, 3)) { SUTV(x.v->fill(t)); a = 0; b = x.len; } else SUTV(x.v->fill(t, a, b)); for (size_t q = 0; q < b; q++) x.s->d[x.off + a + q] = t; count("op.fill"); break; }
			case 13: if (x.len) { size_t a = w(x.len); T t = Kind<V>::val(); SUTV((*x.v)[a] = t); x.s->d[x.off + a] = t; count("op.write"); } break;
			case 14: if (y.v) assign(x, y, i, i != j && x.owns && y.s == x.s); break;
		}
	}
	// to another thread: an owner goes with its storage
	void exchange()
	{
		int i = w(N); if (p[i].v && p[i].owns) { Parcel *q = new Parcel; q->a = p[i]; p[i] = Slot(); released(q->a.s); q->a.s->live = true; SUTV(post->write(q)); count("op.hand_over"); }
		Parcel *q = SUT(post->readNoBlock()); if (!q) return;
		i = w(N); if (p[i].v) drop(i); p[i] = q->a; delete q; verify(p[i], "after it was handed over");
	}
	void finish() { for (int i = 0; i < N; i++) if (p[i].v) drop(i); }
	static V *concat(const V &a, const V &b);
	void shifted(Slot &x, Slot &y);
	void assign(Slot &x, Slot &y, int i, bool inside);
	void special(Slot &x, Slot &y, int i);
};
template <> BitVector *World<BitVector>::concat(const BitVector &a, const BitVector &b) { return new BitVector(a, b); }
template <> Vector<int> *World<Vector<int> >::concat(const Vector<int> &a, const Vector<int> &b) { return new Vector<int>(a, b); }
template <> SoftVector *World<SoftVector>::concat(const SoftVector &a, const SoftVector &b) { return new SoftVector(Vector<float>(a, b)); }
// the vectors that hand their storage on when copied from a changeable one: it stays readable through the old one
template <> void World<BitVector>::shifted(Slot &, Slot &) {}
template <> void World<Vector<int> >::shifted(Slot &x, Slot &y) { SUTV(x.v = new Vector<int>(*y.v)); aliased(x, y, 0, y.len); x.owns = y.owns; y.owns = false; count("op.shift"); }
template <> void World<SoftVector>::shifted(Slot &, Slot &) {}
template <> void World<BitVector>::assign(Slot &x, Slot &y, int i, bool inside)
{
	if (inside) return;		// it would become an alias of what it releases
	bool o = x.owns; std::shared_ptr<Store> s = x.s;
	if (wp(1, 3) && !x.owns) { SUTV(x.v->dup(y.v->alias())); aliased(x, y, 0, y.len); count("op.dup"); return; }
	if (!attempt(i, true, [&]() { *x.v = *y.v; })) return;
	if (y.owns) copied(x, y); else aliased(x, y, 0, y.len);
	if (o) released(s);
	count("op.assign");
}
template <> void World<Vector<int> >::assign(Slot &x, Slot &y, int i, bool inside)
{
	bool o = x.owns; std::shared_ptr<Store> s = x.s;
	if (wp(1, 2)) { if (inside) return; SUTV(*x.v = *y.v); if (&x == &y) return; aliased(x, y, 0, y.len); x.owns = y.owns; y.owns = false; count("op.assign_shift"); }
	else { const Vector<int> &c = *y.v; if (!attempt(i, true, [&]() { *x.v = c; })) return; copied(x, y); count("op.assign"); }
	if (o) released(s);
}
template <> void World<SoftVector>::assign(Slot &, Slot &, int, bool) {}
template <> void World<BitVector>::special(Slot &x, Slot &y, int i)
{
	size_t a = w(y.len + 1), b = w(y.len - a + 1); if (wp(1, 3)) { a = 0; b = y.len; }
	switch (w(4)) {
		case 0: if (attempt(i, true, [&]() { x.v = new BitVector(y.v->cloneSegment(a, b)); })) { Slot c; aliased(c, y, a, b); copied(x, c); count("op.clone_segment"); } break;
		case 1: { std::string t; for (size_t q = 0; q < b; q++) t += w(2) ? '1' : '0'; if (attempt(i, true, [&]() { x.v = new BitVector(t.c_str()); })) { fresh(x, b); for (size_t q = 0; q < b; q++) x.s->d[q] = t[q] == '1'; count("op.parse"); } break; }
		case 2: if (attempt(i, false, [&]() { x.v = new BitVector(y.v->alias()); })) { aliased(x, y, 0, y.len); count("op.alias"); } break;
		default: if (attempt(i, true, [&]() { SoftVector sv(*y.v); x.v = new BitVector(sv.sliced()); })) { copied(x, y); count("op.slice"); } break;
	}
}
template <> void World<Vector<int> >::special(Slot &x, Slot &y, int i) { if (attempt(i, true, [&]() { const Vector<int> &c = *y.v; x.v = new Vector<int>(c.tail(0)); })) { aliased(x, y, 0, y.len); count("op.alias"); } }
template <> void World<SoftVector>::special(Slot &x, Slot &y, int i)
{
	if (wp(1, 2)) { if (attempt(i, false, [&]() { x.v = new SoftVector(y.v->alias()); })) { aliased(x, y, 0, y.len); count("op.alias"); } return; }
	BitVector *bits; size_t b = w(30); std::string t; for (size_t q = 0; q < b; q++) t += w(2) ? '1' : '0';
	SUTV(bits = new BitVector(t.c_str()));
	if (attempt(i, true, [&]() { x.v = new SoftVector(*bits); })) { fresh(x, b); for (size_t q = 0; q < b; q++) x.s->d[q] = t[q] == '1' ? 1.0F : 0.0F; count("op.from_bits"); }
	SUTV(delete bits);
}
template <class V> static void worlds()
{
	typedef World<V> Wd; auto *post = SUT(new InterthreadQueue<typename Wd::Parcel>); int nt = 1 + w(3);
	for (int i = 0; i < nt; i++) spawn("owner", [=]() {
		Wd wd; wd.post = post; int per = 5 + w(40);
		for (int j = 0; j < per; j++) { if (wp(1, 6)) wd.exchange(); else wd.step(); if (wp(1, 4)) wd.all("between operations"); }
		wd.all("in the end"); wd.finish();
	});
	join_all();
	while (typename Wd::Parcel *q = SUT(post->readNoBlock())) { SUTV(delete q->a.v); delete q; }
	SUTV(delete post);
}
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	trouble = wp(2, 3); uint64_t b0 = heap_blocks();
	switch (w(3)) { case 0: worlds<BitVector>(); break; case 1: worlds<Vector<int> >(); break; default: worlds<SoftVector>(); }
	CHECK(heap_blocks() == b0, "leak", "%lld blocks are left when all vectors are gone", (long long)(heap_blocks() - b0));
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C34", "Vector storage", run,
	"seeded run: 1-3 threads make, copy, concatenate, slice, resize, assign, alias and destroy bit, soft and plain vectors and hand owners over to each other through a queue, with allocations failing at random; after any operation each vector holds the elements a model of the blocks and their owners gives it, and the heap shows every block released exactly once",
	"Vector, BitVector, SoftVector, Interthread, Threads", "pthread, scheduler, clock, heap with injected allocation failures", 60000, 4000000);
