// C28: the counts of live objects kept for leak detection are exact, whatever threads create and destroy the objects.
#include "common.h"
#include "Utils.h"
#include "MemoryLeak.h"
#include <sstream>
using namespace sim;

// classes of the program under test, each an alias of one enumerated kind
namespace CommonLibsSim {
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(TranEntry, MemCheckTranEntry)
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(MMUser, MemCheckMMUser)
}
struct A : CommonLibsSim::MemCheckTranEntry { long x; };
struct B : CommonLibsSim::MemCheckMMUser { long y; };
struct C { C() { RN_MEMCHKNEW(RachInfo) } ~C() { RN_MEMCHKDEL(RachInfo) } };
struct D : A, B {};		// two kinds at once
static void *copy_of(int kind, void *o) { if (kind == 1) return new B(*(B *)o); if (kind == 3) return new D(*(D *)o); return new A(*(A *)o); }

enum { NT = 5, SITES = 4 };
static int made[3], gone[3];		// by kind: how many constructions and destructions ended
static int begun[3], going[3];		// and began
static std::vector<std::pair<int, void *> > pool; static int labels[SITES];
static A *labelled(int site) { A *a = new A; if (site == 0) { RN_MEMLOG(A, a); } else if (site == 1) { RN_MEMLOG(A, a); } else { RN_MEMLOG(A, a); } return a; }
// and one far down a source tree

#line 1 "/home/build/range/openbts/5.0/components/openbts/apps/../CommonLibs/../Control/L3TranEntry/ControlTransactionEntries.cpp"
static A *far_labelled() { A *a = new A; RN_MEMLOG(A, a); return a; }
#line 30 "props/C28.cpp"
static int now(int kind) { static const int idx[] = { Utils::MemStats::mTranEntry, Utils::MemStats::mMMUser, Utils::MemStats::mRachInfo }; return SUT(Utils::gMemStats.mMemNow[idx[kind]]); }
static int total(int kind) { static const int idx[] = { Utils::MemStats::mTranEntry, Utils::MemStats::mMMUser, Utils::MemStats::mRachInfo }; return SUT(Utils::gMemStats.mMemTotal[idx[kind]]); }
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	int nt = 2 + w(NT - 1), per = 2 + w(8); bool debug = wp(1, 2);
	Utils::gMemLeakDebug = debug;
	int base[3], basetot[3]; for (int k = 0; k < 3; k++) { base[k] = now(k); basetot[k] = total(k); }
	for (int t = 0; t < nt; t++) spawn("user", [=]() {
		for (int j = 0; j < per; j++) {
			int what = w(7);
			auto dirty = [=](int k, int d) { (d > 0 ? begun : going)[k]++; };
			auto clean = [=](int k, int d) { (d > 0 ? made : gone)[k]++; };
			if (what < 4 || pool.empty()) {
				int kind = w(5); void *o;
				if (kind == 0) { dirty(0, 1); o = SUT(new A); clean(0, 1); }
				else if (kind == 1) { dirty(1, 1); o = SUT(new B); clean(1, 1); }
				else if (kind == 2) { dirty(2, 1); o = SUT(new C); clean(2, 1); }
				else if (kind == 3) { dirty(0, 1); dirty(1, 1); o = SUT(new D); clean(0, 1); clean(1, 1); }
				else { int site = w(SITES); kind = 10 + site; dirty(0, 1); o = SUT(site == 3 ? far_labelled() : labelled(site)); clean(0, 1); labels[site]++; }
				pool.push_back(std::make_pair(kind, o)); count("op.create");
			} else if (what == 6) {		// a copy is one more object, without the label
				int i = w((unsigned)pool.size()); int kind = pool[i].first; void *o = pool[i].second;
				if (kind == 2) continue;
				pool.erase(pool.begin() + i);		// nobody else destroys it meanwhile
				bool a = kind != 1, b = kind == 1 || kind == 3;
				if (a) dirty(0, 1); if (b) dirty(1, 1);
				void *c = SUT(copy_of(kind, o));
				if (a) clean(0, 1); if (b) clean(1, 1);
				if (kind >= 10 && wp(1, 2)) { dirty(0, 1); A *s = SUT(new A); clean(0, 1); SUTV(*s = *(A *)o); pool.push_back(std::make_pair(0, (void *)s)); count("op.assign"); }
				pool.push_back(std::make_pair(kind, o)); pool.push_back(std::make_pair(kind >= 10 ? 0 : kind, c)); count("op.copy");
			} else {
				int i = w((unsigned)pool.size()); int kind = pool[i].first; void *o = pool[i].second; pool.erase(pool.begin() + i);
				if (kind == 0) { dirty(0, -1); SUTV(delete (A *)o); clean(0, -1); }
				else if (kind == 1) { dirty(1, -1); SUTV(delete (B *)o); clean(1, -1); }
				else if (kind == 2) { dirty(2, -1); SUTV(delete (C *)o); clean(2, -1); }
				else if (kind == 3) { dirty(0, -1); dirty(1, -1); SUTV(delete (D *)o); clean(0, -1); clean(1, -1); }
				else { dirty(0, -1); SUTV(delete (A *)o); clean(0, -1); labels[kind - 10]--; }
				count("op.destroy");
			}
			if (wp(1, 4)) {
				// at any moment: between what ended and what began
				int k = w(3), made0 = made[k], gone0 = gone[k];
				int n = now(k) - base[k], tt = total(k);
				CHECK(n >= made0 - going[k] && n <= begun[k] - gone0, "wrong-count", "between %d and %d objects of kind %d are alive, %d are counted", made0 - going[k], begun[k] - gone0, k, n);
				int lot = made0;
				CHECK(tt - basetot[k] >= lot && tt - basetot[k] <= begun[k], "wrong-total", "%d objects of kind %d were made, %d are counted", made[k], k, tt - basetot[k]);
			}
			if (wp(1, 8)) { std::ostringstream os; SUTV(Utils::gMemStats.text(os)); count("op.text"); }
		}
	});
	join_all();
	for (int k = 0; k < 3; k++) {
		CHECK(now(k) - base[k] == made[k] - gone[k], "wrong-count", "%d objects of kind %d are alive, %d are counted", made[k] - gone[k], k, now(k) - base[k]);
		CHECK(total(k) - basetot[k] == made[k], "wrong-total", "%d objects of kind %d were made, %d are counted", made[k], k, total(k) - basetot[k]);
	}
	int sum = 0, want = 0;
	for (auto &e : Utils::gMemStats.mMemMap) if (!e.first.empty()) { sum += (int)e.second; CHECK((int)e.second >= 0, "wrong-label", "%s counts %d live objects", e.first.c_str(), (int)e.second); }
	for (int s = 0; s < SITES; s++) want += labels[s];
	CHECK(sum == want, "wrong-label", "%d objects from labelled places are alive, %d are counted", want, sum);
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C28", "Live object counts", run,
	"seeded run: 2-6 threads create, copy, assign and destroy objects of three counted kinds, some with two kinds at once and some labelled by the place of creation, while others read the counts; afterwards every count must equal the objects made and alive",
	"MemStats, MemLabel, the leak detector classes, Mutex, Logger", "pthread, scheduler, clock, heap", 34000, 1600000);
