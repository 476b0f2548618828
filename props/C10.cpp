// C10: the binary semaphore.
#include "common.h"
#include "Interthread.h"
using namespace sim;

enum { POST, GET, TRYG };
static const char *opname(int k) { static const char *n[] = { "post", "get", "semtry" }; return n[k]; }
struct Model {
	bool f; Model() : f(false) {}
	std::string key() const { return f ? "1" : "0"; }
	bool apply(const LOp &o)
	{
		switch (o.kind) {
			case POST: f = true; return true;
			case GET: if (!f) return false; f = false; return true;
			case TRYG: if (o.done && (o.r != 0) != f) return false; f = false; return true;
		}
		return false;
	}
};
static Semaphore *s_; static History h; static int gets, posts, want;
static void post() { int k = h.begin(POST); SUTV(s_->post()); h.end(k); posts++; count("op.post"); }
static void get() { int k = h.begin(GET); SUTV(s_->get()); h.end(k); gets++; count("op.get"); }
static bool try_() { int k = h.begin(TRYG); bool r = SUT(s_->semtry()); h.end(k, r); count(r ? "op.try_hit" : "op.try_miss"); return r; }
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	s_ = SUT(new Semaphore);
	int mode = w(3);
	if (mode == 0) {	// storm of posts and tries, getters fed until they are done
		int ng = 1 + w(3), np = 1 + w(3), per = 1 + w(4), done0 = 0; (void)done0;
		static int left; left = 0;
		for (int i = 0; i < ng; i++) { int n = 1 + w(3); left += n; spawn("getter", [=]() { for (int j = 0; j < n; j++) { get(); left--; if (wp(1, 4)) sim::sleep_us(w(3000)); } }); }
		bool tries = wp(1, 2);
		if (tries) spawn("trier", [=]() { for (int j = 0; j < per + 2; j++) { try_(); if (wp(1, 3)) sim::sleep_us(w(3000)); } });
		for (int i = 0; i < np; i++) spawn("poster", [=]() { for (int j = 0; j < per; j++) { post(); if (wp(1, 3)) sim::sleep_us(w(3000)); } });
		spawn("feeder", [=]() { for (int j = 0; j < 40 && left > 0; j++) { sim::sleep_us(20000); post(); } });
		join_all();
	} else if (mode == 1) {	// strict hand over: each post is made only once the one before was taken, so each must wake somebody
		int ng = 1 + w(4), per = 1 + w(3); want = ng * per;
		for (int i = 0; i < ng; i++) spawn("getter", [=]() { for (int j = 0; j < per; j++) { get(); if (wp(1, 3)) sim::sleep_us(w(3000)); } });
		spawn("poster", [=]() { for (int j = 0; j < want; j++) { if (wp(1, 3)) sim::sleep_us(w(3000)); post(); wait_until([=]() { return gets == j + 1; }); } });
		join_all();
		CHECK(gets == want, "extra-get", "%d posts let %d gets pass", want, gets);
	} else {		// more posts than gets merge; fewer posts than gets leave getters waiting
		int np = 1 + w(4);
		for (int i = 0; i < np; i++) post();
		CHECK(try_(), "lost-post", "a post was not seen by the next try");
		CHECK(!try_(), "posts-not-merged", "posts are meant to merge: a second try succeeded after one was taken");
		int g = spawn("getter", [=]() { get(); });
		sim::sleep_us(50000);
		CHECK(!done(g), "extra-get", "a get returned without a post");
		post(); join(g);
	}
	check_linearizable(h, Model(), opname);
	CHECK(gets <= posts, "extra-get", "%d gets for %d posts", gets, posts);
	SUTV(delete s_);
	nontrivial();
}
static Prop p("C10", "Semaphore", run,
	"seeded run: posters, getters and triers in a storm, in strict hand-over, or counting merged posts; history checked for linearizability against one flag, a getter left asleep with the flag set shows as a deadlock",
	"Semaphore, Mutex, Signal", "pthread mutex and condition variables, scheduler, clock, heap", 96000, 3000000);
