// C12: deadlines: made, compared and turned into system time specifications correctly at every clock phase.
#include "common.h"
#include "Timeval.h"
using namespace sim;

static const unsigned ms_[] = { 0, 1, 2, 5, 10, 100, 250, 500, 900, 999, 1000, 1001, 1999, 2000, 60000, 86400000, 2147483000, 2147484999, 2592000000u, 4294967295u };
static uint64_t steps;	// of the wall clock, in this run: an answer is judged when none happened during the call
static void run()
{
	steps = 0;
	swarm_schedule();
	cfg.tick_us = (int[]){ 0, 1, 13, 117 }[draw(T, 4)];
	swarm_clock_phase({ 1, 2, 5, 10, 100, 250, 500, 900, 999, 1000, 1001, 1999, 2000 });
	bool jumps = wp(1, 3);
	int other = jumps ? spawn_daemon("clock-setter", [=]() { for (int i = 0; i < 6; i++) { sim::sleep_us(w(300000)); int64_t d = (int64_t)w(2000000) - 1000000; if (wp(1, 3)) d *= 3600; steps++; jump_wall(d); count("fault.clock_step"); } }) : -1;
	(void)other;
	for (int i = 0; i < 12; i++) {
		unsigned ms = wp(1, 3) ? w(100000) : ms_[w(20)];
		uint64_t n0 = steps;
		int64_t lo = wall_us();
		Timeval t = SUT(Timeval(ms));
		int64_t hi = wall_us();
		bool stepped = n0 != steps;
		int64_t us = (int64_t)t.sec() * 1000000 + t.usec();
		CHECK(t.usec() < 1000000, "not-normalised", "a deadline %u ms ahead has %u microseconds", ms, t.usec());
		struct timespec ts = SUT(t.timespec());
		CHECK(ts.tv_nsec >= 0 && ts.tv_nsec < 1000000000L, "invalid-timespec", "a deadline %u ms ahead became tv_nsec=%ld", ms, ts.tv_nsec);
		int64_t tus = (int64_t)ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
		CHECK(tus == us, "wrong-timespec", "a deadline at %lld us became %lld us", (long long)us, (long long)tus);
		if (!stepped) CHECK(us >= lo + ms * 1000LL && us <= hi + ms * 1000LL, "wrong-deadline", "asked for %u ms ahead of %lld..%lld, got %lld", ms, (long long)lo, (long long)hi, (long long)us);
		count("op.deadline");
		for (int j = 0; j < 4; j++) {
			switch (w(4)) {
				case 0: sim::sleep_us(w(3000)); break;
				case 1: { int64_t d = us - wall_us() + (int)w(5) - 2; if (d > 0 && d < 200000000) sim::sleep_us(d); break; }
				case 2: sim::sleep_us(w(1500000)); break;
				default: break;
			}
			uint64_t n = steps;
			int64_t a = wall_us(); bool p = SUT(t.passed()); int64_t b = wall_us();
			// with a clock that may be stepped at any moment only the answers of an undisturbed call are judged
			if (n == steps) {
				if (p) CHECK(b > us, "passed-early", "a deadline at %lld is said to have passed at %lld", (long long)us, (long long)b);
				else CHECK(a <= us, "passed-late", "a deadline at %lld is said not to have passed at %lld", (long long)us, (long long)a);
				count(p ? "op.passed" : "op.not_passed");
			}
			n = steps; a = wall_us(); long r = SUT(t.remaining()); b = wall_us();
			if (n == steps) CHECK(r * 1000 >= us - b - 2000 && r * 1000 <= us - a + 2000, "wrong-remaining", "%ld ms are said to remain until %lld at %lld", r, (long long)us, (long long)b);
			n = steps; a = wall_us(); long e = SUT(t.elapsed()); b = wall_us();
			if (n == steps) CHECK(e * 1000 >= a - us - 2000 && e * 1000 <= b - us + 2000, "wrong-elapsed", "%ld ms are said to have elapsed since %lld at %lld", e, (long long)us, (long long)b);
		}
		// a condition wait to that deadline ends there
		if (!jumps && wp(1, 3) && ms > 0) {
			static Mutex *m; static Signal *s; if (!m) { m = SUT(new Mutex); s = SUT(new Signal); }
			unsigned wms = 1 + w(3000); cfg.stall_mean = 0; cfg.spurious_den = 0;
			int64_t t0 = mono_us();
			{ Sut u; ScopedLock l(*m); s->wait(*m, (long)wms); }
			int64_t el = mono_us() - t0;
			CHECK(el >= wms * 1000LL - 1000 && el <= wms * 1000LL + 100000, "wrong-wait", "an unsignalled %u ms wait took %lld us", wms, (long long)el);
			count("op.wait");
			t0 = mono_us();
			{ Sut u; ScopedLock l(*m); s->wait(*m, -(long)w(3)); }
			CHECK(mono_us() - t0 < 100000, "wrong-wait", "a wait with no time left took %lld us", (long long)(mono_us() - t0));
		}
		if (wp(1, 4)) { long ms1 = w(3000); int64_t t0 = mono_us(); SUTV(msleep(ms1)); int64_t el = mono_us() - t0; CHECK(el >= ms1 * 1000 , "short-sleep", "a %ld ms sleep took %lld us", ms1, (long long)el); count("op.sleep"); }
		// two deadlines: the difference is the difference
		Timeval x = t; unsigned mins = wp(1, 3) ? 35000 + w(1000000) : w(100); SUTV(x.addMinutes(mins));
		long d = SUT(t.delta(x));
		CHECK(d == mins * 60000L, "wrong-delta", "%u minutes later is %ld ms later", mins, d);
		Timeval y = SUT(Timeval(t.sec() + (wp(1, 3) ? (long)w(60000000) - 30000000 : (long)w(3)), w(1000000)));
		int64_t exact = ((int64_t)y.sec() - t.sec()) * 1000000 + (int64_t)y.usec() - t.usec(); d = SUT(t.delta(y));
		CHECK(d * 1000 >= exact - 2000 && d * 1000 <= exact + 2000, "wrong-delta", "%lld us apart is %ld ms apart", (long long)exact, d);
		long back = SUT(y.delta(t));
		CHECK(back == -d, "wrong-delta", "differences of %ld and %ld ms in the two directions", d, back);
	}
	nontrivial();
}
static Prop p("C12", "Deadline arithmetic", run,
	"seeded run: twelve deadlines made at clock phases aimed at second boundaries, polled while time runs, stalls and (one run in three) the wall clock is stepped; answers are checked against the simulated clock read around each call",
	"Timeval, Signal timed wait, Mutex", "clock, sleep, condition variables, scheduler", 64000, 2000000);
