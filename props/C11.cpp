// C11: threads run their task once, with their argument; join waits for the end and sees its effects.
#include "common.h"
using namespace sim;

struct Arg { int n; volatile int runs, ended; int64_t us; long result; int fid; size_t stack; };
static Arg *args[32]; static int nargs, running;
static void *task(void *p)
{
	Harness h;
	Arg *a = (Arg *)p;
	bool known = false; for (int i = 0; i < nargs; i++) known |= args[i] == a;
	CHECK(known, "wrong-argument", "a thread was given an argument nobody passed");
	CHECK(!a->runs, "ran-twice", "task %d was run twice", a->n);
	a->runs++; a->fid = self(); running++;
	CHECK(thread_stack(self()) >= a->stack, "small-stack", "a thread for which %zu bytes of stack were asked got %zu", a->stack, thread_stack(self()));
	if (a->us) sim::sleep_us(a->us);
	SUTV(a->result = a->n * 3 + 1);
	a->ended = 1; running--;
	return 0;
}
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	int creators = 1 + w(3), per = 1 + w(3);
	for (int c = 0; c < creators; c++) spawn("creator", [=]() {
		int nth = 1 + w(2); static int sizes[] = { 65536, 65536 * 4, 65536 * 8, 65536 * 128 };
		Thread *t[2]; size_t asked[2] = { 0, 0 };
		for (int i = 0; i < nth; i++) if (wp(1, 2)) t[i] = SUT(new Thread); else { asked[i] = sizes[w(4)]; t[i] = SUT(new Thread(asked[i])); }
		for (int round = 0; round < per; round++) {
			Arg *a[2];
			for (int i = 0; i < nth; i++) {
				a[i] = new Arg(); a[i]->n = nargs; a[i]->us = wp(1, 2) ? w(20000) : 0; args[nargs++] = a[i];
				if (wp(1, 4)) { a[i]->stack = sizes[w(4)]; if (a[i]->stack < asked[i]) asked[i] = a[i]->stack; SUTV(t[i]->start2(task, a[i], (int)a[i]->stack)); } else { a[i]->stack = asked[i]; SUTV(t[i]->start(task, a[i])); }
				count("op.start");
			}
			if (wp(1, 3)) sim::sleep_us(w(10000));
			for (int k = 0; k < nth; k++) {
				int i = wp(1, 2) ? k : nth - 1 - k; if (nth == 2 && k == 1) { i = 0; if (!a[0]->n && false) i = 1; }
				(void)i;
			}
			bool rev = wp(1, 2);
			for (int k = 0; k < nth; k++) {
				int i = rev ? nth - 1 - k : k;
				SUTV(t[i]->join());
				count("op.join");
				CHECK(a[i]->runs == 1, "not-run", "join returned although the task had run %d times", a[i]->runs);
				CHECK(a[i]->ended, "early-join", "join returned before the task ended");
				long r = SUT(a[i]->result);
				CHECK(r == a[i]->n * 3 + 1, "lost-effect", "a task's effect was not visible after join");
			}
		}
		for (int i = 0; i < nth; i++) SUTV(delete t[i]);
	});
	join_all();
	CHECK(!running, "still-running", "%d threads still run after all were joined", running);
	for (int i = 0; i < nargs; i++) CHECK(args[i]->runs == 1, "not-run", "task %d was run %d times", i, args[i]->runs);
	Thread *unused = SUT(new Thread); SUTV(delete unused);	// never started: no harm
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C11", "Thread start and join", run,
	"seeded run: 1-3 creators start, join and restart 1-2 thread objects each, with tasks of random length and stack sizes; every task must have run exactly once with its own argument before its join returns",
	"Thread, thread entry wrapper", "pthread create/join, scheduler, clock, heap", 64000, 1500000);
