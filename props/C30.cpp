// C30: lines printed on the console by many threads stay whole, complete and in each thread's order.
#include "common.h"
#include <iostream>
using namespace sim;

static std::vector<std::string> said[5]; static int calls;
struct Slow { int n; };		// printed in pieces
static std::ostream &operator<<(std::ostream &os, const Slow &s) { for (int i = 0; i < s.n; i++) os << "<" << i << ">"; return os; }
static std::string text_of(const Slow &s) { std::string r; for (int i = 0; i < s.n; i++) { char b[20]; snprintf(b, sizeof b, "<%d>", i); r += b; } return r; }

static void run()
{
	swarm_schedule(); swarm_clock_phase();
	capture_streams(true);
	int nt = 1 + w(4), per = 1 + w(5); calls = 0;
	for (int t = 0; t < nt; t++) spawn("printer", [=]() {
		for (int j = 0; j < per; j++) {
			Slow s = { (int)w(6) }; int num = (int)w(100000), how = w(4); char b[60];
			snprintf(b, sizeof b, "T%d #%d %d ", t, j, num); std::string exp = b + text_of(s); char hx[20]; snprintf(hx, sizeof hx, " %x", num);
			if (how & 1) exp += hx;
			exp += ";";
			said[t].push_back(exp); calls++;
			{
				Sut u;
				switch (how) {
					case 0: COUT("T" << t << " #" << j << " " << num << " " << s << ";"); break;
					case 1: COUT("T" << t << " #" << j << " " << num << " " << s << " " << std::hex << num << ";"); break;
					case 2: CERR("T" << t << " #" << j << " " << num << " " << s << ";"); break;
					case 3: CERR("T" << t << " #" << j << " " << num << " " << s << " " << std::hex << num << ";"); break;
				}
			}
			count(how < 2 ? "op.cout" : "op.cerr");
			if (wp(1, 4)) sim::sleep_us(w(3000));
		}
	});
	join_all();
	std::string all = console(); size_t pos = 0; size_t next[5] = { 0 }; std::string name[5]; int lines = 0;
	while (pos < all.size()) {
		size_t nl = all.find('\n', pos);
		CHECK(nl != std::string::npos, "unfinished-line", "the console ends in the middle of a line: %.200s", all.c_str() + pos);
		std::string line = all.substr(pos, nl - pos); pos = nl + 1; lines++;
		size_t at = line.find("T", 0); int t = -1;
		// time, thread, maybe the place, then the text as it was given
		for (; at != std::string::npos; at = line.find("T", at + 1)) {
			t = at + 1 < line.size() ? line[at + 1] - '0' : -1;
			if (t >= 0 && t < nt && next[t] < said[t].size() && line.compare(at, std::string::npos, said[t][next[t]]) == 0) break;
		}
		CHECK(at != std::string::npos, "mixed-line", "a line that nobody printed, or not at this place: %.300s", line.c_str());
		next[t]++;
		// the thread is named, each by a name of its own
		size_t sp1 = line.find(' '), co = line.find(": "); CHECK(sp1 < co && co < at, "mixed-line", "a line without time and thread: %.300s", line.c_str());
		std::string who = line.substr(sp1 + 1, co - sp1 - 1);
		if (name[t].empty()) { for (int k = 0; k < nt; k++) CHECK(name[k] != who, "wrong-thread", "threads %d and %d have the same name %s", k, t, who.c_str()); name[t] = who; }
		CHECK(name[t] == who, "wrong-thread", "thread %d is named %s and %s", t, name[t].c_str(), who.c_str());
		CHECK(at > 0 && line[0] >= '0' && line[0] <= '9', "mixed-line", "a line without its time: %.300s", line.c_str());
	}
	CHECK(lines == calls, "lost-line", "%d lines were printed, %d are on the console", calls, lines);
	if (nt > 1) nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C30", "Console lines", run,
	"seeded run: 1-4 threads print lines with the console macros, in several pieces each and with changed number formats, preempted between the pieces; the captured console must consist of exactly these lines, whole and in each thread's order",
	"COUT, CERR, their stream lock, Timeval printing", "pthread, scheduler, clock, heap, the stream buffer", 64000, 1600000);
