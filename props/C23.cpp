// C23: logging levels - per file, per group and default - take effect, also while they are changed or removed.
#define LOG_GROUP LogGroup::SIP
#include "common.h"
using namespace sim;

extern int getLoggingLevel(const char *);
static const char *lname[] = { "EMERG", "ALERT", "CRIT", "ERR", "WARNING", "NOTICE", "INFO", "DEBUG" };
static const struct { const char *n; int l; } names[] = { { "EMERG", 0 }, { "ALERT", 1 }, { "CRIT", 2 }, { "ERR", 3 }, { "WARNING", 4 }, { "NOTICE", 5 }, { "INFO", 6 }, { "DEBUG", 7 }, { "INFORMATION", 6 }, { "WARN", 4 }, { "ERROR", 3 }, { "CRITICAL", 2 }, { "EMERGENCY", 0 } };
enum { NFILE = 4, NAMES = sizeof names / sizeof *names, DEFLEVEL = 5 };
static const char *files[NFILE] = { "Radio.cpp", "radio.cpp", "a/b.cpp", "b.cpp" };
static const char *gname[] = { "Control", "SIP", "GSM", "GPRS", "Layer2", "SMS" };
static int def, own[NFILE];			// levels in force; own -1 = none
static std::vector<bool> everF[NFILE], everD;	// levels that were ever in force
static bool taint[NFILE];		// a misspelled level may still be being replaced, so a later change can be lost
static int gl[6], wl[6]; static bool bogus;

static std::string file_key(int f) { return std::string("Log.Level.") + files[f]; }
static std::string any_name(int &l) { int i = w(NAMES); l = names[i].l; return names[i].n; }
static void set_key(const std::string &k, const std::string &v) { bool r = SUT(gConfig.set(k, v)); CHECK(r, "set-failed", "a level could not be set"); }
static void set_default() { int l; std::string n = any_name(l); everD[l] = true; set_key("Log.Level", n); def = l; }
static void set_file(int f)
{
	int l;
	switch (w(6)) {
		case 0: { bool r = SUT(gConfig.remove(file_key(f))); CHECK(r, "remove-failed", "a level could not be removed"); own[f] = -1; break; }
		case 1: set_key(file_key(f), ""); own[f] = -1; break;		// what the command line's unconfig leaves
		default: { std::string n = any_name(l); everF[f][l] = true; set_key(file_key(f), n); own[f] = l; }
	}
}
static void set_group(int g, bool watch)
{
	int l; std::string k = std::string(watch ? "Log.Watch." : "Log.Group.") + gname[g]; int *t = watch ? wl : gl;
	switch (w(4)) {
		case 0: { bool r = SUT(gConfig.remove(k)); CHECK(r, "remove-failed", "a level could not be removed"); t[g] = 0; break; }
		case 1: set_key(k, ""); t[g] = 0; break;
		default: set_key(k, any_name(l)); t[g] = l;
	}
}
// what a logging and a watching statement of this file and group let through
#define ONE(L) case LOG_##L: { Sut s; LOG(L) << t; } { Sut s; WATCHLEVEL(L, t) } break;
static void statements()
{
	static const std::string k = std::string("Log.Level.") + __FILE__; int fl = def; enum { SIP = 1 };
	if (wp(1, 2)) { int l; set_key(k, any_name(l)); fl = l; }
	for (int i = 0; i < 1100; i++) (void)SUT(gGetLoggingLevel(__FILE__));
	for (int l = 0; l < 8; l++) {
		std::string t = "<<statement" + std::to_string(l) + ">>"; size_t s0 = syslog_recs().size(), c0 = console().size();
		switch (l) { ONE(EMERG) ONE(ALERT) ONE(CRIT) ONE(ERR) ONE(WARNING) ONE(NOTICE) ONE(INFO) ONE(DEBUG) }
		int n = 0; for (size_t i = s0; i < syslog_recs().size(); i++) n += syslog_recs()[i].text.find(t) != std::string::npos;
		int want = gl[SIP] >= l || fl >= l;
		CHECK(n == want, "statement-level", "a %s statement, its group at %s and its file at %s, logs %d times", lname[l], lname[gl[SIP]], lname[fl], n);
		n = 0; for (size_t p = console().find(t, c0); p != std::string::npos; p = console().find(t, p + 1)) n++;
		want = (want && l <= 2) + (wl[SIP] >= l);
		CHECK(n == want, "statement-level", "a %s statement and watch, watching at %s, shows %d times on the console instead of %d", lname[l], lname[wl[SIP]], n, want);
	}
	if (SUT(gConfig.defines(k))) { bool r = SUT(gConfig.remove(k)); CHECK(r, "remove-failed", "a level could not be removed"); }
	for (int i = 0; i < 1100; i++) (void)SUT(gGetLoggingLevel(__FILE__));
	count("probe.statements");
}
static int effective(int f) { return own[f] >= 0 ? own[f] : def; }
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	capture_streams(true);
	everD.assign(8, false); def = DEFLEVEL; everD[def] = true; bogus = false;
	for (int f = 0; f < NFILE; f++) { everF[f].assign(8, false); own[f] = -1; taint[f] = false; }
	memset(gl, 0, sizeof gl); memset(wl, 0, sizeof wl);
	bool bad = wp(1, 4);
	int nt = 1 + w(3);
	for (int i = 0; i < nt; i++) spawn("logger", [=]() {
		int per = 3 + w(12);
		for (int j = 0; j < per; j++) {
			switch (w(5)) {
				case 0: { SUTV(gLogGroup.setAll()); count("op.set_all"); break; }
				case 1: { int g = w(6); unsigned l = w(8); bool r = SUT(gCheckGroupLogLevel((LogGroup::Group)g, l)); CHECK(r || l > 0, "group-off", "the most severe level is switched off"); break; }
				default: {
					int f = w(NFILE);
					int l = SUT(gGetLoggingLevel(files[f]));
					CHECK(l >= 0 && l < 8, "bad-level", "the level of a file is %d", l);
					CHECK(everF[f][l] || everD[l] || bogus, "foreign-level", "the level of %s is %s, which was never set for it", files[f], lname[l]);
					count("op.level");
				}
			}
		}
	});
	if (wp(3, 4)) spawn("operator", [=]() {
		int per = 1 + w(8);
		for (int j = 0; j < per; j++) {
			switch (w(4)) { case 0: set_default(); break; case 1: case 2: set_file(w(NFILE)); break; default: set_group(w(6), wp(1, 2)); }
			if (bad && wp(1, 3)) { int f = w(NFILE); everF[f][DEFLEVEL] = true; taint[f] = true; own[f] = -2; bogus = true; set_key(file_key(f), wp(1, 2) ? "LOUD" : "notice "); count("op.bad_level"); }
			sim::sleep_us(w(300));
		}
	});
	join_all();
	// an unknown level is replaced by the default of the schema, here and in the table
	if (bad) {
		int f = w(NFILE); set_key(file_key(f), "VERBOSE");
		int l = -1; for (int i = 0; i < 2200 && l != DEFLEVEL; i++) l = SUT(gGetLoggingLevel(files[f]));
		CHECK(l == DEFLEVEL, "bad-level", "an unknown level reads as %d instead of the default %d", l, DEFLEVEL);
		for (int i = 0; i < 2200; i++) (void)SUT(gGetLoggingLevel(files[f]));
		std::string v = SUT(gConfig.getStr(file_key(f))); CHECK(v == lname[DEFLEVEL], "bad-level", "an unknown level stays in the table as %s", v.c_str());
		own[f] = DEFLEVEL; everF[f][DEFLEVEL] = true;
		for (int g = 0; g < NFILE; g++) if (taint[g] && g != f) set_file(g);
	}
	int rounds = 1 + w(3);
	for (int r = 0; r < rounds; r++) {
		if (r || wp(1, 2)) { if (wp(1, 3)) set_default(); else set_file(w(NFILE)); }
		bool spoilt = wp(1, 8);		// the default itself may be misspelled: then the schema's is in force and in the table
		if (spoilt) { set_key("Log.Level", wp(1, 2) ? "LOUD" : "Debug"); def = DEFLEVEL; everD[def] = true; }
		// a change is in effect after the cache's thousand lookups, for good
		int others = wp(1, 2) ? 0 : 20 + w(200);		// files never seen before ask in between
		for (int i = 0; i < 1100; i++) { const char *f = files[i % NFILE]; char nm[24]; if (others && i % others == others - 1) { snprintf(nm, sizeof nm, "new%u.cpp", w(1000000)); f = nm; } (void)SUT(gGetLoggingLevel(f)); }
		for (int j = 0; j < 2 * NFILE; j++) { int f = j % NFILE, l = SUT(gGetLoggingLevel(files[f])); CHECK(l == effective(f), "level-ignored", "the level of %s is %s, but %s is configured", files[f], lname[l], lname[effective(f)]); }
		{ int l = SUT(getLoggingLevel(files[0])); CHECK(l == effective(0), "level-ignored", "the level of %s is %d uncached, but %s is configured", files[0], l, lname[effective(0)]); }
		{ int l = wp(1, 2) ? SUT(gGetLoggingLevel()) : SUT(gGetLoggingLevel("")); CHECK(l == def, "level-ignored", "the default level is %d, but %s is configured", l, lname[def]); }
		if (spoilt) { int l = SUT(getLoggingLevel("nowhere.cpp")); std::string v = SUT(gConfig.getStr("Log.Level")); CHECK(l == DEFLEVEL && v == lname[DEFLEVEL], "bad-level", "an unknown default level stays in the table as %s", v.c_str()); }
		count("probe.effective");
		int g = w(6); set_group(g, wp(1, 2)); std::string odd;
		if (wp(1, 5)) { bool watch = wp(1, 2); g = w(6); odd = std::string(watch ? "Log.Watch." : "Log.Group.") + gname[g]; set_key(odd, "LOUD"); (watch ? wl : gl)[g] = DEFLEVEL; }
		SUTV(gLogGroup.setAll());
		for (g = 0; g < 6; g++) for (unsigned l = 0; l < 8; l++) {
			bool a = SUT(gCheckGroupLogLevel((LogGroup::Group)g, l)), b = SUT(gCheckGroupWatchLevel((LogGroup::Group)g, l));
			CHECK(a == (gl[g] >= (int)l), "group-level", "group %s at level %s %s %s messages", gname[g], lname[gl[g]], a ? "lets through" : "suppresses", lname[l]);
			CHECK(b == (wl[g] >= (int)l), "watch-level", "watching %s at level %s %s %s messages", gname[g], lname[wl[g]], b ? "lets through" : "suppresses", lname[l]);
		}
		if (odd.size()) { std::string v = SUT(gConfig.getStr(odd)); CHECK(v == lname[DEFLEVEL], "bad-level", "an unknown level stays in the table as %s", v.c_str()); }
		if (wp(1, 4)) statements();
	}
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C23", "Log levels", run,
	"seeded run: 1-3 threads ask for file levels and refresh group levels while an operator sets, empties, removes and misspells them; no lookup yields a level never configured, and once changes stop the configured level is the effective one after the cache's thousand lookups, for files and groups",
	"Logger, ConfigurationTable, sqlite3", "pthread, scheduler, clock, syslog, standard streams, heap", 8000, 600000);
