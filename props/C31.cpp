// C31: nothing accumulates: repeated use, failing use included, leaves no memory, descriptors or threads behind.
#include "reports.h"
#include "Interthread.h"
#include "Sockets.h"
#include "Utils.h"
#include <netinet/in.h>
#include <sstream>
using namespace sim;

static ConfigurationTable *tab; static sqlite3 *db; static unsigned op_errors, op_total, phaseno;
struct Obj : RefCntBase { int x; };
struct Item : SingleLinkListNode { int n; Item(int i = 0) : n(i) {} Item *next() { return (Item *)mNext; } virtual unsigned size() { return 1; } virtual ~Item() {} bool operator>(const Item &o) const { return n > o.n; } };
static const char *ck[] = { "Sim.Defaulted", "Some.Key", "Other.Key", "Vector.Key", "Not.There", "key'with \"quotes\"" };
enum { NCK = 6 };

static void op_cfg(int k)
{
	std::string key = ck[w(NCK)]; char v[40]; static const char *forms[] = { "%u %u", "%u", " %u  %u ", "", "  ", "word %u" }; snprintf(v, sizeof v, forms[wp(1, 2) ? 0 : w(6)], w(3), w(9));
	Sut s;
	try {
		switch (k) {
			case 0: tab->getStr(key); break;
			case 1: tab->getNum(key); break;
			case 2: tab->getBool(key); tab->getFloat(key); break;
			case 3: tab->getVector(key); break;
			case 4: tab->getVectorOfStrings(key); break;
			case 5: if (!tab->set(key, std::string(v))) op_errors++; break;
			case 6: if (!tab->remove(key)) op_errors++; if (!tab->set(key, 7L)) op_errors++; break;
			case 7: { std::ostringstream os; tab->find("Key", os); break; }
			case 8: tab->getAllPairs(); break;
			case 9: tab->defines(key); tab->purge(); tab->getStr(key); break;
			case 10: tab->getSimilarKeys("Sim"); tab->keyDefinedInSchema(key); tab->isValidValue("Sim.Defaulted", v); tab->crossCheck(key); break;
			default: tab->purge(); tab->getStr("Not.There"); break;
		}
	} catch (ConfigurationTableKeyNotFound &) { op_errors++; }
}
static void op_rep(int k)
{
	char n[20]; snprintf(n, sizeof n, "par'am%u", w(4));
	Sut s; bool r = true;
	switch (k) {
		case 0: r = gReports.create(n); break;
		case 1: r = gReports.incr(n); break;
		case 2: r = gReports.incr(n) && gReports.commit(); break;
		case 3: r = gReports.max(n, 5); break;
		case 4: r = gReports.clear(n); break;
		case 5: r = gReports.clear(); break;
		default: r = gReports.create("ind", 0, 2); gReports.incr("ind", 1); gReports.max("ind", 1, 3); gReports.clear("ind", 2); break;
	}
	if (!r) op_errors++;
}
static void op_db(int k)
{
	Sut s; bool r = true; std::string v; char *p = 0; unsigned u; int rc;
	switch (k) {
		case 0: r = sqlite3_command(db, "INSERT OR REPLACE INTO T VALUES ('a',1)"); break;
		case 1: r = sqlite_command(db, "UPDATE T SET N=N+1", &rc); break;
		case 2: r = sqlite_single_lookup(db, "T", "K", "a", "N", v); break;
		case 3: r = sqlite3_single_lookup(db, "T", "K", "a", "K", p); free(p); break;
		case 4: r = sqlite3_single_lookup(db, "T", "K", "b'", "N", u); break;
		case 5: r = sqlite3_exists(db, "T", "K", "a"); break;
		case 6: r = sqlite_set_attr(db, "attribute", "value"); break;
		case 7: r = sqlite_get_attr(db, "attribute").size(); break;
		case 8: { sqlQuery q(db, "T", "*", "WHERE 1"); while (q.sqlSuccess()) { q.getResultText(); q.getResultInt(1); if (!q.sqlStep()) break; } break; }
		case 9: r = sqlite3_command(db, "NOT SQL"); break;
		case 10: { sqlQuery q(db, "NoTable", "*", ""); r = q.sqlSuccess(); break; }
		case 11: r = sqlite3_exists(db, "NoTable", "K", "a"); r = sqlite3_single_lookup(db, "T", "NoColumn", "a", "N", u) || r; break;
		case 12: r = sqlite3_single_lookup(db, "T", "N", 1u, "K", p); free(p); break;
		default: r = sqlite_single_lookup(db, "T", "N", 2u, "K", v); break;
	}
	if (!r) op_errors++;
}
template <class Q> static void use(Q &q, int leave, bool flush) { int n = 1 + leave; for (int i = 0; i < n + 2; i++) q.write(new Item(i)); for (int i = 0; i < 2; i++) delete q.readNoBlock(); if (flush) q.clear(); }
static void op_queue(int k)
{
	int leave = w(4); bool fl = wp(1, 3); unsigned tmo = w(3); Sut s;
	switch (k) {
		case 0: { InterthreadQueue<Item> q; use(q, leave, fl); delete q.read(tmo); break; }
		case 1: { InterthreadQueue<Item, PtrList<Item> > r, q; q.iqConnect(r); use(q, leave, fl); use(r, leave, false); break; }
		case 2: { InterthreadQueue<Item, SingleLinkList<Item> > q; use(q, leave, fl); break; }
		case 3: { InterthreadQueueWithWait<Item> q; use(q, leave, fl); break; }
		case 4: { InterthreadMap<int, Item> m; for (int i = 0; i < 4; i++) m.write(i & 1, new Item(i)); m.remove(0); m.read(7, 1); break; }
		case 5: { InterthreadPriorityQueue<Item> q; for (int i = 0; i < 3 + leave; i++) q.write(new Item(i)); delete q.readNoBlock(); if (fl) q.clear(); break; }
		case 6: { RefCntPointer<Obj> a(new Obj), b(a), c; c = b; a = c; b.free(); RefCntPointer<Obj> d(new Obj); d = c; break; }
		default: { SimpleKeyValue kv; kv.addItems("a=1 b=two novalue c="); kv.addItem("d"); bool valid; kv.getNum("a", valid); kv.get("zz"); try { kv.getStrOrBust("zz"); } catch (SimpleKeyValueException &) { } break; }
	}
}
static void op_sock(int k)
{
	int id = self(); char path[40]; snprintf(path, sizeof path, "/sim/l%d", id); Sut s; sockaddr_in a;
	try {
		switch (k) {
			case 0: { UDPSocket u(7000 + id); u.destination(7000 + id, "localhost"); if (u.write("x") < 0) op_errors++; break; }
			case 1: { UDPSocket u; u.port(); u.close(); u.open(7100 + id); u.close(); break; }
			case 2: { UDDSocket d(path, path); d.write("hello", 5); break; }
			case 3: { UDDSocket *d = new UDDSocket(); delete d; break; }
			case 4: { UDPSocket u(7200 + id, "host1", 7200 + id); char *b = (char *)malloc(MAX_UDP_LENGTH); try { u.read(b, 1); } catch (SocketError &) { op_errors++; } free(b); break; }
			case 5: if (!resolveAddress(&a, "host2:80")) op_errors++; break;
			case 6: if (!resolveAddress(&a, "host2")) op_errors++; if (!resolveAddress(&a, "nowhere", 9)) op_errors++; break;
			default: { UDPSocket u(7300 + id); try { UDPSocket v(7300 + id, "no:where", 5); } catch (SocketError &) { op_errors++; } break; }
		}
	} catch (SocketError &) { op_errors++; }
}
static void op_log(int k)
{
	Sut s; static const char *lv[] = { "INFO", "DEBUG", "ERR", "", "NONSENSE" };
	switch (k) {
		case 0: LOG(ERR) << "an error " << 5; break;
		case 1: LOG(DEBUG) << "not enabled"; break;
		case 2: LOG(ALERT) << "an alarm"; break;
		case 3: gGetLoggerAlarms(); break;
		case 4: gConfig.set("Log.Level.some.cpp", lv[w(5)]); gGetLoggingLevel("some.cpp"); break;
		case 5: gLogGroup.setAll(); break;
		case 6: { LOG(NOTICE) << "not enabled either"; break; }
		default: { std::string t(300, 'x'); LOG(CRIT) << format("%s %d", t.c_str(), 5) << timestr(); break; }
	}
}
static void *task(void *p) { ++*(int *)p; return 0; }
static void op_thread(int k)
{
	Sut s; int n = 0;
	switch (k) {
		case 0: { Thread t; t.start(task, &n); t.join(); break; }
		case 1: { Thread *t = new Thread; t->start2(task, &n, 65536); t->join(); t->start(task, &n); t->join(); delete t; break; }
		case 2: { Thread t; break; }
		case 3: { Mutex a, b, c; ScopedLockMultiple l(0, a, b, c); break; }
		case 4: { Mutex m; m.lock("file.cpp", 5); m.timedlock(1); m.mutext(); m.unlock(); m.unlock(); break; }
		case 5: { RWLock l; l.wlock(); l.unlock(); l.rlock(); l.unlock(); break; }
		case 6: { Semaphore m; m.post(); m.get(); break; }
		default: { Timeval t(5); t.future(3); std::ostringstream os; os << t; Timeval::isoTime(5, true); break; }
	}
}
struct Comp { const char *name; void (*op)(int); int kinds; };
static const Comp comps[] = { { "configuration", op_cfg, 12 }, { "reports", op_rep, 7 }, { "database", op_db, 14 }, { "containers", op_queue, 8 }, { "sockets", op_sock, 8 }, { "log", op_log, 8 }, { "threads", op_thread, 8 } };

static void run()
{
	swarm_schedule(); swarm_clock_phase();
	const Comp &c = comps[w(7)]; int a = w(c.kinds), b = wp(1, 2) ? (int)w(c.kinds) : a, nt = 1 + w(3);
	bool trouble = draw(F, 2); DiskFaults d; memset(&d, 0, sizeof d);
	d.mean = 1 + draw(F, 6); d.burst = draw(F, 12); uint32_t kinds = 1 + draw(F, 31);
	d.read = kinds & 1; d.write = kinds & 2; d.sync = kinds & 4; d.full = kinds & 8; d.lock = kinds & 16;
	NetFaults n; memset(&n, 0, sizeof n); n.open_err_mean = draw(F, 2) ? 1 + draw(F, 4) : 0; n.send_err_mean = draw(F, 2) ? 1 + draw(F, 4) : 0; n.recv_err_mean = draw(F, 3) ? 1 : 0; n.dns_err_den = draw(F, 2) ? 2 : 0;
	capture_streams(true); op_errors = op_total = 0;
	bool isdb = c.op == op_cfg || c.op == op_rep || c.op == op_db;
	if (c.op == op_cfg) { tab = SUT(new ConfigurationTable("/sim/cfg.db", "sim", sim_schema())); for (int i = 1; i < NCK; i++) if (i != 4) SUTV(tab->set(ck[i], "1 2")); }
	if (c.op == op_rep) { reports_open(); SUTV(gReports.reportShutdown()); cfg.stall_mean = 0; sim::sleep_us(25000000); op_rep(0); for (int i = 0; i < 4; i++) { char nm[20]; snprintf(nm, sizeof nm, "par'am%d", i); SUTV(gReports.create(nm)); } SUTV(gReports.create("ind", 0, 2)); }
	if (c.op == op_db) { { Sut s; sqlite3_open("/sim/x.db", &db); } SUTV(sqlite3_command(db, "CREATE TABLE T (K TEXT PRIMARY KEY, N INTEGER)")); SUTV(sqlite_set_attr(db, "x", "y")); for (int i = 0; i < 3; i++) op_db(0); }
	auto batch = [&](int m, bool faults) {
		if (faults && trouble) { if (isdb) disk_faults(d); if (c.op == op_sock) g_netf = n; }
		int t2 = c.op == op_db ? 1 : nt;		// one connection is not for several threads
		for (int t = 0; t < t2; t++) spawn("user", [=, &c]() { for (int i = 0; i < m / t2; i++) { c.op(i & 1 ? b : a); op_total++; } });
		join_all();
		disk_faults_off(); memset(&g_netf, 0, sizeof g_netf);
		for (int i = 0; i < 4; i++) c.op(i & 1 ? b : a);		// the last trouble is left behind
	};
	const int N = 36;
	for (int i = 0; i < c.kinds && !isdb; i++) if (c.op == op_log) c.op(i);
	batch(N, true); batch(N / 2, false);
	uint64_t h[4]; int so[4];
	for (int i = 0; i < 4; i++) { if (i) batch(N, true); h[i] = heap_blocks(); so[i] = net_open_sockets(); }
	for (int i = 1; i < 4; i++) CHECK(so[i] <= so[0], "descriptor-leak", "%d sockets are open that were not before (%s, operations %d and %d)", so[i] - so[0], c.name, a, b);
	int64_t g1 = h[1] - h[0], g2 = h[2] - h[1], g3 = h[3] - h[2];
	if (getenv("C31_SHOW")) fprintf(stderr, "GROW %s %d %d trouble %d: %lld %lld %lld errors %u of %u\n", c.name, a, b, trouble, (long long)g1, (long long)g2, (long long)g3, op_errors, op_total);
	int64_t least = 1;
	if (g1 >= least && g2 >= least && g3 >= least) {
		// a cache that happened to fill up step by step stops when it is full; a leak goes on
		cfg.max_steps += 40000000; uint64_t base = heap_blocks(), last = base; int grew = 0; const int M = 40;
		for (int i = 0; i < M; i++) { batch(N, true); uint64_t x = heap_blocks(); grew += x > last; last = x; }
		CHECK(!(last >= base + M * 9 / 10 && grew >= M * 3 / 4), "memory-leak", "%d times %d operations left %lld, %lld, %lld and %lld more blocks behind (%s, operations %d and %d, %u errors)", 3 + M, N, (long long)g1, (long long)g2, (long long)g3, (long long)(last - base), c.name, a, b, op_errors);
	}
	if (c.op == op_db) { int rc = SUT(sqlite3_close(db)); CHECK(rc == SQLITE_OK, "statement-leak", "a helper left its statement behind: closing says %d", rc); }
	count("op.use", op_total); count("probe.errors", op_errors);
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C31", "Nothing accumulates", run,
	"seeded run: one component is used over and over by 1-3 threads with one or two of its operations, half the runs under frequent failures of the system calls below it; three equal batches after a warm-up must not each leave memory behind, descriptors and statements not at all",
	"every component", "pthread, scheduler, clock, heap, sockets, disk below sqlite, files", 12000, 300000);
