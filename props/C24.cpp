// C24: datagram sockets carry whole datagrams to the right place, report the right sender, and wait as long as asked.
#include "common.h"
#include "Sockets.h"
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>
using namespace sim;

enum { MAXE = 4 };
struct End {
	DatagramSocket *s; UDPSocket *u; UDDSocket *d; std::string addr;	// address as the network sees it
	int dest;							// where write() goes; -1 nowhere known
	unsigned got;						// reads so far
	bool nonblock;
};
static End eps[MAXE]; static int ne; static bool unixfam, faulty; static unsigned idno; static int senders;
static unsigned nread[MAXE], nsent, nrefused;

static std::string ip_of(const sockaddr_in *a) { char b[64]; const unsigned char *p = (const unsigned char *)&a->sin_addr; snprintf(b, sizeof b, "%u.%u.%u.%u:%u", p[0], p[1], p[2], p[3], ntohs(a->sin_port)); return b; }
static std::string payload(bool str)
{
	std::string id = std::to_string(idno++) + "|";
	switch (w(6)) {
		case 0: return str ? id : std::string();				// an empty datagram is a datagram
		case 1: { std::string t = id + std::string(w(1400), 'a' + idno % 26); return t; }
		case 2: if (!str) { std::string t = id; t += std::string("\0\xff\n\0", 4); return t; } return id;
		case 3: if (!str) return id + std::string(MAX_UDP_LENGTH - id.size(), 'z'); return id + "s";
		case 4: if (!str && wp(1, 2)) return id + std::string(MAX_UDP_LENGTH + w(1500), 'L'); return id + "t";
		default: return id + "x";
	}
}
// what the network saw from this address since seq b: the datagram, to that address
static void sent_check(int e, const std::string &data, const std::string &to, uint64_t b, int r, int err)
{
	int ok = 0, bad = 0;
	for (size_t i = net_log().size(); i-- > 0 && net_log()[i].seq > b; ) {
		NetRec &n = net_log()[i];
		if (n.src != eps[e].addr || n.data != data) continue;
		if (n.kind == 's') { if (data.empty() && n.dst != to) continue; CHECK(n.dst == to || to.empty(), "misdirected", "a datagram for %s went to %s", to.c_str(), n.dst.c_str()); ok++; }	// empty ones carry no number
		if (n.kind == 'x') bad++;
	}
	if (r >= 0) { CHECK(r == (int)data.size(), "short-write", "a write of %zu bytes returned %d", data.size(), r); CHECK(ok >= 1, "lost-write", "a write reported success, but no such datagram left (%zu bytes)", data.size()); nsent++; }
	else { CHECK(faulty || unixfam || to.empty(), "write-failed", "a write failed (%d) although nothing is wrong", err); CHECK(r == -1, "bad-return", "a failed write returned %d", r); nrefused++; count("op.write_refused"); }
	count("op.write");
}
static sockaddr_un udst; static std::vector<sockaddr_in> idst;
static void do_send(int e)
{
	int how = w(4); bool str = wp(1, 3); std::string p = payload(str); uint64_t b = seq();
	if (str) p += '\0';
	if (how == 3) {		// to somebody in particular
		int t = w(ne); int r;
		if (unixfam) { sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, eps[t].addr.c_str() + 5); r = str ? SUT(eps[e].s->send((sockaddr *)&a, p.c_str())) : SUT(eps[e].s->send((sockaddr *)&a, p.data(), p.size())); }
		else { sockaddr_in a; memset(&a, 0, sizeof a); bool k = SUT(resolveAddress(&a, "localhost", (unsigned short)atoi(eps[t].addr.c_str() + 10))); CHECK(k || faulty, "resolve-failed", "localhost was not resolved"); if (!k) return; r = str ? SUT(eps[e].s->send((sockaddr *)&a, p.c_str())) : SUT(eps[e].s->send((sockaddr *)&a, p.data(), p.size())); }
		sent_check(e, p, eps[t].addr, b, r, errno);
		return;
	}
	if (eps[e].dest < 0) return;
	std::string to = eps[eps[e].dest].addr;
	int r = str ? SUT(eps[e].s->write(p.c_str())) : SUT(eps[e].s->write(p.data(), p.size()));
	sent_check(e, p, to, b, r, errno);
}
static void set_dest(int e)
{
	int t = w(ne); eps[e].dest = -1;
	if (unixfam) { SUTV(eps[e].d->destination(eps[t].addr.c_str() + 5)); eps[e].dest = t; }
	else {
		unsigned short port = atoi(eps[t].addr.c_str() + 10); static const char *hn[] = { "localhost", "127.0.0.1" };
		sockaddr_in a; memset(&a, 0, sizeof a);
		SUTV(eps[e].u->destination(port, hn[w(2)]));
		if (!faulty || !g_netf.dns_err_den) eps[e].dest = t;		// a lookup that fails leaves it unknown here
	}
}
static void do_read(int e, std::vector<char> *unused)
{
	char *buf = (char *)SUT(malloc(MAX_UDP_LENGTH));		// the heap checks everything written beyond it
	uint64_t b = seq(); int64_t t0 = mono_us(); int how = eps[e].nonblock ? 0 : 1 + w(3); unsigned tmo = how == 1 ? 0 : how == 2 ? w(50) : 100 + w(2500);
	if (how == 3 && (!unixfam || e) && wp(1, 20)) { static const unsigned far[] = { 100000, 4294967, 4294968, 2147483646, 2147483647, 2147483648u, 2147484148u, 3000000000u, 4294967295u }; tmo = far[w(9)]; count("op.read_days"); }
	int r = -2; bool threw = false; size_t l0 = net_log().size();
	try { r = how == 0 ? SUT(eps[e].s->read(buf)) : SUT(eps[e].s->read(buf, tmo)); } catch (SocketError &) { threw = true; }
	int64_t dt = mono_us() - t0;
	NetRec *got = 0; for (size_t i = net_log().size(); i-- > l0; ) if (net_log()[i].kind == 'r' && net_log()[i].dst == eps[e].addr) { got = &net_log()[i]; break; }
	if (!got && !unixfam) for (size_t i = net_log().size(); i-- > l0; ) { NetRec &n = net_log()[i]; size_t c = n.dst.rfind(':'), k = eps[e].addr.rfind(':'); if (n.kind == 'r' && n.dst.substr(c) == eps[e].addr.substr(k)) { got = &n; break; } }
	if (threw) { CHECK(faulty, "spurious-error", "a read threw although nothing is wrong"); CHECK(!got, "lost-read", "a read threw away a datagram it had received"); count("op.read_error"); }
	else if (r >= 0) {
		CHECK(got, "phantom", "a read returned %d bytes although nothing was received", r);
		size_t want = std::min(got->data.size(), (size_t)MAX_UDP_LENGTH);
		CHECK((size_t)r == want, "wrong-length", "a datagram of %zu bytes was read as %d", got->data.size(), r);
		CHECK(!memcmp(buf, got->data.data(), r), "corrupted", "a datagram of %d bytes was changed on the way", r);
		std::string from = unixfam ? std::string("unix:") + eps[e].d->source()->sun_path : ip_of(eps[e].u->source());
		CHECK(from == got->src, "wrong-source", "the sender of a datagram is given as %s instead of %s", from.c_str(), got->src.c_str());
		nread[e]++; count("op.read");
		if (wp(1, 3) && (!unixfam || (e == 0 && got->src != eps[e].addr))) { std::string p = payload(false); uint64_t sb = seq(); std::string to = got->src; int wr = SUT(eps[e].s->writeBack(p.data(), p.size())); sent_check(e, p, to, sb, wr, errno); count("op.write_back"); }
	} else {
		CHECK(r == -1, "bad-return", "a read returned %d", r);
		CHECK(!got, "lost-read", "a read reported nothing although it had received a datagram of %zu bytes", got ? got->data.size() : 0);
		if (how) CHECK(dt >= (int64_t)tmo * 1000, "early-timeout", "a read with a limit of %u ms gave up after %.3f ms", tmo, dt / 1000.0);
		count("op.read_nothing");
	}
	if (how) CHECK(dt <= (int64_t)tmo * 1000 + 100000, "late-timeout", "a read with a limit of %u ms took %.3f ms", tmo, dt / 1000.0);
	else CHECK(dt <= 50000, "blocked", "a read that must not block took %.3f ms", dt / 1000.0);
	(void)b;
	SUTV(free(buf));
}
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	cfg.stall_mean = 0; if (cfg.tick_us > 20) cfg.tick_us = 20;		// upper time bounds are asserted
	unixfam = wp(1, 2); faulty = wp(1, 2); ne = 2 + w(MAXE - 1); idno = 0; nsent = nrefused = 0; memset(nread, 0, sizeof nread);
	if (wp(1, 3)) { static const int base[] = { 0, 3, 1020, 1024, 5000 }; net_fd_base(base[w(5)]); count("op.fd_base"); }	// few or many descriptors are open already
	static const unsigned short pbase[] = { 5000, 5000, 1, 80, 1021, 32766, 65531 }; unsigned pb = pbase[w(7)];
	for (int i = 0; i < ne; i++) {
		End &e = eps[i]; e = End(); e.dest = -1;
		if (unixfam) { std::string p = "/sim/sock" + std::string(wp(1, 2) ? w(90) : 0, 'p') + std::to_string(i); e.d = SUT(new UDDSocket(p.c_str())); e.s = e.d; e.addr = "unix:" + p; }
		else {
			int how = w(3);
			if (how == 0) e.u = SUT(new UDPSocket()); else if (how == 1) e.u = SUT(new UDPSocket(pb + i)); else { e.u = SUT(new UDPSocket(pb + i, "127.0.0.1", i ? atoi(eps[0].addr.c_str() + 10) : pb)); e.dest = 0; }
			e.s = e.u; unsigned pt = SUT(e.u->port()); CHECK(pt && (!how || pt == pb + i), "wrong-port", "a socket opened on port %d is on port %u", how ? pb + i : 0, pt);
			e.addr = "127.0.0.1:" + std::to_string(pt);
		}
	}
	if (faulty) {
		g_netf.eintr_mean = draw(F, 2) ? 5 + draw(F, 40) : 0; g_netf.send_err_mean = draw(F, 2) ? 3 + draw(F, 20) : 0; g_netf.recv_err_mean = draw(F, 2) ? 3 + draw(F, 20) : 0;
		if (!unixfam) { g_netf.drop_den = draw(F, 2) ? 2 + draw(F, 6) : 0; g_netf.dup_den = draw(F, 2) ? 2 + draw(F, 6) : 0; g_netf.delay_us = draw(F, 2) ? 1 + draw(F, 300000) : 0; g_netf.dns_err_den = draw(F, 2) ? 2 + draw(F, 4) : 0; g_netf.vanish_den = draw(F, 3) == 0 ? 2 + draw(F, 6) : 0; }
	}
	g_netf.dns_us = wp(1, 2) ? 3000 : 0;
	for (int i = 0; i < ne; i++) { if (eps[i].dest < 0) set_dest(i); if (wp(1, 5)) { eps[i].nonblock = true; SUTV(eps[i].s->nonblocking()); if (wp(1, 4)) { eps[i].nonblock = false; SUTV(eps[i].s->blocking()); } } }
	bool cut = faulty && !unixfam && wp(1, 4);
	senders = ne + unixfam;			// receiver 0 may reply to local sockets, so their receivers outlast it
	for (int i = 0; i < ne; i++) {
		int per = 2 + w(6), rd = 2 + w(8);
		spawn("sender", [=]() { for (int j = 0; j < per; j++) { if (wp(1, 8)) set_dest(i); do_send(i); if (wp(1, 3)) sim::sleep_us(w(60000)); } senders--; });
		spawn("receiver", [=]() { for (int j = 0; j < rd || (unixfam && senders > (i == 0)); j++) { do_read(i, 0); if (j >= rd) sim::sleep_us(10000);	/* unix senders wait while the queue is full */ if (wp(1, 3)) sim::sleep_us(w(40000)); } if (unixfam && i == 0) senders--; });
	}
	if (cut) spawn("network", [=]() { sim::sleep_us(w(100000)); net_cut(true); sim::sleep_us(w(500000)); net_cut(false); });
	join_all();
	// faults over: what was delivered is read, and a round trip works
	memset(&g_netf, 0, sizeof g_netf); net_cut(false);
	bool f0 = faulty; faulty = false;
	for (int i = 0; i < ne; i++) { if (eps[i].nonblock) SUTV(eps[i].s->blocking()); eps[i].nonblock = false; }
	for (int round = 0; round < 64; round++) {
		bool any = false;
		for (int i = 0; i < ne; i++) { unsigned before = nread[i]; char *buf = (char *)SUT(malloc(MAX_UDP_LENGTH)); int r = SUT(eps[i].s->read(buf, 1000)); SUTV(free(buf)); any |= r >= 0; if (r >= 0) nread[i]++; (void)before; }
		if (!any) break;
	}
	if (!f0 && !unixfam) { unsigned n = 0; for (int i = 0; i < ne; i++) n += nread[i]; CHECK(n == nsent, "lost", "%u datagrams were sent without fault, %u were read", nsent, n); }
	if (unixfam) { unsigned n = 0; for (int i = 0; i < ne; i++) n += nread[i]; CHECK(n == nsent, "lost", "%u local datagrams were sent, %u were read", nsent, n); }
	int a = w(ne), z = w(ne); int r;
	if (unixfam) SUTV(eps[a].d->destination(eps[z].addr.c_str() + 5)); else SUTV(eps[a].u->destination(atoi(eps[z].addr.c_str() + 10), "127.0.0.1"));
	r = SUT(eps[a].s->write("ping", 4)); CHECK(r == 4, "write-failed", "a write failed after the faults: %d", r);
	char *buf = (char *)SUT(malloc(MAX_UDP_LENGTH));
	r = SUT(eps[z].s->read(buf, 1000)); CHECK(r == 4 && !memcmp(buf, "ping", 4), "lost", "a datagram is not received after the faults: %d", r);
	r = SUT(eps[z].s->writeBack("pong")); CHECK(r == 5, "write-failed", "a reply failed after the faults: %d", r);
	r = SUT(eps[a].s->read(buf, 1000)); CHECK(r == 5 && !memcmp(buf, "pong", 5), "lost", "a reply is not received after the faults: %d", r);
	SUTV(free(buf));
	for (int i = 0; i < ne; i++) SUTV(delete eps[i].s);
	CHECK(net_open_sockets() == 0, "leak", "%d sockets are still open", net_open_sockets());
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C24", "Datagram sockets", run,
	"seeded run: 2-4 UDP or unix datagram sockets exchange datagrams of 0 to 3000 bytes, strings, replies and directed sends, with timed, blocking and non-blocking reads, half the runs with loss, duplication, delay, partition, interrupted calls, send and receive errors and failing name lookups; every read is compared with what the network delivered",
	"DatagramSocket, UDPSocket, UDDSocket, name resolution, Logger", "socket calls and resolver (simulated network), pthread, scheduler, clock, heap", 52000, 4000000);
