// C25: sockets own exactly their descriptor, whatever fails; addresses resolve to themselves, however many ask.
#include "common.h"
#include "Sockets.h"
#include <netinet/in.h>
#include <sys/un.h>
using namespace sim;

static const struct { const char *h; unsigned last; } hosts[] = { { "localhost", 1 }, { "127.0.0.1", 1 }, { "host1", 2 }, { "host2", 3 }, { "host3", 4 }, { "10.1.2.77", 77 }, { "host9", 10 }, { "nowhere", 0 }, { "256.1.1.1", 0 }, { "", 0 } };
enum { NH = sizeof hosts / sizeof *hosts };
static bool dnsfail, openfail; static int nlive;

static void resolve_one()
{
	int h = w(NH); unsigned port = wp(1, 4) ? 65535 : w(65536); bool joined = wp(1, 2);
	sockaddr_in a; memset(&a, 0x5a, sizeof a); sockaddr_in a0 = a; bool r;
	if (joined) { std::string hp = hosts[h].h; bool good = !wp(1, 6); static const char *bad[] = { "", ":", ":65536", ":-1", ":port", ":99999999999999999999" }; hp += good ? ":" + std::to_string(port) : bad[w(6)]; r = SUT(resolveAddress(&a, hp.c_str())); if (!good) { CHECK(!r, "resolved-nonsense", "the address %s was accepted", hp.c_str()); CHECK(!memcmp(&a, &a0, sizeof a), "half-resolved", "a failed lookup changed the address"); return; } }
	else r = SUT(resolveAddress(&a, hosts[h].h, (unsigned short)port));
	if (!hosts[h].last) { CHECK(!r, "resolved-nonsense", "the unknown host '%s' was resolved", hosts[h].h); count("op.resolve_unknown"); return; }
	if (!r) { CHECK(dnsfail, "resolve-failed", "%s was not resolved although the name service works", hosts[h].h); count("op.resolve_failed"); CHECK(!memcmp(&a, &a0, sizeof a), "half-resolved", "a failed lookup changed the address"); return; }
	const unsigned char *p = (const unsigned char *)&a.sin_addr;
	CHECK(p[3] == hosts[h].last && p[0] == (h == 5 ? 10 : 127), "wrong-address", "%s was resolved to %u.%u.%u.%u", hosts[h].h, p[0], p[1], p[2], p[3]);
	CHECK(a.sin_family == AF_INET && ntohs(a.sin_port) == port, "wrong-port", "port %u became %u", port, ntohs(a.sin_port));
	count("op.resolve");
}
// one thread, its own sockets: open, use, close, reopen, destroy
static void lifecycle(int me)
{
	int n = 2 + w(5);
	for (int j = 0; j < n; j++) {
		bool ux = wp(1, 2); std::string path = "/sim/s" + std::to_string(me); unsigned short port = 6000 + 10 * me;
		UDPSocket *u = 0; UDDSocket *d = 0; bool open = false;
		try {
			if (ux) { bool now = wp(2, 3); d = now ? SUT(new UDDSocket(path.c_str(), wp(1, 2) ? path.c_str() : 0)) : SUT(new UDDSocket()); open = now; }
			else { u = wp(1, 2) ? SUT(new UDPSocket(port)) : SUT(new UDPSocket(port, hosts[w(NH)].h, port)); open = true; }
		} catch (SocketError &) { CHECK(openfail, "open-failed", "a socket could not be opened although nothing is wrong"); count("op.open_failed"); continue; }
		nlive += open;
		DatagramSocket *s = ux ? (DatagramSocket *)d : u; count("op.open");
		int m = w(6); int taken = 0; DatagramSocket *other = 0;
		for (int k = 0; k < m; k++) {
			switch (w(5)) {
				case 4: if (ux) {		// a name longer than an address can hold
					std::string lng = "/sim/" + std::string(100 + w(400), 'l'); bool refused = false; std::string was = path;
					if (lng.size() < sizeof(((sockaddr_un *)0)->sun_path)) break;
					if (wp(1, 2)) { try { SUTV(d->destination(lng.c_str())); } catch (SocketError &) { refused = true; } }
					else { try { SUTV(d->open(lng.c_str())); } catch (SocketError &) { refused = true; } SUTV(s->close()); nlive -= open; open = false; }
					CHECK(refused, "resolved-nonsense", "a local address of %zu characters was accepted", lng.size()); count("op.long_name");
				} break;
				case 0: SUTV(s->close()); nlive -= open; open = false; count("op.close"); break;
				case 1: if (!open || wp(1, 3)) try { nlive -= open; open = false; /* a socket that is open already lets go of what it had */ if (ux) SUTV(d->open(path.c_str())); else SUTV(u->open(port)); open = true; nlive++; count("op.reopen"); } catch (SocketError &) { CHECK(openfail, "open-failed", "a socket could not be reopened although nothing is wrong"); SUTV(s->close()); } break;
				case 2: if (open) {		// it works
					if (ux) SUTV(d->destination(path.c_str())); else { SUTV(u->destination(port, "127.0.0.1")); }
					std::string t = "loop" + std::to_string(me) + "." + std::to_string(k);
					int r = SUT(s->write(t.c_str(), t.size()));
					if (!ux && dnsfail) break;
					CHECK(r == (int)t.size(), "write-failed", "a socket cannot write to itself: %d", r);
					char *buf = (char *)SUT(malloc(MAX_UDP_LENGTH)); r = SUT(s->read(buf, 100));
					for (int x = 0; x < 8 && r >= 0 && std::string(buf, r) != t; x++) r = SUT(s->read(buf, 100));	// earlier ones first
					CHECK(r == (int)t.size() && std::string(buf, r) == t, "lost", "a socket does not receive what it sent itself: %d", r);
					SUTV(free(buf)); count("op.loopback");
				} break;
				default: if (!open && !other) { try { other = SUT(new UDPSocket(port + 1 + taken++)); nlive++; } catch (SocketError &) { CHECK(openfail, "open-failed", "a socket could not be opened although nothing is wrong"); } }	// takes over the freed descriptor
			}
		}
		// destroying a closed socket touches nobody's descriptor
		SUTV(delete s); nlive -= open;
		if (other) { unsigned p = 0; try { p = SUT(((UDPSocket *)other)->port()); } catch (SocketError &) { } CHECK(p == (unsigned)port + taken, "stranger-closed", "a socket lost its descriptor when another one went away"); SUTV(delete other); nlive--; }
		if (wp(1, 3)) sim::sleep_us(w(3000));
	}
}
static void run()
{
	swarm_schedule(); swarm_clock_phase();
	dnsfail = wp(1, 3); openfail = wp(1, 3); nlive = 0;
	cfg.stall_mean = 0; if (cfg.tick_us > 20) cfg.tick_us = 20;
	if (dnsfail) g_netf.dns_err_den = 2 + draw(F, 5);
	if (openfail) g_netf.open_err_mean = 2 + draw(F, 8);
	g_netf.dns_us = wp(1, 2) ? 5000 : 0;
	if (wp(1, 3)) { static const int base[] = { 0, 3, 1020, 5000 }; net_fd_base(base[w(4)]); count("op.fd_base"); }	// few or many descriptors are open already
	int nr = w(4), nl = 1 + w(3);
	for (int i = 0; i < nr; i++) spawn("resolver", [=]() { for (int j = 0, n = 1 + w(6); j < n; j++) resolve_one(); });
	for (int i = 0; i < nl; i++) spawn("owner", [=]() { lifecycle(i); });
	join_all();
	CHECK(nlive == 0, "harness", "%d", nlive);
	CHECK(net_open_sockets() == 0, "leak", "%d descriptors are still open after all sockets are gone", net_open_sockets());
	// and repeating a call keeps nothing behind
	memset(&g_netf, 0, sizeof g_netf);
	static const char *again[] = { "host1:99", "host1", "nowhere:1", "nowhere" };
	for (auto h : again) {
		sockaddr_in a; uint64_t b = 0;
		for (int j = 0; j < 3; j++) { SUTV(resolveAddress(&a, h)); if (j == 1) b = heap_blocks(); }
		CHECK(heap_blocks() <= b, "memory-leak", "resolving '%s' leaves memory behind", h);
	}
	nontrivial();
}
static int zy = (g_zygote_init = zygote_config, 0);
static Prop p("C25", "Socket ownership", run,
	"seeded run: 1-3 threads open, use, close, reopen and destroy UDP and unix sockets while others take over freed descriptors and up to three resolve known, unknown and malformed addresses, with failing opens, binds and name lookups; nobody loses a descriptor, none leaks, and every address is the one asked for",
	"DatagramSocket, UDPSocket, UDDSocket, resolveAddress, Logger", "socket calls and resolver (simulated network), pthread, scheduler, clock, heap", 24000, 3000000);
