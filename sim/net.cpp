// Simulated datagram sockets (UDP/IPv4 and Unix domain) and name resolution.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <fcntl.h>
#include <poll.h>
#include <deque>
#include <map>
#include <algorithm>

namespace sim {
NetFaults g_netf;
struct Dg { std::string data, from; int64_t at; uint64_t id; };
struct Sock { bool used, nonblock, reuse, bound, unlinked; int fam; std::string addr; uint64_t bseq; std::deque<Dg> q; std::string peer; uint32_t rcvto_ms; };
enum { NS = 64 };
static int NB = 300;		// the first descriptor number of a socket
static Sock s_sk[NS];
static std::vector<NetRec> s_log;
static bool s_cut;
static unsigned g_eintr, g_send, g_recv, g_open; static uint16_t s_eph;
static uint64_t s_want[MAXF];	// the sockets a thread waits for
static inline uint64_t bit(int fd) { return 1ull << (fd - NB); }
static Sock *sk(int fd) { return fd >= NB && fd < NB + NS && s_sk[fd - NB].used ? &s_sk[fd - NB] : 0; }
std::vector<NetRec> &net_log() { return s_log; }
int net_open_sockets() { int n = 0; for (auto &s : s_sk) n += s.used; return n; }
void net_cut(bool on) { s_cut = on; if (on) count("fault.net_partition"); }
void net_reset() { for (auto &s : s_sk) { s.used = false; s.q.clear(); } s_log.clear(); s_cut = false; __real_memset(&g_netf, 0, sizeof g_netf); g_eintr = g_send = g_recv = g_open = 0; s_eph = 40000; NB = 300; }
void net_fd_base(int n) { NB = n; }
static bool due(unsigned &gap, unsigned mean, const char *name)
{
	if (!mean) return false;
	if (!gap) gap = geom(F, mean);
	if (gap && --gap == 0) { count(name); tracef("net fault: %s", name); return true; }
	return false;
}
static void rec(char k, int fd, const std::string &s, const std::string &d, const std::string &b) { s_log.push_back(NetRec{ k, fd, s, d, b, ++G->seqno }); }
static std::string astr(const struct sockaddr *a)
{
	if (!a) return "";
	if (a->sa_family == AF_INET) { const sockaddr_in *i = (const sockaddr_in *)a; uint32_t h = ntohl(i->sin_addr.s_addr); char b[40]; snprintf(b, sizeof b, "%u.%u.%u.%u:%u", h >> 24, h >> 16 & 255, h >> 8 & 255, h & 255, ntohs(i->sin_port)); return b; }
	if (a->sa_family == AF_UNIX) return std::string("unix:") + ((const sockaddr_un *)a)->sun_path;
	return "?";
}
static socklen_t addr_out(const std::string &s, int fam, void *out, socklen_t cap)
{
	if (fam == AF_INET) {
		sockaddr_in a; __real_memset(&a, 0, sizeof a); unsigned x, y, z, w, p; sscanf(s.c_str(), "%u.%u.%u.%u:%u", &x, &y, &z, &w, &p);
		a.sin_family = AF_INET; a.sin_port = htons(p); a.sin_addr.s_addr = htonl(x << 24 | y << 16 | z << 8 | w);
		__real_memcpy(out, &a, cap < sizeof a ? cap : sizeof a); return sizeof a;
	}
	sockaddr_un a; __real_memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
	std::string p = s.size() > 5 ? s.substr(5) : "";
	strncpy(a.sun_path, p.c_str(), sizeof a.sun_path - 1);
	socklen_t n = p.empty() ? 2 : 2 + p.size() + 1;
	__real_memcpy(out, &a, cap < n ? cap : n); return n;
}
static uint16_t port_of(const std::string &s) { size_t c = s.rfind(':'); return c == std::string::npos ? 0 : atoi(s.c_str() + c + 1); }
static Sock *lookup(const std::string &dst, int fam)
{
	Sock *b = 0;
	for (auto &s : s_sk) {
		if (!s.used || !s.bound || s.fam != fam) continue;
		if (fam == AF_INET) { if (port_of(s.addr) != port_of(dst)) continue; if (dst.compare(0, 4, "127.") && dst.compare(0, 8, "0.0.0.0:")) continue; }
		else if (s.unlinked || s.addr != dst) continue;
		if (!b || s.bseq > b->bseq) b = &s;
	}
	return b;
}
static int64_t first_at(Sock *s) { int64_t m = INT64_MAX; for (auto &d : s->q) if (d.at < m) m = d.at; return m; }
static bool ready_now(Sock *s) { return s->used && first_at(s) <= G->mono; }
static int rx_ready(Fiber *f)
{
	for (int i = 0; i < NS; i++) if ((s_want[f->id] >> i & 1) && ready_now(&s_sk[i])) return 1;
	return 0;
}
// wait until one of s_want[cur] is readable; 1 ready, 0 timeout, -1 interrupted
static int wait_rx(const char *why, int64_t user_dl)
{
	for (;;) {
		if (rx_ready(me())) return 1;
		if (user_dl != INT64_MAX && user_dl <= G->mono) return 0;
		if (due(g_eintr, g_netf.eintr_mean, "fault.EINTR")) { errno = EINTR; return -1; }
		int64_t dl = user_dl;
		for (int i = 0; i < NS; i++) if ((s_want[cur] >> i & 1) && s_sk[i].used) dl = std::min(dl, first_at(&s_sk[i]));
		bool ok = block(why, &s_want[cur], rx_ready, dl != INT64_MAX, dl == INT64_MAX ? 0 : dl, false, true);
		if (!ok && me()->intr) { me()->intr = false; errno = EINTR; return -1; }
	}
}
static void deliver(Sock *t, const std::string &data, const std::string &from, int64_t at)
{
	static uint64_t id;
	int i = t - s_sk;
	t->q.push_back(Dg{ data, from, at, ++id });
	for (int k = 0; k < nfib; k++) if (fib[k].st == F_BLOCK && fib[k].obj == &s_want[k] && (s_want[k] >> i & 1))
		if (!fib[k].has_deadline || at < fib[k].deadline) { fib[k].has_deadline = true; fib[k].dl_wall = false; fib[k].deadline = at; }
}
static void autobind(Sock *s) { if (!s->bound && s->fam == AF_INET) { char b[32]; snprintf(b, sizeof b, "0.0.0.0:%u", ++s_eph); s->addr = b; s->bound = true; s->bseq = ++G->seqno; } }
static int uq_ready(Fiber *f) { Sock *t = (Sock *)f->obj; return !t->used || t->q.size() < 10; }
static ssize_t do_send(int fd, const void *b, size_t n, const struct sockaddr *to, socklen_t tl)
{
	sp("sendto", (void *)(intptr_t)fd);
	Sock *s = sk(fd);
	if (!s) { count("probe.net_EBADF"); errno = EBADF; return -1; }
	std::string data((const char *)b, n), dst;
	if (to) {
		if (s->fam == AF_INET) {
			if (tl < sizeof(sockaddr_in)) { errno = EINVAL; return -1; }
			if (to->sa_family != AF_INET) { errno = to->sa_family == AF_UNSPEC ? EINVAL : EAFNOSUPPORT; rec('x', fd, s->addr, "", data); return -1; }
		} else if (tl < 2 || to->sa_family != AF_UNIX) { errno = EINVAL; rec('x', fd, s->addr, "", data); return -1; }
		dst = astr(to);
	} else dst = s->peer;
	if (dst.empty()) { errno = EDESTADDRREQ; return -1; }
	autobind(s);
	std::string src = s->fam == AF_INET ? "127.0.0.1:" + std::to_string(port_of(s->addr)) : s->addr;
	if (due(g_send, g_netf.send_err_mean, "fault.sendto_ENOBUFS")) { errno = ENOBUFS; rec('x', fd, src, dst, data); return -1; }
	if (due(g_eintr, g_netf.eintr_mean, "fault.EINTR")) { errno = EINTR; rec('x', fd, src, dst, data); return -1; }
	if (s->fam == AF_INET) {
		if (!port_of(dst)) { errno = EINVAL; rec('x', fd, src, dst, data); return -1; }
		if (n > 65507) { errno = EMSGSIZE; rec('x', fd, src, dst, data); return -1; }
		rec('s', fd, src, dst, data);
		Sock *t = lookup(dst, AF_INET);
		if (s_cut || !t || (g_netf.drop_den && chance(F, 1, g_netf.drop_den))) { count(t ? "fault.net_drop" : "probe.net_no_receiver"); rec('d', fd, src, dst, data); return n; }
		int copies = g_netf.dup_den && chance(F, 1, g_netf.dup_den) ? 2 : 1;
		if (copies == 2) count("fault.net_dup");
		for (int i = 0; i < copies; i++) {
			int64_t d = g_netf.delay_us ? draw(F, g_netf.delay_us) : 0;
			if (d) count("fault.net_delay");
			deliver(t, data, src, G->mono + d);
		}
		return n;
	}
	Sock *t = lookup(dst, AF_UNIX);
	if (!t) { errno = fs_exists(dst.c_str() + 5) ? ECONNREFUSED : ENOENT; rec('x', fd, src, dst, data); return -1; }
	if (t->q.size() >= 10) {
		count("probe.unix_queue_full");
		if (s->nonblock) { errno = EAGAIN; rec('x', fd, src, dst, data); return -1; }
		while (!block("sendto", t, uq_ready)) ;
		if (!t->used) { errno = ECONNREFUSED; rec('x', fd, src, dst, data); return -1; }
	}
	rec('s', fd, src, dst, data);
	deliver(t, data, src, G->mono);
	return n;
}
static ssize_t do_recv(int fd, void *b, size_t cap, int fl, struct sockaddr *from, socklen_t *fl_)
{
	sp("recvfrom", (void *)(intptr_t)fd);
	Sock *s = sk(fd);
	if (!s) { count("probe.net_EBADF"); errno = EBADF; return -1; }
	if (fl & MSG_OOB) { errno = s->fam == AF_INET ? EINVAL : EOPNOTSUPP; return -1; }
	autobind(s);
	if (due(g_recv, g_netf.recv_err_mean, "fault.recvfrom_ECONNREFUSED")) { errno = ECONNREFUSED; return -1; }
	s_want[cur] = bit(fd);
	// a checksum is looked at only now, after the datagram made the socket readable
	if (g_netf.vanish_den && s->fam == AF_INET && ready_now(s) && chance(F, 1, g_netf.vanish_den)) for (size_t i = 0; i < s->q.size(); i++) if (s->q[i].at <= G->mono) { count("fault.datagram_vanished"); s->q.erase(s->q.begin() + i); break; }
	if (!ready_now(s)) {
		if (s->nonblock || (fl & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
		int w = wait_rx("recvfrom", s->rcvto_ms ? G->mono + s->rcvto_ms * 1000LL : INT64_MAX);
		if (w < 0) return -1;
		if (!w) { errno = EAGAIN; return -1; }
	}
	size_t k = 0; bool have = false;
	for (size_t i = 0; i < s->q.size(); i++) if (s->q[i].at <= G->mono && (!have || s->q[i].at < s->q[k].at)) { k = i; have = true; }
	Dg d = s->q[k];
	if (!(fl & MSG_PEEK)) s->q.erase(s->q.begin() + k);
	size_t n = d.data.size(); if (n > cap) { n = cap; count("probe.net_truncated"); }
	mem_range(b, n, true, 0);
	__real_memcpy(b, d.data.data(), n);
	if (from && fl_) *fl_ = addr_out(d.from, s->fam, from, *fl_);
	rec('r', fd, d.from, s->addr, d.data);
	return (fl & MSG_TRUNC) ? (ssize_t)d.data.size() : (ssize_t)n;
}
static bool known_host(const char *h, uint32_t *ip)
{
	unsigned a, b, c, d; char x;
	if (sscanf(h, "%u.%u.%u.%u%c", &a, &b, &c, &d, &x) == 4 && a < 256 && b < 256 && c < 256 && d < 256) { *ip = htonl(a << 24 | b << 16 | c << 8 | d); return true; }
	if (!strcmp(h, "localhost")) { *ip = htonl(0x7f000001); return true; }
	if (!strncmp(h, "host", 4) && h[4] >= '1' && h[4] <= '9' && !h[5]) { *ip = htonl(0x7f000001 + (h[4] - '0')); return true; }
	return false;
}
static int resolve(const char *h, uint32_t *ip)
{
	if (g_netf.dns_us) { uint32_t d = draw(T, g_netf.dns_us); if (d) block("dns", 0, 0, true, G->mono + d); }
	if (g_netf.dns_err_den && chance(F, 1, g_netf.dns_err_den)) { count("fault.dns_TRY_AGAIN"); return TRY_AGAIN; }
	return known_host(h, ip) ? 0 : HOST_NOT_FOUND;
}
}
using namespace sim;

extern "C" {
int __real_fcntl(int, int, ...); 
int __wrap_socket(int fam, int type, int proto)
{
	Core c; sp("socket", 0);
	if ((type & 0xf) != SOCK_DGRAM || (fam != AF_INET && fam != AF_UNIX) || (proto && proto != (fam == AF_INET ? 17 : 1))) { errno = EPROTONOSUPPORT; return -1; }
	if (due(g_open, g_netf.open_err_mean, "fault.socket_EMFILE")) { errno = EMFILE; return -1; }
	for (int i = 0; i < NS; i++) if (!s_sk[i].used) { Sock &s = s_sk[i]; s = Sock(); s.used = true; s.fam = fam; s.nonblock = type & SOCK_NONBLOCK; return NB + i; }
	errno = EMFILE; return -1;
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n)
{
	Core c; sp("bind", 0);
	Sock *s = sk(fd); if (!s) { errno = EBADF; return -1; }
	if (a->sa_family != s->fam || s->bound) { errno = EINVAL; return -1; }
	if (due(g_open, g_netf.open_err_mean, "fault.bind_EACCES")) { errno = EACCES; return -1; }
	std::string w = astr(a);
	if (s->fam == AF_INET) {
		uint16_t p = ntohs(((const sockaddr_in *)a)->sin_port);
		if (!p) { autobind(s); return 0; }
		for (auto &t : s_sk) if (t.used && &t != s && t.bound && t.fam == AF_INET && port_of(t.addr) == p && !(t.reuse && s->reuse)) { errno = EADDRINUSE; return -1; }
	} else {
		for (auto &t : s_sk) if (t.used && t.bound && t.fam == AF_UNIX && !t.unlinked && t.addr == w) { errno = EADDRINUSE; return -1; }
		if (fs_exists(w.c_str() + 5)) { errno = EADDRINUSE; return -1; }
		fs_put(w.c_str() + 5, "");
	}
	s->addr = w; s->bound = true; s->unlinked = false; s->bseq = ++G->seqno;
	return 0;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t) { Core c; sp("connect", 0); Sock *s = sk(fd); if (!s) { errno = EBADF; return -1; } s->peer = astr(a); return 0; }
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *n) { Core c; Sock *s = sk(fd); if (!s) { errno = EBADF; return -1; } *n = addr_out(s->bound ? s->addr : s->fam == AF_INET ? "0.0.0.0:0" : "", s->fam, a, *n); return 0; }
int __wrap_setsockopt(int fd, int lv, int o, const void *v, socklen_t) { Core c; Sock *s = sk(fd); if (!s) { errno = EBADF; return -1; } if (lv == SOL_SOCKET && o == SO_REUSEADDR) s->reuse = *(const int *)v; if (lv == SOL_SOCKET && o == SO_RCVTIMEO) { const timeval *t = (const timeval *)v; s->rcvto_ms = t->tv_sec * 1000 + t->tv_usec / 1000; } return 0; }
int __wrap_getsockopt(int fd, int, int, void *v, socklen_t *) { if (!sk(fd)) { errno = EBADF; return -1; } *(int *)v = 0; return 0; }
int __wrap_fcntl(int fd, int cmd, long arg)
{
	if (cur < 0) return __real_fcntl(fd, cmd, arg);
	Core c; Sock *s = sk(fd);
	if (!s) { if (fd >= 600 && fd < 632) return 0; errno = EBADF; return -1; }
	if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
	if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
	return 0;
}
int __wrap_fcntl64(int fd, int cmd, long arg) { return __wrap_fcntl(fd, cmd, arg); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *to, socklen_t tl) { Core c; if (fl & MSG_OOB) { errno = EOPNOTSUPP; return -1; } return do_send(fd, b, n, to, tl); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int) { Core c; return do_send(fd, b, n, 0, 0); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al) { Core c; return do_recv(fd, b, n, fl, a, al); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { Core c; return do_recv(fd, b, n, fl, 0, 0); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int) { Core c; std::string d; for (size_t i = 0; i < m->msg_iovlen; i++) d.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return do_send(fd, d.data(), d.size(), (sockaddr *)m->msg_name, m->msg_namelen); }
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int fl)
{
	Core c; socklen_t al = m->msg_namelen;
	ssize_t r = do_recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, (sockaddr *)m->msg_name, m->msg_name ? &al : 0);
	if (r >= 0) { m->msg_namelen = al; m->msg_flags = 0; }
	return r;
}
int __wrap_select(int nf, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	if (cur < 0) return -1;
	Core c; sp("select", 0);
	if (nf > FD_SETSIZE) fail("descriptor-set-overflow", "select is asked for descriptor %d, a set has room for %d", nf - 1, FD_SETSIZE);
	s_want[cur] = 0;
	if (r) for (int i = 0; i < nf; i++) if (FD_ISSET(i, r)) { if (!sk(i)) { count("probe.net_EBADF"); errno = EBADF; return -1; } s_want[cur] |= bit(i); }
	int64_t t0 = G->mono, dl = INT64_MAX;
	if (tv) { if (tv->tv_sec < 0 || tv->tv_usec < 0) { errno = EINVAL; return -1; } dl = t0 + tv->tv_sec * 1000000LL + tv->tv_usec; }
	int x = wait_rx("select", dl);
	if (tv) { int64_t left = dl - G->mono; if (left < 0) left = 0; tv->tv_sec = left / 1000000; tv->tv_usec = left % 1000000; }
	if (x < 0) return -1;
	int n = 0;
	if (r) for (int i = 0; i < nf; i++) if (FD_ISSET(i, r)) { if (ready_now(&s_sk[i - NB])) n++; else FD_CLR(i, r); }
	if (w) FD_ZERO(w);
	if (e) FD_ZERO(e);
	return n;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms);
static void chk(size_t n, size_t room) { if (n > room) fail("buffer-overflow", "%zu bytes are read into a buffer of %zu", n, room); }
ssize_t __wrap___recvfrom_chk(int fd, void *b, size_t n, size_t room, int fl, struct sockaddr *a, socklen_t *al) { Core c; chk(n, room); return do_recv(fd, b, n, fl, a, al); }
ssize_t __wrap___recv_chk(int fd, void *b, size_t n, size_t room, int fl) { Core c; chk(n, room); return do_recv(fd, b, n, fl, 0, 0); }
int __wrap___poll_chk(struct pollfd *p, nfds_t n, int ms, size_t) { return __wrap_poll(p, n, ms); }
static int do_poll(const char *what, struct pollfd *p, nfds_t n, int64_t us)		// us < 0: for ever
{
	if (cur < 0) return -1;
	Core c; sp(what, 0);
	s_want[cur] = 0; int k = 0;
	for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; if (sk(p[i].fd)) s_want[cur] |= bit(p[i].fd); else { p[i].revents = POLLNVAL; k++; } }
	if (k) return k;
	int x = wait_rx(what, us < 0 ? INT64_MAX : G->mono + us);
	if (x < 0) return -1;
	for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && sk(p[i].fd) && ready_now(&s_sk[p[i].fd - NB]) && (p[i].events & POLLIN)) { p[i].revents = POLLIN; k++; }
	return k;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) { return do_poll("poll", p, n, ms * 1000LL); }
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *)
{
	if (t && (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= 1000000000L)) { errno = EINVAL; return -1; }
	return do_poll("ppoll", p, n, t ? t->tv_sec * 1000000LL + (t->tv_nsec + 999) / 1000 : -1);
}
int __wrap___ppoll_chk(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *m, size_t) { return __wrap_ppoll(p, n, t, m); }
ssize_t net_write(int fd, const void *b, size_t n) { return do_send(fd, b, n, 0, 0); }
ssize_t net_read(int fd, void *b, size_t n) { return do_recv(fd, b, n, 0, 0, 0); }
int net_close(int fd)
{
	sp("close", (void *)(intptr_t)fd);
	Sock *s = sk(fd);
	if (!s) { count("probe.close_EBADF"); tracef("close(%d): EBADF", fd); errno = EBADF; return -1; }
	s->used = false; s->q.clear();
	return 0;
}
bool net_unlink(const char *path)
{
	std::string w = std::string("unix:") + path; bool any = false;
	for (auto &t : s_sk) if (t.used && t.bound && t.fam == AF_UNIX && !t.unlinked && t.addr == w) { t.unlinked = true; any = true; }
	return any;
}
static struct hostent s_he; static uint32_t s_ip; static char *s_al[2]; static char *s_no[1]; static char s_name[256];
struct hostent *__wrap_gethostbyname(const char *h)
{
	Core c; sp("gethostbyname", 0);
	uint32_t ip; int e = resolve(h, &ip);
	if (e) { h_errno = e; return 0; }
	// one static result, as in libc: a second caller overwrites it
	s_ip = ip; s_al[0] = (char *)&s_ip; s_al[1] = 0; s_no[0] = 0; strncpy(s_name, h, sizeof s_name - 1);
	s_he.h_name = s_name; s_he.h_aliases = s_no; s_he.h_addrtype = AF_INET; s_he.h_length = 4; s_he.h_addr_list = s_al;
	sp("gethostbyname", 0);
	return &s_he;
}
struct hostent *__wrap_gethostbyname2(const char *h, int) { return __wrap_gethostbyname(h); }
int __wrap_gethostbyname2_r(const char *h, int, struct hostent *he, char *buf, size_t n, struct hostent **res, int *err)
{
	Core c; sp("gethostbyname2_r", 0);
	uint32_t ip; int e = resolve(h, &ip);
	if (e) { *res = 0; *err = e; return e == TRY_AGAIN ? EAGAIN : 0; }
	char **al = (char **)buf; char *d = buf + 4 * sizeof(char *);
	__real_memcpy(d, &ip, 4); al[0] = d; al[1] = 0; al[2] = 0;
	he->h_name = (char *)h; he->h_aliases = al + 2; he->h_addrtype = AF_INET; he->h_length = 4; he->h_addr_list = al;
	*res = he; *err = 0;
	return 0;
}
int __wrap_gethostbyname_r(const char *h, struct hostent *he, char *buf, size_t n, struct hostent **res, int *err) { return __wrap_gethostbyname2_r(h, AF_INET, he, buf, n, res, err); }
int __wrap_getaddrinfo(const char *h, const char *svc, const struct addrinfo *hint, struct addrinfo **res)
{
	Core c; sp("getaddrinfo", 0);
	uint32_t ip; int e = resolve(h, &ip);
	if (e) return e == TRY_AGAIN ? EAI_AGAIN : EAI_NONAME;
	struct X { struct addrinfo a; sockaddr_in s; } *x = (X *)__real_calloc(1, sizeof(X));
	x->a.ai_family = AF_INET; x->a.ai_socktype = hint ? hint->ai_socktype : 0; x->a.ai_addrlen = sizeof x->s; x->a.ai_addr = (sockaddr *)&x->s;
	x->s.sin_family = AF_INET; x->s.sin_addr.s_addr = ip; x->s.sin_port = svc ? htons(atoi(svc)) : 0;
	*res = &x->a;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { __real_free(a); }
}
