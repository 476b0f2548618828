// Simulated plain files, signals and process ends. Nothing here touches the real file system:
// the code under test deletes pid files, runs shell commands and kills itself, so every such call
// ends in these stand-ins.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/uio.h>
#include <stdarg.h>

namespace sim {
FsDisk *FD;
FsFaults g_fsf;
static std::vector<FsOp> s_ops;
std::vector<FsOp> &fs_ops() { return s_ops; }
static unsigned gap_open, gap_write, gap_kill;
static ProcState s_proc[8];
ProcState &proc_state(int p) { return s_proc[p & 7]; }
static std::vector<ProcAct> s_acts;
std::vector<ProcAct> &proc_acts() { return s_acts; }
static sighandler_t s_sig[8][65];
void (*sim_signal_handler(int p, int s))(int) { return s_sig[p & 7][s & 63]; }
static std::vector<void (*)()> s_atexit[8];
struct Priv { void *a; size_t n; char *copy[8]; bool have[8]; };
static Priv s_priv[8]; static int s_npriv;
void proc_private(void *a, size_t n)
{
	Core c;
	Priv &p = s_priv[s_npriv++];
	p.a = a; p.n = n;
	for (int i = 0; i < 8; i++) { p.copy[i] = (char *)malloc(n); __real_memcpy(p.copy[i], a, n); p.have[i] = true; }
}
void proc_switch(int from, int to)
{
	for (int i = 0; i < s_npriv; i++) {
		Priv &p = s_priv[i];
		__real_memcpy(p.copy[from & 7], p.a, p.n);
		__real_memcpy(p.a, p.copy[to & 7], p.n);
	}
}
void fs_reset_run() { for (int i = 0; i < FS_FILES; i++) { FD->f[i].used = FD->f[i].exists = false; } }

static bool held(FsFile *f);
static FsFile *find(const char *path, bool create)
{
	char p[112]; int n = 0;		// repeated slashes mean one
	for (const char *q = path; *q && n < (int)sizeof p - 1; q++) if (!(*q == '/' && n && p[n - 1] == '/')) p[n++] = *q;
	p[n] = 0;
	for (int i = 0; i < FS_FILES; i++) if (FD->f[i].used && FD->f[i].exists && !strcmp(FD->f[i].name, p)) return &FD->f[i];
	if (!create) return 0;
	for (int i = 0; i < FS_FILES; i++) if (FD->f[i].used && !FD->f[i].exists && !held(&FD->f[i])) FD->f[i].used = false;	// deleted and closed everywhere
	for (int i = 0; i < FS_FILES; i++) if (!FD->f[i].used) {
		FsFile &f = FD->f[i];
		f.used = f.exists = true; f.size = 0; strncpy(f.name, p, sizeof f.name - 1); f.name[sizeof f.name - 1] = 0;
		return &f;
	}
	return 0;
}
bool fs_exists(const char *p) { return find(p, false) != 0; }
std::string fs_read(const char *p) { FsFile *f = find(p, false); return f ? std::string(f->data, f->size) : std::string(); }
void fs_put(const char *p, const std::string &d) { FsFile *f = find(p, true); if (!f) { fprintf(stderr, "HARNESS: the simulated file system is full\n"); _exit(3); } f->size = d.size(); __real_memcpy(f->data, d.data(), d.size()); }
std::vector<std::string> fs_list() { std::vector<std::string> v; for (int i = 0; i < FS_FILES; i++) if (FD->f[i].used && FD->f[i].exists) v.push_back(FD->f[i].name); return v; }

[[noreturn]] static void proc_end(int status, bool sig)
{
	Core c;
	int p = cur_proc();
	if (!p) fail("process-exit", "the process under test ended unexpectedly (%s %d)", sig ? "signal" : "exit status", status);
	s_proc[p].ended = true; s_proc[p].status = status; s_proc[p].by_signal = sig;
	tracef("process %d ends: %s %d", p, sig ? "signal" : "status", status);
	mixhash(status * 2 + sig);
	for (int i = 0; i < nfib; i++) if (i != cur && fib[i].proc == p && fib[i].st != F_DONE) { fib[i].st = F_DONE; fib[i].killed = true; }
	locks_abandon(p);
	fiber_end();
}
static void fs_point(const char *what, const char *path)
{
	sp(what, 0);
	int p = cur_proc();
	if (g_fsf.kill_mean && p && (g_fsf.kill_proc == 0 || g_fsf.kill_proc == p)) {
		if (!gap_kill) gap_kill = geom(F, g_fsf.kill_mean);
		if (gap_kill && --gap_kill == 0) { g_fsf.kill_mean = 0; count("fault.sigkill"); tracef("killed at %s %s", what, path); proc_end(9, true); }
	}
}
static void op(const char *o, const char *path, bool ok)
{
	tracef("%s %s -> %s", o, path, ok ? "ok" : "fail");
	if (s_ops.size() < 4000) s_ops.push_back(FsOp{ cur_proc(), cur, o, path, ok, ++G->seqno });
}
struct Ck { FsFile *f; size_t pos; bool append, rd, wr; };
static bool wr_fault()
{
	if (!g_fsf.write_mean) return false;
	if (!gap_write) gap_write = geom(F, g_fsf.write_mean);
	if (gap_write && --gap_write == 0) { count("fault.file_write_ENOSPC"); return true; }
	return false;
}
static ssize_t put(Ck *k, const char *b, size_t n)
{
	if (wr_fault()) { errno = ENOSPC; return -1; }
	if (k->append) k->pos = k->f->size;
	if (k->pos + n > FS_CAP) n = k->pos < FS_CAP ? FS_CAP - k->pos : 0;
	__real_memcpy(k->f->data + k->pos, b, n);
	k->pos += n; if (k->pos > k->f->size) k->f->size = k->pos;
	return n;
}
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = put((Ck *)c, b, n); return r < 0 ? 0 : r; }
static ssize_t ck_read(void *c, char *b, size_t n) { Ck *k = (Ck *)c; size_t l = k->f->size > k->pos ? k->f->size - k->pos : 0; if (n > l) n = l; __real_memcpy(b, k->f->data + k->pos, n); k->pos += n; return n; }
static Ck *fdt[32]; static FILE *filep[32];
enum { FD_BASE = 600 };
static bool held(FsFile *f) { for (int i = 0; i < 32; i++) if (fdt[i] && fdt[i]->f == f) return true; return false; }
static int ck_close(void *c) { for (int i = 0; i < 32; i++) if (fdt[i] == c) { fdt[i] = 0; filep[i] = 0; } delete (Ck *)c; return 0; }
static FILE *mkfile(Ck *k, const char *mode)
{
	cookie_io_functions_t io = { ck_read, ck_write, 0, ck_close };
	FILE *f = fopencookie(k, mode, io);
	for (int i = 0; i < 32; i++) if (!fdt[i]) { fdt[i] = k; filep[i] = f; break; }
	return f;
}
// flags as open(2); returns a cookie or 0 with errno
static Ck *do_open(const char *path, int fl)
{
	if (g_fsf.open_mean) {
		if (!gap_open) gap_open = geom(F, g_fsf.open_mean);
		if (gap_open && --gap_open == 0) { static const int es[] = { EACCES, ENOSPC, EMFILE, EROFS, ENOMEM }; static const char *en[] = { "fault.file_open_EACCES", "fault.file_open_ENOSPC", "fault.file_open_EMFILE", "fault.file_open_EROFS", "fault.file_open_ENOMEM" }; unsigned k = draw(F, 5); count(en[k]); errno = es[k]; return 0; }
	}
	FsFile *f = find(path, false);
	if (f && (fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return 0; }
	if (!f) {
		if (!(fl & O_CREAT)) { errno = ENOENT; return 0; }
		f = find(path, true);
		if (!f) { errno = ENOSPC; return 0; }
	}
	if (fl & O_TRUNC) f->size = 0;
	int acc = fl & O_ACCMODE;
	return new Ck{ f, 0, (fl & O_APPEND) != 0, acc != O_WRONLY, acc != O_RDONLY };
}

// ---------------------------------------------------------------- signals
// stop signals: the process stops and somebody continues it
static bool default_ignored(int s) { return s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH || s == SIGTSTP || s == SIGTTIN || s == SIGTTOU || s == SIGSTOP; }
static void dispatch(int s)
{
	int p = cur_proc();
	if (s <= 0 || s > 64) return;
	sighandler_t h = s_sig[p & 7][s];
	if (s == SIGKILL || s == SIGSTOP) h = SIG_DFL;
	tracef("signal %d delivered (%s)", s, h == SIG_DFL ? "default" : h == SIG_IGN ? "ignored" : "handler");
	if (h == SIG_IGN) return;
	if (h == SIG_DFL) { if (default_ignored(s)) return; proc_end(s, true); }
	int oc = g_core, os = g_sut;
	g_core = 0; g_sut = 1;
	h(s);
	g_core = oc; g_sut = os;
}
void proc_reset()
{
	g_sig_deliver = dispatch;
	locks_reset();
	__real_memset(s_sig, 0, sizeof s_sig);
	__real_memset(s_proc, 0, sizeof s_proc);
	for (int i = 0; i < 8; i++) s_atexit[i].clear();
	s_npriv = 0; s_acts.clear(); s_ops.clear();
	__real_memset(&g_fsf, 0, sizeof g_fsf); gap_open = gap_write = gap_kill = 0;
	__real_memset(fdt, 0, sizeof fdt); __real_memset(filep, 0, sizeof filep);
}
}
using namespace sim;

extern "C" {
FILE *__real_fopen(const char *, const char *); int __real_open(const char *, int, ...); int __real_unlink(const char *);
int __real_stat(const char *, struct stat *); int __real_access(const char *, int); ssize_t __real_write(int, const void *, size_t);
ssize_t __real_read(int, void *, size_t); int __real_close(int); int __real_fclose(FILE *); FILE *__real_fdopen(int, const char *);
int __real_system(const char *); int __real_kill(pid_t, int); void __real_exit(int); void __real__exit(int);
sighandler_t __real_signal(int, sighandler_t); int __real_sigaction(int, const struct sigaction *, struct sigaction *);

FILE *__wrap_fopen(const char *path, const char *mode)
{
	if (cur < 0) return __real_fopen(path, mode);
	Core c;
	fs_point("fopen", path);
	int fl = 0;
	if (mode[0] == 'r') fl = strchr(mode, '+') ? O_RDWR : O_RDONLY;
	else { fl = (strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC); if (strchr(mode, 'x')) fl |= O_EXCL; }
	Ck *k = do_open(path, fl);
	op(fl & O_CREAT ? (fl & O_EXCL ? "create-excl" : "create") : "open", path, k != 0);
	if (!k) return 0;
	char m[3] = { mode[0], strchr(mode, '+') ? '+' : (char)0, 0 };
	return mkfile(k, m);
}
FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
int __wrap_fclose(FILE *f) { if (cur < 0) return __real_fclose(f); Core c; fs_point("fclose", ""); return __real_fclose(f); }
int __wrap_open(const char *path, int fl, ...)
{
	if (cur < 0) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return __real_open(path, fl, m); }
	Core c;
	fs_point("open", path);
	Ck *k = do_open(path, fl);
	op(fl & O_CREAT ? (fl & O_EXCL ? "create-excl" : "create") : "open", path, k != 0);
	if (!k) return -1;
	for (int i = 0; i < 32; i++) if (!fdt[i]) { fdt[i] = k; return FD_BASE + i; }
	errno = EMFILE; return -1;
}
int __wrap_open64(const char *path, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return __wrap_open(path, fl, m); }
int __wrap___open_2(const char *path, int fl) { return __wrap_open(path, fl, 0); }
int __wrap___open64_2(const char *path, int fl) { return __wrap_open(path, fl, 0); }
int __wrap_creat(const char *path, mode_t) { return __wrap_open(path, O_CREAT | O_WRONLY | O_TRUNC, 0); }
static Ck *fdk(int fd) { return fd >= FD_BASE && fd < FD_BASE + 32 ? fdt[fd - FD_BASE] : 0; }
ssize_t net_write(int fd, const void *b, size_t n); ssize_t net_read(int fd, void *b, size_t n); int net_close(int fd); bool net_unlink(const char *path);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (cur < 0) return __real_write(fd, b, n);
	Core c;
	if (fd == 1 || fd == 2) { sp("write", 0); console_write((const char *)b, n); return n; }
	if (Ck *k = fdk(fd)) { fs_point("write", ""); return put(k, (const char *)b, n); }
	return net_write(fd, b, n);
}
ssize_t __wrap_read(int fd, void *b, size_t n);
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t) { return __wrap_read(fd, b, n); }
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (cur < 0) return __real_read(fd, b, n);
	Core c;
	if (Ck *k = fdk(fd)) { fs_point("read", ""); return ck_read(k, (char *)b, n); }
	return net_read(fd, b, n);
}
FILE *__wrap_fdopen(int fd, const char *mode)
{
	if (cur < 0) return __real_fdopen(fd, mode);
	Core c;
	Ck *k = fdk(fd); if (!k) { errno = EBADF; return 0; }
	fdt[fd - FD_BASE] = 0;
	char m[3] = { mode[0], strchr(mode, '+') ? '+' : (char)0, 0 };
	return mkfile(k, m);
}
int __wrap_close(int fd)
{
	if (cur < 0) return __real_close(fd);
	Core c;
	if (Ck *k = fdk(fd)) { fs_point("close", ""); fdt[fd - FD_BASE] = 0; delete k; return 0; }
	return net_close(fd);
}
int __real_fstat(int, struct stat *); int __real_ftruncate(int, off_t); off_t __real_lseek(int, off_t, int);
static int k_stat(Ck *k, struct stat *st) { __real_memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = k->f->size; st->st_nlink = k->f->exists ? 1 : 0; return 0; }
int __wrap_fstat(int fd, struct stat *st)
{
	if (cur < 0) return __real_fstat(fd, st);
	Core c; Ck *k = fdk(fd); if (!k) { errno = EBADF; return -1; }
	fs_point("fstat", ""); return k_stat(k, st);
}
int __wrap_fstat64(int fd, struct stat *st) { return __wrap_fstat(fd, st); }
int __wrap_ftruncate(int fd, off_t n)
{
	if (cur < 0) return __real_ftruncate(fd, n);
	Core c; Ck *k = fdk(fd); if (!k || n < 0 || (size_t)n > FS_CAP) { errno = k ? EINVAL : EBADF; return -1; }
	fs_point("ftruncate", "");
	if ((size_t)n > k->f->size) __real_memset(k->f->data + k->f->size, 0, n - k->f->size);
	k->f->size = n; return 0;
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
off_t __wrap_lseek(int fd, off_t o, int wh)
{
	if (cur < 0) return __real_lseek(fd, o, wh);
	Core c; Ck *k = fdk(fd); if (!k) { errno = fd <= 2 ? ESPIPE : EBADF; return -1; }
	off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)k->pos : (off_t)k->f->size;
	if (b + o < 0) { errno = EINVAL; return -1; }
	return k->pos = b + o;
}
off_t __wrap_lseek64(int fd, off_t o, int wh) { return __wrap_lseek(fd, o, wh); }
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec *v, int n)
{
	if (cur < 0) return __real_writev(fd, v, n);
	std::string s;
	{ Core c; for (int i = 0; i < n; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); }
	return __wrap_write(fd, s.data(), s.size());
}
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { if (__wrap_lseek(fd, o, SEEK_SET) < 0) return -1; return __wrap_write(fd, b, n); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { if (__wrap_lseek(fd, o, SEEK_SET) < 0) return -1; return __wrap_read(fd, b, n); }
int __wrap_vdprintf(int fd, const char *f, va_list ap)
{
	char b[8192]; va_list a2; va_copy(a2, ap);
	int n = vsnprintf(b, sizeof b, f, a2); va_end(a2);
	if (n < 0) return n;
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	return __wrap_write(fd, b, n);
}
int __wrap_dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int n = __wrap_vdprintf(fd, f, ap); va_end(ap); return n; }
int __wrap___dprintf_chk(int fd, int, const char *f, ...) { va_list ap; va_start(ap, f); int n = __wrap_vdprintf(fd, f, ap); va_end(ap); return n; }
int __wrap___vdprintf_chk(int fd, int, const char *f, va_list ap) { return __wrap_vdprintf(fd, f, ap); }
int __real_fileno(FILE *);
int __wrap_fileno(FILE *f) { if (cur < 0) return __real_fileno(f); if (f == stdout) return 1; if (f == stderr) return 2; for (int i = 0; i < 32; i++) if (filep[i] == f) return FD_BASE + i; return -1; }
int __wrap_fsync(int) { if (cur >= 0) sp("fsync", 0); return 0; }
int __wrap_flock(int, int) { if (cur >= 0) sp("flock", 0); return 0; }
int __wrap_unlink(const char *path)
{
	if (cur < 0) { return -1; }
	Core c;
	fs_point("unlink", path);
	FsFile *f = find(path, false);
	bool nu = net_unlink(path);
	op("unlink", path, f != 0 || nu);
	if (!f && nu) return 0;
	if (!f) { errno = ENOENT; return -1; }
	f->exists = false;
	return 0;
}
int __wrap_remove(const char *path) { return __wrap_unlink(path); }
int __wrap_rename(const char *a, const char *b)
{
	if (cur < 0) return -1;
	Core c; fs_point("rename", a);
	FsFile *f = find(a, false); if (!f) { errno = ENOENT; return -1; }
	FsFile *g = find(b, false); if (g) g->exists = false;
	strncpy(f->name, b, sizeof f->name - 1); op("rename", b, true); return 0;
}
int __wrap_link(const char *a, const char *b)
{
	if (cur < 0) return -1;
	Core c; fs_point("link", b);
	FsFile *f = find(a, false); if (!f) { errno = ENOENT; return -1; }
	if (find(b, false)) { op("create-excl", b, false); errno = EEXIST; return -1; }
	FsFile *g = find(b, true); g->size = f->size; __real_memcpy(g->data, f->data, f->size); op("create-excl", b, true); return 0;
}
int __wrap_stat(const char *path, struct stat *st)
{
	if (cur < 0) return __real_stat(path, st);
	Core c; fs_point("stat", path);
	FsFile *f = find(path, false);
	if (!f) { errno = ENOENT; return -1; }
	__real_memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = f->size; st->st_nlink = 1;
	return 0;
}
int __wrap_lstat(const char *path, struct stat *st) { return __wrap_stat(path, st); }
int __wrap_access(const char *path, int m) { if (cur < 0) return __real_access(path, m); Core c; fs_point("access", path); if (!find(path, false)) { errno = ENOENT; return -1; } return 0; }
int __wrap_mkdir(const char *, mode_t) { if (cur >= 0) sp("mkdir", 0); return 0; }
void __wrap_perror(const char *s) { if (cur < 0) return; Core c; char b[300]; int n = snprintf(b, sizeof b, "%s: errno %d\n", s ? s : "", errno); sp("perror", 0); console_write(b, n); }

// ---------------------------------------------------------------- processes
static void act(char k, int sig, const char *t) { if (s_acts.size() < 2000) s_acts.push_back(ProcAct{ cur_proc(), k, sig, ++G->seqno, t ? t : "" }); }
int __wrap_system(const char *cmd) { if (cur < 0) return -1; Core c; sp("system", 0); tracef("system(%s)", cmd); act('s', 0, cmd); return 0; }
FILE *__wrap_popen(const char *, const char *) { return 0; }
int WriteCoreDump(const char *name) { if (cur < 0) return -1; Core c; sp("core", 0); tracef("core dump to %s", name); act('c', 0, name); return 0; }
sighandler_t __wrap_signal(int s, sighandler_t h)
{
	if (cur < 0) return SIG_DFL;
	Core c; sp("signal", 0);
	if (s <= 0 || s > 64 || s == 32 || s == 33 || s == SIGKILL || s == SIGSTOP) { errno = EINVAL; return SIG_ERR; }
	sighandler_t o = s_sig[cur_proc() & 7][s]; s_sig[cur_proc() & 7][s] = h;
	act('S', s, h == SIG_DFL ? "dfl" : h == SIG_IGN ? "ign" : "fn");
	return o;
}
int __wrap_sigaction(int s, const struct sigaction *n, struct sigaction *o)
{
	if (cur < 0) return 0;
	if (s <= 0 || s > 64 || s == 32 || s == 33 || s == SIGKILL || s == SIGSTOP) { errno = EINVAL; return -1; }
	if (o) { __real_memset(o, 0, sizeof *o); o->sa_handler = s_sig[cur_proc() & 7][s]; }
	if (n) __wrap_signal(s, n->sa_handler);
	return 0;
}
int __wrap_pthread_sigmask(int how, const sigset_t *n, sigset_t *o)
{
	if (cur < 0) return 0;
	Core c; Fiber *f = me(); uint64_t old = f->sigmask;
	if (n) {
		uint64_t m = 0; for (int s = 1; s <= 64; s++) if (sigismember(n, s) == 1 && s != SIGKILL && s != SIGSTOP) m |= 1ULL << (s - 1);
		if (how == SIG_BLOCK) f->sigmask |= m; else if (how == SIG_UNBLOCK) f->sigmask &= ~m; else if (how == SIG_SETMASK) f->sigmask = m; else return EINVAL;
	}
	if (o) { sigemptyset(o); for (int s = 1; s <= 64; s++) if (old >> (s - 1) & 1) sigaddset(o, s); }
	if (f->sigmask != old) sp("sigmask", 0);
	return 0;
}
int __wrap_sigprocmask(int how, const sigset_t *n, sigset_t *o) { int e = __wrap_pthread_sigmask(how, n, o); if (e) { errno = e; return -1; } return 0; }
pid_t __wrap_getpid();
int __wrap_kill(pid_t p, int s)
{
	if (cur < 0) return -1;
	Core c; sp("kill", 0); act('k', s, "");
	if (p != __wrap_getpid() && p != 0) { count("probe.kill_other"); errno = ESRCH; return -1; }
	if (s == 0) return 0;
	dispatch(s);
	return 0;
}
int __wrap_raise(int s) { return __wrap_kill(__wrap_getpid(), s); }
int __wrap_pthread_kill(pthread_t, int s) { return __wrap_kill(__wrap_getpid(), s); }
int __wrap_atexit(void (*f)()) { if (cur < 0) return 0; Core c; s_atexit[cur_proc() & 7].push_back(f); return 0; }
void __wrap_exit(int st)
{
	if (cur < 0) { __real_exit(st); }
	int p = cur_proc();
	while (!s_atexit[p & 7].empty()) {
		void (*f)() = s_atexit[p & 7].back(); s_atexit[p & 7].pop_back();
		int os = g_sut, oc = g_core; g_core = 0; g_sut = 1; f(); g_sut = os; g_core = oc;
	}
	proc_end(st, false);
}
void __wrap__exit(int st) { if (cur < 0) __real__exit(st); proc_end(st, false); }
void __wrap__Exit(int st) { __wrap__exit(st); }
}
