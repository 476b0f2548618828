// The disk below sqlite: an in-memory file system with an OS cache, a durable image, POSIX style
// locks, WAL shared memory, I/O faults, process crashes and power loss (lost / torn unsynced writes).
#include "core.h"
#include <sqlite3.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>

namespace sim {
enum { NFILE = 24, FCAP = 6 << 20, PCAP = 24 << 20, MAXP = 40000 };
struct DFile {
	char name[96]; bool used;
	bool exists;		// in the OS view
	bool dexists;		// directory entry is durable
	int64_t size, dsize;
	bool del_pending;
	uint32_t delseq;
};
struct Pend { uint8_t kind; uint8_t file; uint32_t len; int64_t off; uint32_t data; bool done; };	// kind: 1 write, 2 truncate
struct Disk {
	DFile f[NFILE];
	Pend p[MAXP]; int np; uint32_t dused, delseq;
	char pdata[PCAP];
	char cur_img[NFILE][FCAP];
	char dur_img[NFILE][FCAP];
};
static Disk *D;
FsDisk *FD_alloc();

void vfs_alloc()
{
	D = (Disk *)mmap((void *)0x220000000000ULL, sizeof(Disk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	FD = (FsDisk *)mmap((void *)0x230000000000ULL, sizeof(FsDisk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	if (D == MAP_FAILED || FD == MAP_FAILED) { perror("mmap disk"); __real__exit(2); }
}
void vfs_reset_run()
{
	for (int i = 0; i < NFILE; i++) D->f[i].used = false;
	D->np = 0; D->dused = 0;
}

// ---------------------------------------------------------------- faults
static DiskFaults s_df; static unsigned s_gap, s_burst_left; static uint64_t s_fired; static int s_burst_kind;
void disk_faults(const DiskFaults &d) { s_df = d; s_gap = geom(F, d.mean); s_burst_left = 0; }
void disk_faults_off() { s_df.mean = 0; s_burst_left = 0; s_df.slow_us = 0; }
uint64_t disk_faults_fired() { return s_fired; }
static bool fault(int kind, bool enabled, const char *name)
{
	if (!s_df.mean || !enabled) return false;
	if (s_burst_left && s_burst_kind == kind) { s_burst_left--; s_fired++; count(name); tracef("disk fault: %s (burst)", name); return true; }
	if (s_gap && --s_gap == 0) {
		s_gap = geom(F, s_df.mean);
		s_burst_left = s_df.burst ? draw(F, s_df.burst + 1) : 0; s_burst_kind = kind;
		s_fired++; count(name); tracef("disk fault: %s", name);
		return true;
	}
	return false;
}

// ---------------------------------------------------------------- durable image
static void d_write(int f, int64_t off, const char *b, int64_t n)
{
	DFile &x = D->f[f];
	if (off + n > FCAP) return;
	if (off > x.dsize) __real_memset(D->dur_img[f] + x.dsize, 0, off - x.dsize);
	__real_memcpy(D->dur_img[f] + off, b, n);
	if (off + n > x.dsize) x.dsize = off + n;
}
static void d_trunc(int f, int64_t n) { DFile &x = D->f[f]; if (n < x.dsize) x.dsize = n; else if (n > x.dsize) { __real_memset(D->dur_img[f] + x.dsize, 0, n - x.dsize); x.dsize = n; } }
static void d_apply(Pend &p) { if (p.kind == 1) d_write(p.file, p.off, D->pdata + p.data, p.len); else d_trunc(p.file, p.off); p.done = true; }
static void d_compact()
{
	bool any = false;
	for (int i = 0; i < D->np; i++) if (!D->p[i].done) { any = true; break; }
	if (!any) { D->np = 0; D->dused = 0; }
}
static void d_flush(int f)
{
	for (int i = 0; i < D->np; i++) if (!D->p[i].done && (f < 0 || D->p[i].file == f)) d_apply(D->p[i]);
	d_compact();
}
static void d_pend(int kind, int f, int64_t off, const char *b, uint32_t n)
{
	if (D->np >= MAXP || D->dused + n > PCAP) d_flush(-1);	// the OS writes back whenever it likes
	Pend &p = D->p[D->np++];
	p.kind = kind; p.file = f; p.off = off; p.len = n; p.done = false; p.data = D->dused;
	if (kind == 1) { __real_memcpy(D->pdata + D->dused, b, n); D->dused += n; }
}
void vfs_phase_start() {}
void vfs_phase_end(bool crash, bool power)
{
	if (!crash) return;
	if (!power) return;		// OS cache survives a process crash
	// power loss: every unsynced write is applied, dropped, or torn at 512 byte sectors
	for (int i = 0; i < D->np; i++) {
		Pend &p = D->p[i];
		if (p.done) continue;
		uint32_t c = draw(F, 4);
		if (c == 0) { d_apply(p); continue; }
		if (c == 1) { p.done = true; count("fault.lost_write"); continue; }
		if (c == 2 || p.kind == 2) { if (p.kind == 2 && (draw(F, 2))) { p.done = true; count("fault.lost_truncate"); } else d_apply(p); continue; }
		count("fault.torn_write");
		uint32_t mask = draw(F, 256), k = 0;
		for (int64_t o = 0; o < p.len; k++) {
			int64_t n = 512 - ((p.off + o) & 511); if (n > p.len - o) n = p.len - o;
			if (mask & (1u << (k & 7))) d_write(p.file, p.off + o, D->pdata + p.data + o, n);
			o += n;
		}
		p.done = true;
	}
	D->np = 0; D->dused = 0;
	for (int i = 0; i < NFILE; i++) {
		DFile &x = D->f[i];
		if (!x.used) continue;
		if (!x.dexists && x.exists) { if (draw(F, 2)) { x.exists = x.used = false; count("fault.lost_dirent"); continue; } x.dexists = true; }
		if (!x.exists) {
			bool newer = false;		// the name belongs to a durable file, or to a later removal
			for (int j = 0; j < NFILE; j++) { DFile &y = D->f[j]; if (j != i && y.used && !strcmp(y.name, x.name) && (y.exists || y.delseq > x.delseq)) newer = true; }
			if (x.del_pending && !newer && draw(F, 2)) { x.exists = true; x.del_pending = false; count("fault.resurrected_file"); }
			else { x.used = false; continue; }
		}
		x.size = x.dsize;
		__real_memcpy(D->cur_img[i], D->dur_img[i], x.size);
	}
}

// ---------------------------------------------------------------- open files
struct Lk { int shared; void *reserved, *pending, *excl; };
static Lk s_lk[NFILE];
struct Shm { char *page[64]; int refs; int excl[8]; int shr[8]; };	// excl: owner id or 0
static Shm s_shm[NFILE];
struct SF { sqlite3_file base; int f; int level; bool delclose; bool shm; uint8_t sl[8]; };	// sl: 0 none 1 shared 2 excl

static int dfind(const char *n) { for (int i = 0; i < NFILE; i++) if (D->f[i].used && D->f[i].exists && !strcmp(D->f[i].name, n)) return i; return -1; }
static void io(const char *what, SF *s) { sp(what, s ? (void *)(uintptr_t)(s->f + 1) : 0); fault_point(what); }

static int xClose(sqlite3_file *a)
{
	Core c; SF *s = (SF *)a;
	if (s->delclose) { D->f[s->f].exists = D->f[s->f].used = false; }
	return SQLITE_OK;
}
static int xRead(sqlite3_file *a, void *b, int n, sqlite3_int64 off)
{
	Core c; SF *s = (SF *)a; io("disk-read", s);
	if (fault(1, s_df.read, "fault.disk_read_EIO")) return SQLITE_IOERR_READ;
	DFile &f = D->f[s->f];
	int64_t k = f.size - off; if (k < 0) k = 0; if (k > n) k = n;
	__real_memcpy(b, D->cur_img[s->f] + off, k);
	if (k < n) { __real_memset((char *)b + k, 0, n - k); return SQLITE_IOERR_SHORT_READ; }
	return SQLITE_OK;
}
static void cur_write(int fi, const char *b, int64_t n, int64_t off)
{
	DFile &f = D->f[fi];
	if (off > f.size) __real_memset(D->cur_img[fi] + f.size, 0, off - f.size);
	__real_memcpy(D->cur_img[fi] + off, b, n);
	if (off + n > f.size) f.size = off + n;
	d_pend(1, fi, off, b, n);
}
static int xWrite(sqlite3_file *a, const void *b, int n, sqlite3_int64 off)
{
	Core c; SF *s = (SF *)a; io("disk-write", s);
	if (off + n > FCAP) { count("probe.disk_capacity"); return SQLITE_FULL; }
	if (fault(2, s_df.write, "fault.disk_write_EIO")) { if (draw(F, 2) && n > 16) cur_write(s->f, (const char *)b, n / 2, off); return SQLITE_IOERR_WRITE; }
	if (fault(3, s_df.full, "fault.disk_full")) { if (draw(F, 2) && n > 16) cur_write(s->f, (const char *)b, n / 3, off); return SQLITE_FULL; }
	cur_write(s->f, (const char *)b, n, off);
	count("op.disk_write");
	return SQLITE_OK;
}
static int xTruncate(sqlite3_file *a, sqlite3_int64 n)
{
	Core c; SF *s = (SF *)a; io("disk-trunc", s);
	if (fault(2, s_df.write, "fault.disk_truncate_EIO")) return SQLITE_IOERR_TRUNCATE;
	DFile &f = D->f[s->f];
	if (n < f.size) f.size = n; else if (n > f.size && n <= FCAP) { __real_memset(D->cur_img[s->f] + f.size, 0, n - f.size); f.size = n; }
	d_pend(2, s->f, n, 0, 0);
	return SQLITE_OK;
}
static int xSync(sqlite3_file *a, int)
{
	Core c; SF *s = (SF *)a; io("disk-sync", s);
	if (s_df.slow_us) { uint32_t d = draw(T, s_df.slow_us); if (d) { count("fault.slow_sync"); block("disk-sync", 0, 0, true, G->mono + d); } }
	if (fault(4, s_df.sync, "fault.disk_sync_EIO")) return SQLITE_IOERR_FSYNC;
	d_flush(s->f);
	if (!D->f[s->f].dexists) {	// first sync after creation: sqlite syncs the directory too, which makes earlier removals durable
		D->f[s->f].dexists = true;
		for (int i = 0; i < NFILE; i++) { DFile &x = D->f[i]; if (x.used && !x.exists && x.del_pending) { x.del_pending = false; x.used = false; } }
	}
	count("op.disk_sync");
	return SQLITE_OK;
}
static int xFileSize(sqlite3_file *a, sqlite3_int64 *n) { Core c; SF *s = (SF *)a; *n = D->f[s->f].size; return SQLITE_OK; }
static int xLock(sqlite3_file *a, int l)
{
	Core c; SF *s = (SF *)a;
	if (s->level >= l) return SQLITE_OK;
	io("file-lock", s);
	if (fault(5, s_df.lock, "fault.disk_lock_EIO")) return SQLITE_IOERR_LOCK;
	Lk &k = s_lk[s->f];
	if (l == SQLITE_LOCK_SHARED) {
		if ((k.pending && k.pending != s) || (k.excl && k.excl != s)) { count("probe.sqlite_busy"); return SQLITE_BUSY; }
		k.shared++; s->level = SQLITE_LOCK_SHARED; return SQLITE_OK;
	}
	if (l == SQLITE_LOCK_RESERVED) {
		if (k.reserved || (k.pending && k.pending != s) || k.excl) { count("probe.sqlite_busy"); return SQLITE_BUSY; }
		k.reserved = s; s->level = SQLITE_LOCK_RESERVED; return SQLITE_OK;
	}
	if (l == SQLITE_LOCK_EXCLUSIVE) {
		if ((k.pending && k.pending != s) || (k.reserved && k.reserved != s)) { count("probe.sqlite_busy"); return SQLITE_BUSY; }
		k.pending = s; if (s->level < SQLITE_LOCK_PENDING) s->level = SQLITE_LOCK_PENDING;
		if (k.shared > 1) { count("probe.sqlite_busy"); return SQLITE_BUSY; }
		k.excl = s; s->level = SQLITE_LOCK_EXCLUSIVE; return SQLITE_OK;
	}
	return SQLITE_OK;
}
static int xUnlock(sqlite3_file *a, int l)
{
	Core c; SF *s = (SF *)a; Lk &k = s_lk[s->f];
	if (s->level <= l) return SQLITE_OK;
	if (k.excl == s) k.excl = 0;
	if (k.pending == s) k.pending = 0;
	if (k.reserved == s) k.reserved = 0;
	if (l == SQLITE_LOCK_NONE && s->level >= SQLITE_LOCK_SHARED) k.shared--;
	s->level = l;
	io("file-unlock", s);
	return SQLITE_OK;
}
static int xCheckReserved(sqlite3_file *a, int *r) { Core c; SF *s = (SF *)a; io("file-rsv", s); Lk &k = s_lk[s->f]; *r = k.reserved || k.pending || k.excl; return SQLITE_OK; }
static int xFileControl(sqlite3_file *, int op, void *arg) { if (op == SQLITE_FCNTL_POWERSAFE_OVERWRITE) { *(int *)arg = 1; return SQLITE_OK; } return SQLITE_NOTFOUND; }
static int xSector(sqlite3_file *) { return 512; }
static int xDevChar(sqlite3_file *) { return SQLITE_IOCAP_POWERSAFE_OVERWRITE; }
static int xShmMap(sqlite3_file *a, int pg, int sz, int ext, void volatile **pp)
{
	Core c; SF *s = (SF *)a; Shm &m = s_shm[s->f];
	if (!s->shm) { s->shm = true; m.refs++; }
	if (pg >= 64) return SQLITE_IOERR_SHMMAP;
	if (!m.page[pg]) { if (!ext) { *pp = 0; return SQLITE_OK; } m.page[pg] = (char *)__real_calloc(1, sz); }
	*pp = m.page[pg];
	return SQLITE_OK;
}
static int xShmLock(sqlite3_file *a, int ofs, int n, int fl)
{
	Core c; SF *s = (SF *)a; Shm &m = s_shm[s->f];
	io("shm-lock", s);
	for (int i = ofs; i < ofs + n; i++) {
		if (fl & SQLITE_SHM_UNLOCK) {
			if (s->sl[i] == 1) m.shr[i]--; else if (s->sl[i] == 2) m.excl[i] = 0;
			s->sl[i] = 0;
		} else if (fl & SQLITE_SHM_SHARED) {
			if (s->sl[i]) continue;
			if (m.excl[i]) { count("probe.sqlite_shm_busy"); return SQLITE_BUSY; }
			m.shr[i]++; s->sl[i] = 1;
		} else {
			if (m.excl[i] && s->sl[i] != 2) { count("probe.sqlite_shm_busy"); return SQLITE_BUSY; }
			if (m.shr[i] - (s->sl[i] == 1) > 0) { count("probe.sqlite_shm_busy"); return SQLITE_BUSY; }
		}
	}
	if (!(fl & (SQLITE_SHM_UNLOCK | SQLITE_SHM_SHARED))) for (int i = ofs; i < ofs + n; i++) { if (s->sl[i] == 1) m.shr[i]--; m.excl[i] = 1; s->sl[i] = 2; }
	return SQLITE_OK;
}
static void xShmBarrier(sqlite3_file *) {}
static int xShmUnmap(sqlite3_file *a, int)
{
	Core c; SF *s = (SF *)a; Shm &m = s_shm[s->f];
	if (s->shm) {
		s->shm = false;
		for (int i = 0; i < 8; i++) { if (s->sl[i] == 1) m.shr[i]--; else if (s->sl[i] == 2) m.excl[i] = 0; s->sl[i] = 0; }
		if (--m.refs == 0) { for (int i = 0; i < 64; i++) if (m.page[i]) { __real_free(m.page[i]); m.page[i] = 0; } }
	}
	return SQLITE_OK;
}
static const sqlite3_io_methods s_io = { 2, xClose, xRead, xWrite, xTruncate, xSync, xFileSize, xLock, xUnlock, xCheckReserved, xFileControl, xSector, xDevChar, xShmMap, xShmLock, xShmBarrier, xShmUnmap, 0, 0 };

// ---------------------------------------------------------------- vfs
static int tmpno;
static int xOpen(sqlite3_vfs *, const char *name, sqlite3_file *a, int fl, int *out)
{
	Core c; SF *s = (SF *)a; __real_memset(s, 0, sizeof *s);
	io("disk-open", 0);
	if (fault(6, s_df.open, "fault.disk_open_EIO")) return SQLITE_CANTOPEN;
	char tmp[32];
	if (!name) { snprintf(tmp, sizeof tmp, "tmp-%d", tmpno++); name = tmp; fl |= SQLITE_OPEN_CREATE | SQLITE_OPEN_DELETEONCLOSE; }
	int i = dfind(name);
	if (i < 0) {
		if (!(fl & SQLITE_OPEN_CREATE)) return SQLITE_CANTOPEN;
		for (i = 0; i < NFILE && D->f[i].used && (D->f[i].exists || D->f[i].del_pending); i++) ;
		if (i == NFILE) { d_flush(-1); for (i = 0; i < NFILE && D->f[i].used && D->f[i].exists; i++) ; }
		if (i == NFILE) return SQLITE_CANTOPEN;
		for (int k = 0; k < D->np; k++) if (D->p[k].file == i) D->p[k].done = true;
		DFile &f = D->f[i]; __real_memset(&f, 0, sizeof f);
		f.used = f.exists = true; strncpy(f.name, name, sizeof f.name - 1);
		tracef("disk: create %s", name);
	}
	s->f = i; s->delclose = fl & SQLITE_OPEN_DELETEONCLOSE;
	s->base.pMethods = &s_io;
	if (out) *out = fl;
	return SQLITE_OK;
}
static int xDelete(sqlite3_vfs *, const char *name, int sync)
{
	Core c; io("disk-delete", 0);
	int i = dfind(name);
	if (i < 0) return SQLITE_IOERR_DELETE_NOENT;
	if (fault(2, s_df.write, "fault.disk_delete_EIO")) return SQLITE_IOERR_DELETE;
	DFile &f = D->f[i];
	f.exists = false;
	if (!f.dexists) f.used = false;
	else if (sync) { f.used = false; }
	else { f.del_pending = true; f.delseq = ++D->delseq; }
	return SQLITE_OK;
}
static int xAccess(sqlite3_vfs *, const char *name, int, int *r) { Core c; io("disk-access", 0); *r = dfind(name) >= 0; return SQLITE_OK; }
static int xFull(sqlite3_vfs *, const char *n, int sz, char *o) { snprintf(o, sz, "%s%s", n[0] == '/' ? "" : "/sim/", n); return SQLITE_OK; }
static int xRandom(sqlite3_vfs *, int n, char *o) { static uint32_t r = 7; for (int i = 0; i < n; i++) { r = r * 1664525 + 1013904223; o[i] = r >> 24; } return n; }
static int xSleep(sqlite3_vfs *, int us) { if (cur >= 0) sleep_us(us); return us; }
static int xTime64(sqlite3_vfs *, sqlite3_int64 *t) { *t = 210866760000000LL + (cur >= 0 ? wall_us() / 1000 : 0); return SQLITE_OK; }
static int xTime(sqlite3_vfs *v, double *t) { sqlite3_int64 x; xTime64(v, &x); *t = x / 86400000.0; return SQLITE_OK; }
static int xErr(sqlite3_vfs *, int, char *) { return 0; }
static sqlite3_vfs s_vfs = { 2, sizeof(SF), 128, 0, "sim", 0, xOpen, xDelete, xAccess, xFull, 0, 0, 0, 0, xRandom, xSleep, xTime, xErr, xTime64, 0, 0, 0 };

// ---------------------------------------------------------------- sqlite's own mutexes: only contention schedules
struct QM { int owner, count, id; };
static QM s_static[16];
static int qInit() { return 0; }
static sqlite3_mutex *qAlloc(int id) { if (id < 2) { QM *q = (QM *)__real_calloc(1, sizeof(QM)); q->id = id; return (sqlite3_mutex *)q; } return (sqlite3_mutex *)&s_static[id & 15]; }
static void qFree(sqlite3_mutex *m) { __real_free(m); }
static int q_ready(Fiber *f) { return ((QM *)f->obj)->owner == 0; }
static void qEnter(sqlite3_mutex *m)
{
	QM *q = (QM *)m; int id = cur < 0 ? 1 : cur + 1;
	if (q->owner == id) { q->count++; return; }
	if (q->owner && cur >= 0) { count("probe.sqlite_mutex_contended"); while (!block("sqlite-mutex", q, q_ready)) ; }
	q->owner = id; q->count = 1;
	if (cur >= 0) hb_acquire(q);
}
static int qTry(sqlite3_mutex *m) { QM *q = (QM *)m; int id = cur < 0 ? 1 : cur + 1; if (q->owner && q->owner != id) return SQLITE_BUSY; qEnter(m); return SQLITE_OK; }
static void qLeave(sqlite3_mutex *m) { QM *q = (QM *)m; if (--q->count > 0) return; if (cur >= 0) hb_release(q); q->owner = 0; q->count = 0; }
static void *mMalloc(int n) { if (no_memory()) return 0; size_t *p = (size_t *)__real_malloc(n + 16); p[0] = n; return p + 2; }
static void mFree(void *p) { if (p) __real_free((size_t *)p - 2); }
static void *mRealloc(void *p, int n) { if (no_memory()) return 0; size_t *q = (size_t *)__real_realloc((size_t *)p - 2, n + 16); q[0] = n; return q + 2; }
static int mSize(void *p) { return p ? (int)((size_t *)p - 2)[0] : 0; }
static int mRound(int n) { return (n + 7) & ~7; }
static int mInit(void *) { return 0; }
static void mShut(void *) {}
void vfs_init()
{
	static sqlite3_mutex_methods mm = { qInit, qInit, qAlloc, qFree, qEnter, qTry, qLeave, 0, 0 };
	static sqlite3_mem_methods me_ = { mMalloc, mFree, mRealloc, mSize, mRound, mInit, mShut, 0 };
	sqlite3_config(SQLITE_CONFIG_MUTEX, &mm);
	sqlite3_config(SQLITE_CONFIG_MALLOC, &me_);
	sqlite3_config(SQLITE_CONFIG_MEMSTATUS, 0);
	sqlite3_config(SQLITE_CONFIG_LOOKASIDE, 0, 0);
	sqlite3_initialize();
	sqlite3_vfs_register(&s_vfs, 1);
}
}
