// Heap arena with byte shadow (use-after-free, overflow), memory access callbacks (the code under
// test is compiled with -fsanitize=thread but linked against this runtime), happens-before tracking.
#include "core.h"
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <malloc.h>
#include <new>

namespace sim {

static char *const ARENA = (char *)0x200000000000ULL;
static uint8_t *const SHADOW = (uint8_t *)0x210000000000ULL;
static const size_t ARENA_SZ = 1UL << 30;
static size_t a_used; static bool a_init;
static uint64_t a_live;
enum { SH_NONE = 0, SH_LIVE = 1, SH_FREED = 2, SH_RED = 3 };
struct Hdr { uint32_t magic; uint32_t live; size_t size; };	// 16 bytes, just before the block
enum { MAGIC = 0x51a7b10c };

static void init()
{
	a_init = true;
	void *a = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void *b = mmap(SHADOW, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (a != ARENA || b != SHADOW) abort();
}
bool in_arena(const void *p) { return (const char *)p >= ARENA && (const char *)p < ARENA + ARENA_SZ; }

static void *a_alloc(size_t n, size_t align = 16)
{
	if (!a_init) init();
	if (align < 16) align = 16;
	size_t off = (a_used + sizeof(Hdr) + 16 + align - 1) & ~(align - 1);
	size_t end = off + n + 16;
	if (n > ARENA_SZ / 4 || end > ARENA_SZ) { if (active()) fail("memory-exhausted", "allocation of %zu bytes (runaway allocation)", n); abort(); }
	Hdr *h = (Hdr *)(ARENA + off) - 1;
	h->magic = MAGIC; h->live = 1; h->size = n;
	a_used = (end + 15) & ~15UL;
	__real_memset(SHADOW + off, SH_LIVE, n);
	__real_memset(ARENA + off, 0xAA, n);
	a_live++;
	return ARENA + off;
}
static Hdr *hdr(void *p, const char *what)
{
	Hdr *h = (Hdr *)p - 1;
	if (h->magic != MAGIC || ((uintptr_t)p & 15)) { if (active()) fail("invalid-free", "%s of a pointer that is not a heap block", what); abort(); }
	if (!h->live) { if (active()) fail("double-free", "%s of a block that was freed before", what); abort(); }
	return h;
}
static void a_free(void *p)
{
	Hdr *h = hdr(p, "free");
	h->live = 0; a_live--;
	size_t off = (char *)p - ARENA;
	__real_memset(SHADOW + off, SH_FREED, h->size);
	__real_memset(p, 0xDD, h->size);
}
bool heap_live(const void *p) { return in_arena(p) && SHADOW[(const char *)p - ARENA] == SH_LIVE; }
uint64_t heap_blocks() { return a_live; }

void heap_check(const void *p, size_t n, bool wr, void *pc)
{
	if (!in_arena(p) || !n) return;
	size_t off = (const char *)p - ARENA;
	for (size_t i = 0; i < n; i++) {
		uint8_t s = SHADOW[off + i];
		if (s == SH_LIVE) continue;
		g_sut = 0;
		if (s == SH_FREED) fail("use-after-free", "%s of %zu bytes in freed memory (pc %p)", wr ? "write" : "read", n, pc);
		fail("heap-overflow", "%s of %zu bytes outside any heap block (pc %p)", wr ? "write" : "read", n, pc);
	}
}

// ---------------------------------------------------------------- happens-before
struct SVC { const void *key; uint32_t vc[MAXF]; };
enum { SVN = 2048 };
static SVC svc[SVN];
static SVC *sv(const void *k, bool create)
{
	size_t h = ((uintptr_t)k >> 3) * 0x9E3779B97F4A7C15ULL >> 40;
	for (int i = 0; i < SVN; i++) {
		SVC *s = &svc[(h + i) % SVN];
		if (s->key == k) return s;
		if (!s->key) { if (!create) return 0; s->key = k; return s; }
	}
	return 0;
}
void hb_acquire(const void *o) { if (cur < 0) return; SVC *s = sv(o, false); if (!s) return; uint32_t *v = me()->vc; for (int i = 0; i < nfib; i++) if (s->vc[i] > v[i]) v[i] = s->vc[i]; }
void hb_release(const void *o)
{
	if (cur < 0) return;
	SVC *s = sv(o, true); uint32_t *v = me()->vc;
	if (s) for (int i = 0; i < nfib; i++) if (v[i] > s->vc[i]) s->vc[i] = v[i];
	v[cur]++;
}
void hb_reset(const void *o) { SVC *s = sv(o, false); if (s) memset(s->vc, 0, sizeof s->vc); }
void hb_fork(int c) { if (cur < 0) { fib[c].vc[c] = 1; return; } memcpy(fib[c].vc, me()->vc, sizeof fib[c].vc); fib[c].vc[c] = 1; me()->vc[cur]++; }
void hb_join(int c) { uint32_t *v = me()->vc; for (int i = 0; i < nfib; i++) if (fib[c].vc[i] > v[i]) v[i] = fib[c].vc[i]; }

struct Ent { uint32_t clk; uint8_t fid, mask, wr, used; void *pc; };
struct Cell { uintptr_t tag; uint8_t hot; uint8_t next; Ent e[4]; };
enum { CELLN = 1 << 14 };
static Cell cells[CELLN];
extern "C" char _end;
void mem_sp(void *pc, bool hot);
struct RaceRec { void *a, *b; };
RaceRec g_race[64]; int g_nrace;

void mem_access(uintptr_t a, unsigned sz, bool wr, void *pc, bool atomic)
{
	// skip own stack
	Fiber *f = me();
	if (f->stack ? (a - (uintptr_t)f->stack < STACK_SIZE + 4096) : (a >> 40) == 0x7f) return;
	g_sut = 0;
	if (in_arena((void *)a)) { g_sut = 1; heap_check((void *)a, sz, wr, pc); g_sut = 0; }
	bool hot = atomic;
	// The real heap and mappings hold only the simulator's and the scenarios' own data, at addresses that depend on
	// what ran before: they must not decide anything.
	bool ours = in_arena((void *)a) || a < (uintptr_t)&_end || (a >> 40) == 0x25;
	if (nfib > 1 && ours) {
		uintptr_t tag = a >> 3;
		uint8_t mask = (uint8_t)(((1u << (sz > 8 ? 8 : sz)) - 1) << (a & 7));
		Cell *c = &cells[(tag * 0x9E3779B97F4A7C15ULL) >> 50];
		if (c->tag != tag) { memset(c, 0, sizeof *c); c->tag = tag; }
		int slot = -1;
		for (int i = 0; i < 4; i++) {
			Ent *e = &c->e[i];
			if (!e->used) { if (slot < 0) slot = i; continue; }
			if (e->fid == cur) { if (e->wr == wr || e->clk < f->vc[cur] ) slot = i; continue; }
			if (!(e->wr | wr) || !(e->mask & mask) || atomic) continue;
			if (f->vc[e->fid] < e->clk) {	// not ordered: a race
				c->hot = 1;
				G->races++;
				if (cfg.race_fatal) fail("data-race", "unsynchronised %s at pc %p conflicts with %s at pc %p", wr ? "write" : "read", pc, e->wr ? "write" : "read", e->pc);
			}
		}
		if (slot < 0) { slot = c->next; c->next = (c->next + 1) & 3; }
		if (!atomic) { Ent *e = &c->e[slot]; e->used = 1; e->fid = cur; e->clk = f->vc[cur]; e->mask = mask; e->wr = wr; e->pc = pc; }
		hot = c->hot || atomic;
	}
	G->memops++;
	mem_sp(pc, hot);
	g_sut = 1;
}
void mem_range(const void *p, size_t n, bool wr, void *pc)
{
	if (!g_sut || cur < 0 || !n) return;
	heap_check(p, n, wr, pc);
	uintptr_t a = (uintptr_t)p;
	size_t lim = n > 64 ? 64 : n;
	for (size_t o = 0; o < lim; ) { unsigned k = 8 - ((a + o) & 7); if (k > lim - o) k = lim - o; mem_access(a + o, k, wr, pc, false); o += k; }
}
}
using namespace sim;

#define PC __builtin_return_address(0)
#define ACC(name, sz, wr) extern "C" void name(void *p) { if (g_sut && cur >= 0) mem_access((uintptr_t)p, sz, wr, PC, false); }
ACC(__tsan_read1, 1, false) ACC(__tsan_read2, 2, false) ACC(__tsan_read4, 4, false) ACC(__tsan_read8, 8, false) ACC(__tsan_read16, 16, false)
ACC(__tsan_write1, 1, true) ACC(__tsan_write2, 2, true) ACC(__tsan_write4, 4, true) ACC(__tsan_write8, 8, true) ACC(__tsan_write16, 16, true)
ACC(__tsan_unaligned_read2, 2, false) ACC(__tsan_unaligned_read4, 4, false) ACC(__tsan_unaligned_read8, 8, false) ACC(__tsan_unaligned_read16, 16, false)
ACC(__tsan_unaligned_write2, 2, true) ACC(__tsan_unaligned_write4, 4, true) ACC(__tsan_unaligned_write8, 8, true) ACC(__tsan_unaligned_write16, 16, true)
ACC(__tsan_volatile_read1, 1, false) ACC(__tsan_volatile_read2, 2, false) ACC(__tsan_volatile_read4, 4, false) ACC(__tsan_volatile_read8, 8, false) ACC(__tsan_volatile_read16, 16, false)
ACC(__tsan_volatile_write1, 1, true) ACC(__tsan_volatile_write2, 2, true) ACC(__tsan_volatile_write4, 4, true) ACC(__tsan_volatile_write8, 8, true) ACC(__tsan_volatile_write16, 16, true)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read_range(void *p, unsigned long n) { mem_range(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { mem_range(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { if (g_sut && cur >= 0) heap_check(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { if (g_sut && cur >= 0) heap_check(p, 8, false, PC); }
}
// Atomics: sequentially consistent on one OS thread; each is a scheduling opportunity and a HB edge.
static inline void at(const volatile void *p, unsigned sz, bool wr, void *pc)
{
	if (!g_sut || cur < 0) return;
	mem_access((uintptr_t)p, sz, wr, pc, true);
	int s = g_sut; g_sut = 0; hb_acquire((const void *)p); if (wr) hb_release((const void *)p); g_sut = s;
}
#define ATOM(bits, T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T *p, int) { at(p, sizeof(T), false, PC); return *p; } \
extern "C" void __tsan_atomic##bits##_store(volatile T *p, T v, int) { at(p, sizeof(T), true, PC); *p = v; } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = o + v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = o - v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = o & v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = o | v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = o ^ v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = ~(o & v); return o; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { at(p, sizeof(T), true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { at(p, sizeof(T), true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { at(p, sizeof(T), true, PC); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- malloc family
namespace sim {
static bool failed_now[MAXF];
void alloc_fail(unsigned nth) { me()->alloc_n = nth; failed_now[cur] = false; }
void malloc_fail(unsigned nth) { me()->malloc_n = nth; failed_now[cur] = false; }
bool alloc_failed() { return failed_now[cur]; }
static inline void maybe_fail()
{
	if (!g_sut || cur < 0 || g_core || !me()->alloc_n || --me()->alloc_n) return;
	int s = g_sut; g_sut = 0; failed_now[cur] = true; count("fault.operator_new"); event("allocation fails"); g_sut = s;
	throw std::bad_alloc();
}
bool no_memory()
{
	if (!g_sut || cur < 0 || g_core || !me()->malloc_n || --me()->malloc_n) return false;
	int s = g_sut; g_sut = 0; failed_now[cur] = true; count("fault.malloc"); event("malloc fails"); g_sut = s;
	errno = ENOMEM; return true;
}
}
extern "C" {
void *__real__Znwm(size_t); void *__real__Znam(size_t);
void *__wrap__Znwm(size_t n) { maybe_fail(); return __real__Znwm(n); }
void *__wrap__Znam(size_t n) { maybe_fail(); return __real__Znam(n); }
void *__wrap_malloc(size_t n) { if (g_core) return __real_malloc(n); if (no_memory()) return 0; return a_alloc(n); }
void __wrap_free(void *p)
{
	if (!p) return;
	if (in_arena(p)) { a_free(p); return; }
	__real_free(p);
}
void *__wrap_calloc(size_t a, size_t b)
{
	if (g_core) return __real_calloc(a, b);
	size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
	if (no_memory()) return 0;
	void *p = a_alloc(n); __real_memset(p, 0, n); return p;
}
void *__wrap_realloc(void *p, size_t n)
{
	if (p && !in_arena(p)) return __real_realloc(p, n);
	if (!p) return __wrap_malloc(n);
	Hdr *h = hdr(p, "realloc");
	if (no_memory()) return 0;
	void *q = a_alloc(n);
	__real_memcpy(q, p, h->size < n ? h->size : n);
	a_free(p);
	return q;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { if (g_core) return __real_malloc(n); return a_alloc(n, al); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) { *p = g_core ? __real_malloc(n) : a_alloc(n, al); return 0; }
size_t __wrap_malloc_usable_size(void *p) { if (!p) return 0; if (in_arena(p)) return ((Hdr *)p - 1)->size; return 0; }
char *__wrap_strdup(const char *s) { size_t n = __real_strlen(s) + 1; mem_range(s, n, false, PC); char *p = (char *)__wrap_malloc(n); if (p) __real_memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)__wrap_malloc(n + 1); if (!p) return p; __real_memcpy(p, s, n); p[n] = 0; return p; }

void *__wrap_memcpy(void *d, const void *s, size_t n) { if (g_sut && cur >= 0) { mem_range(s, n, false, PC); mem_range(d, n, true, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (g_sut && cur >= 0) { mem_range(s, n, false, PC); mem_range(d, n, true, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (g_sut && cur >= 0) mem_range(d, n, true, PC); return __real_memset(d, c, n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); if (g_sut && cur >= 0) mem_range(s, n + 1, false, PC); return n; }
}
