#define _GNU_SOURCE
#include "sched.h"
#include <ucontext.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>

/* ---------------------------------------------------------------- arena */
#define ARENA_BASE ((uintptr_t)0x600000000000ull)
#define ARENA_SIZE (4u << 20)
#define MAXBLK 8192
typedef struct { uintptr_t start; size_t size; bool freed; const char *kind; int id; uint8_t reported; } Blk;
static const char *autoKind[VF_MAXF + 1]; static int autoId[VF_MAXF + 1];
static int cur = -1;
#define MAXEV 20000
static sigjmp_buf crashJmp;
static bool hung;
static Blk blks[MAXBLK];
static int nblk;
static uintptr_t arenaTop, arenaHigh;
static void fatalEv(const char *what, const char *kind, int id);
static uint16_t *shadow; /* per 16 bytes: block index + 1 */
static int failAt;

#define STACK_SIZE (128u << 10)
static char *stacks[VF_MAXF];
static ucontext_t hub, ctx[VF_MAXF];
typedef enum { RUN, BLK_MUTEX, BLK_COND, DONE } St;
static St st[VF_MAXF];
static void *waitOn[VF_MAXF];
static int nf;
static VfScenario *sc;
static bool fatal;
bool vf_stuck;
bool vf_yieldalloc = true;

/* trace of the current execution */
static char *tr; static size_t trLen, trCap; static int trN;

/* schedule being followed: forced (step, fiber) pairs */
typedef struct { uint32_t step; uint8_t fiber; } Ov;
#define MAXOV 24
typedef struct { uint8_t n, cost; Ov ov[MAXOV]; } Sched;
static Sched *follow; static int fpos;
static uint32_t step;
static bool randMode; static uint64_t rng; static uint32_t randProb; 

/* choice points found in this execution */
typedef struct { uint32_t step; uint8_t cur, mask, free; } Choice;
static Choice *choices; static size_t nch, capch;

/* conflict table, grow only within a scenario */
#define CBITS 16
typedef struct { uintptr_t a; uint8_t r, w; } Conf;
static Conf *conf; static long confChanges;

static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

static void die(const char *m) { fprintf(stderr, "sched: %s\n", m); exit(3); }

void vf_ev(const char *fmt, ...) {
	va_list ap; 
	if (trCap - trLen < 1024) { trCap = trCap ? trCap * 2 : 1 << 16; tr = realloc(tr, trCap); }
	trLen += sprintf(tr + trLen, "%s{", trN ? "," : "");
	va_start(ap, fmt);
	int n = vsnprintf(tr + trLen, 900, fmt, ap);
	va_end(ap);
	if (n >= 900) die("event too long");
	trLen += n; tr[trLen++] = '}'; tr[trLen] = 0; trN++;
	/* answers without end */
	if (trN == MAXEV) {
		if (cur < 0) siglongjmp(crashJmp, 102);
		fatalEv("endless", "events", 0);
	}
}
int vf_self(void) { return cur; }

/* ------------------------------------------------------------ allocation */
static int blkOf(uintptr_t a) { return (int)shadow[(a - ARENA_BASE) >> 4] - 1; }
void vf_failalloc(int n) { failAt = n; }
static void point(uintptr_t a, size_t n, bool w, bool force);
bool vf_reuse;
static bool smallFill;
static void *arenaAlloc(size_t align, size_t size) {
	if (failAt > 0 && --failAt == 0) return NULL;
	if (align < 16) align = 16;
	uintptr_t again = 0;
	/* as an allocator would, give the block which was freed last */
	if (vf_reuse) for (int b = nblk - 1; b >= 0 && again == 0; b--)
		if (blks[b].freed && blks[b].size == size && (blks[b].start & (align - 1)) == 0 && blkOf(blks[b].start) == b) again = blks[b].start;
	uintptr_t p = again ? again : (arenaTop + 32 + align - 1) & ~(uintptr_t)(align - 1);
	if (nblk >= MAXBLK || size > ARENA_SIZE || p + size + 64 > ARENA_BASE + ARENA_SIZE) {
		if (size <= (1u << 20)) { if (cur < 0) siglongjmp(crashJmp, 101); /* allocates for ever */ fatalEv("exhausted", "memory", 0); }
		return NULL;
	}
	blks[nblk] = (Blk){ p, size, false, autoKind[cur + 1], autoId[cur + 1], 0 };
	for (uintptr_t a = p; a < p + size; a += 16) shadow[(a - ARENA_BASE) >> 4] = (uint16_t)(nblk + 1);
	/* what is in a new block is not to be relied on: large numbers, or small ones */
	if (!smallFill) memset((void*)p, 0xAB, size);
	else for (size_t i = 0; i < size; i++) ((unsigned char*)p)[i] = !(i & 1);
	nblk++;
	if (!again) arenaTop = p + size;
	if (arenaTop > arenaHigh) arenaHigh = arenaTop;
	return (void*)p;
}
void *vf_alloc(size_t size) { return arenaAlloc(16, size); }
void *vf_alloc_aligned(int al, size_t size) { return arenaAlloc((size_t)al, size); }
static bool inArena(uintptr_t a) { return a >= ARENA_BASE && a < ARENA_BASE + ARENA_SIZE; }
static void fatalEv(const char *what, const char *kind, int id) {
	vf_ev("\"e\":\"%s\",\"t\":%d,\"kind\":\"%s\",\"r\":%d", what, cur + 1, kind ? kind : "other", id);
	fatal = true;
	if (cur >= 0) { int c = cur; swapcontext(&ctx[c], &hub); }
}
void vf_free(void *p) {
	if (p == NULL) return;
	uintptr_t a = (uintptr_t)p;
	if (!inArena(a)) { fatalEv("badfree", "wild", 0); return; }
	int b = blkOf(a);
	if (b < 0 || blks[b].start != a) { fatalEv("badfree", "interior", 0); return; }
	if (blks[b].freed) { fatalEv("doublefree", blks[b].kind, blks[b].id); return; }
	if (cur >= 0 && vf_yieldalloc) point(a, blks[b].size, true, false);
	if (blks[b].freed) { fatalEv("doublefree", blks[b].kind, blks[b].id); return; }
	blks[b].freed = true;
}
void vf_autotag(const char *kind, int id) { autoKind[cur + 1] = kind; autoId[cur + 1] = id; }
void vf_tag(void *p, const char *kind, int id) {
	int b = blkOf((uintptr_t)p); if (b < 0) die("tag");
	blks[b].kind = kind; blks[b].id = id;
}
const char *vf_kind(void *p) { if (!inArena((uintptr_t)p)) return NULL; int b = blkOf((uintptr_t)p); return b < 0 ? NULL : blks[b].kind; }
int vf_id(void *p) { if (!inArena((uintptr_t)p)) return 0; int b = blkOf((uintptr_t)p); return b < 0 ? 0 : blks[b].id; }
bool vf_isfreed(void *p) { int b = blkOf((uintptr_t)p); return b >= 0 && blks[b].freed; }
int vf_livecount(const char *kind) {
	int n = 0;
	for (int i = 0; i < nblk; i++) if (!blks[i].freed &&
		((kind == NULL && blks[i].kind == NULL) || (kind && blks[i].kind && !strcmp(kind, blks[i].kind)))) n++;
	return n;
}
void vf_opbegin(void) { if (cur >= 0) for (int i = 0; i < nblk; i++) blks[i].reported &= (uint8_t)~(1u << cur); }

/* -------------------------------------------------------------- schedule */
static uint8_t runnable(void) {
	uint8_t m = 0;
	for (int i = 0; i < nf; i++) if (st[i] == RUN) m |= (uint8_t)(1u << i);
	return m;
}
static uint8_t spuriousMask(void) {
	uint8_t m = 0;
	if (sc->spurious) for (int i = 0; i < nf; i++) if (st[i] == BLK_COND) m |= (uint8_t)(1u << i);
	return m;
}
static int nextFiber = -1;
static Conf *confOf(uintptr_t g) {
	uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> (64 - CBITS));
	for (;; h = (h + 1) & ((1u << CBITS) - 1)) {
		if (conf[h].a == g) return &conf[h];
		if (conf[h].a == 0) { conf[h].a = g; return &conf[h]; }
	}
}
/* notes the access and says whether it conflicts with another fiber's */
static bool conflicts(uintptr_t a, size_t n, bool w) {
	bool r = false; uint8_t me = (uint8_t)(1u << cur);
	for (uintptr_t g = a >> 3; g <= (a + (n ? n - 1 : 0)) >> 3; g++) {
		Conf *c = confOf(g);
		uint8_t or = c->r, ow = c->w;
		if (w) c->w |= me; else c->r |= me;
		if (or != c->r || ow != c->w) confChanges++;
		if (w ? ((c->r | c->w) & ~me) : (c->w & ~me)) r = true;
	}
	return r;
}
static int pick(uint8_t mask) { /* random member */
	int k = (int)(rnd() % (uint64_t)__builtin_popcount(mask));
	for (int i = 0; i < nf; i++) if (mask & (1u << i)) if (k-- == 0) return i;
	return -1;
}
/* decides who runs next at a point. isfree: the current fiber cannot go on, so
 * that moving to another one is not a preemption */
static int decide(bool interesting, bool isfree) {
	uint8_t m = runnable(), sp = spuriousMask();
	step++;
	if (follow && fpos < follow->n && follow->ov[fpos].step == step) {
		int f = follow->ov[fpos++].fiber;
		if (m & (1u << f)) return f;
		if (sp & (1u << f)) return f;
		die("replayed schedule diverged");
	}
	if (!isfree && !interesting) return cur;
	uint8_t all = m | sp;
	if (isfree && m == 0) { 
		/* only spurious wake ups remain: not taken by default */
		if (sp && !randMode) goto record;
		return -1;
	}
	if (randMode) {
		if (isfree) return pick(m);
		if ((rnd() & 1023) < randProb) { uint8_t o = all & (uint8_t)~(1u << cur); if (o) return pick(o); }
		return cur;
	}
record:
	{
		uint8_t opts = all;
		int dflt;
		if (!isfree) dflt = cur;
		else { dflt = -1; for (int k = 1; k <= nf && dflt < 0; k++) { int i = (cur + k) % nf; if (m & (1u << i)) dflt = i; } }
		if (dflt >= 0) opts &= (uint8_t)~(1u << dflt);
		if (opts) {
			if (nch == capch) { capch = capch ? capch * 2 : 1024; choices = realloc(choices, capch * sizeof *choices); }
			choices[nch++] = (Choice){ step, (uint8_t)cur, opts, isfree ? m : 0 };
		}
		return dflt;
	}
}
static void switchTo(int f) {
	int c = cur;
	if (f == c) return;
	nextFiber = f;
	swapcontext(&ctx[c], &hub);
}
static void wakeSpurious(int f) { if (f >= 0 && st[f] == BLK_COND) { st[f] = RUN; } }
static void maybeSwitch(bool interesting) {
	if (step > 40000) { fatalEv("livelock", "steps", 0); }
	int f = decide(interesting, false);
	wakeSpurious(f);
	if (f != cur) switchTo(f);
}
static void blockCur(void) {
	int f = decide(true, true);
	wakeSpurious(f);
	if (f < 0) { nextFiber = -1; swapcontext(&ctx[cur], &hub); return; }
	if (f == cur) return;
	switchTo(f);
}
static bool onStack(uintptr_t a) {
	uintptr_t s = (uintptr_t)stacks[cur];
	return a >= s && a < s + STACK_SIZE;
}
static void checkAccess(uintptr_t a, size_t n, bool w) {
	if (a < 65536) { fatalEv("nullderef", "null", 0); return; }
	if (!inArena(a)) return;
	int b = blkOf(a);
	if (b < 0) { fatalEv("wild", "gap", 0); return; }
	if (a + n > blks[b].start + blks[b].size) { fatalEv("oob", blks[b].kind, blks[b].id); return; }
	if (blks[b].freed && !(blks[b].reported & (1u << cur))) {
		blks[b].reported |= (uint8_t)(1u << cur);
		vf_ev("\"e\":\"uaf\",\"t\":%d,\"kind\":\"%s\",\"r\":%d", cur + 1, blks[b].kind ? blks[b].kind : "other", blks[b].id);
	}
}
static void point(uintptr_t a, size_t n, bool w, bool force) {
	if (cur < 0) return;
	if (a >= 65536 && onStack(a)) return;
	if (inArena(a)) {
		maybeSwitch(conflicts(a, n, w) || force);
		checkAccess(a, n, w); 
	}
	else if (a < 65536) checkAccess(a, n, w);
	else if (force) maybeSwitch(true);
	else if (w || 1) {
		/* globals: a point too */
		maybeSwitch(conflicts(a, n, w));
	}
}
void vf_touch(void *p, size_t n, bool w) { point((uintptr_t)p, n, w, false); }
void vf_point(void) { if (cur >= 0) maybeSwitch(true); }

/* ---------------------------------------------------------------- files */
/* reading moves the position, so that each use of a file writes to it */
#define MAXFILES 64
static struct { FILE *f; long pos; } files[MAXFILES];
int vf_files;
static int fileOf(FILE *f) {
	for (int i = 0; i < MAXFILES; i++) if (files[i].f == f) return i;
	vf_ev("\"e\":\"closedfile\",\"t\":%d", cur + 1);
	return -1;
}
static int usedFile(void *f) {
	int i = fileOf(f);
	if (i >= 0) point((uintptr_t)&files[i].pos, sizeof(long), true, false);
	return i < 0 || files[i].f != f ? fileOf(f) : i;
}
static void closeFiles(void) {
	for (int i = 0; i < MAXFILES; i++) if (files[i].f) { fclose(files[i].f); files[i].f = NULL; }
	vf_files = 0;
}
FILE *vf_fopen(const char *name, const char *mode) {
	FILE *f = fopen(name, mode);
	if (f == NULL) return NULL;
	for (int i = 0; i < MAXFILES; i++) if (files[i].f == NULL) { files[i].f = f; vf_files++; return f; }
	die("files"); return NULL;
}
int vf_fclose(FILE *f) {
	int i = usedFile(f);
	if (i < 0) return -1;
	files[i].f = NULL; vf_files--;
	return fclose(f);
}
size_t vf_fread(void *p, size_t size, size_t n, FILE *f) {
	if (usedFile(f) < 0) return 0;
	vf_touch(p, size * n, true);
	return fread(p, size, n, f);
}
int vf_fseek(FILE *f, long at, int from) { return usedFile(f) < 0 ? -1 : fseek(f, at, from); }
long vf_ftell(FILE *f) { return usedFile(f) < 0 ? -1 : ftell(f); }
/* ---------------------------------------------------------------- mutex */
typedef struct { void *m; int owner; bool destroyed; } Mx;
#define MAXMX 512
static Mx mx[MAXMX]; static int nmx;
static Mx *mxOf(void *m) {
	for (int i = 0; i < nmx; i++) if (mx[i].m == m) return &mx[i];
	if (nmx == MAXMX) die("mutexes");
	mx[nmx] = (Mx){ m, -1, false };
	return &mx[nmx++];
}
int vf_mutex_init(void *m, void *a) { Mx *x = mxOf(m); x->owner = -1; x->destroyed = false; return 0; }
int vf_mutex_destroy(void *m) {
	Mx *x = mxOf(m);
	if (cur >= 0) point((uintptr_t)m, 8, true, true);
	if (x->owner >= 0) { vf_ev("\"e\":\"destroylocked\",\"t\":%d", cur + 1); }
	x->destroyed = true; return 0;
}
int vf_mutex_lock(void *m) {
	if (cur < 0) { Mx *x = mxOf(m); if (x->owner >= 0) siglongjmp(crashJmp, 100); /* nothing will unlock it */
		x->owner = 100; return 0; }
	point((uintptr_t)m, 8, true, true);
	Mx *x = mxOf(m);
	if (x->destroyed) vf_ev("\"e\":\"lockdestroyed\",\"t\":%d", cur + 1);
	while (x->owner >= 0) {
		st[cur] = BLK_MUTEX; waitOn[cur] = m;
		blockCur();
	}
	x->owner = cur;
	return 0;
}
int vf_mutex_trylock(void *m) {
	if (cur < 0) { Mx *x = mxOf(m); if (x->owner >= 0) return EBUSY; x->owner = 100; return 0; }
	point((uintptr_t)m, 8, true, true);
	Mx *x = mxOf(m);
	if (x->owner >= 0) return EBUSY;
	x->owner = cur; return 0;
}
static void release(void *m) {
	Mx *x = mxOf(m);
	x->owner = -1;
	for (int i = 0; i < nf; i++) if (st[i] == BLK_MUTEX && waitOn[i] == m) st[i] = RUN;
}
int vf_mutex_unlock(void *m) {
	if (cur < 0) { mxOf(m)->owner = -1; return 0; }
	Mx *x = mxOf(m);
	if (x->owner != cur) vf_ev("\"e\":\"badunlock\",\"t\":%d", cur + 1);
	release(m);
	point((uintptr_t)m, 8, true, true);
	return 0;
}
int vf_cond_init(void *c, void *a) { return 0; }
int vf_cond_destroy(void *c) { return 0; }
int vf_cond_wait(void *c, void *m) {
	if (cur < 0) die("cond wait in setup");
	/* a set which doesn't hold the mutex can come between the last check and the wait */
	point((uintptr_t)c, 8, true, true);
	Mx *x = mxOf(m);
	if (x->owner != cur) vf_ev("\"e\":\"badwait\",\"t\":%d", cur + 1);
	release(m);
	st[cur] = BLK_COND; waitOn[cur] = c;
	blockCur();
	while (x->owner >= 0) { st[cur] = BLK_MUTEX; waitOn[cur] = m; blockCur(); }
	x->owner = cur;
	return 0;
}
int vf_cond_signal(void *c) {
	if (cur >= 0) point((uintptr_t)c, 8, true, true);
	for (int i = 0; i < nf; i++) if (st[i] == BLK_COND && waitOn[i] == c) { st[i] = RUN; break; }
	return 0;
}
int vf_cond_broadcast(void *c) {
	if (cur >= 0) point((uintptr_t)c, 8, true, true);
	for (int i = 0; i < nf; i++) if (st[i] == BLK_COND && waitOn[i] == c) st[i] = RUN;
	return 0;
}
int vf_sched_yield(void) { if (cur >= 0) maybeSwitch(true); return 0; }
void vf_assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
	if (cur < 0) { vf_ev("\"e\":\"assert\",\"t\":0,\"kind\":\"setup\",\"r\":%u", l); siglongjmp(crashJmp, SIGABRT); }
	fatalEv("assert", fn, (int)l);
	abort();
}

/* ------------------------------------------------------------- tsan hooks */
#define RW(n) \
void __tsan_read##n(void *a) { point((uintptr_t)a, n, false, false); } \
void __tsan_write##n(void *a) { point((uintptr_t)a, n, true, false); } \
void __tsan_unaligned_read##n(void *a) { point((uintptr_t)a, n, false, false); } \
void __tsan_unaligned_write##n(void *a) { point((uintptr_t)a, n, true, false); } \
void __tsan_volatile_read##n(void *a) { point((uintptr_t)a, n, false, false); } \
void __tsan_volatile_write##n(void *a) { point((uintptr_t)a, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { point((uintptr_t)a, n, false, false); }
void __tsan_write_range(void *a, size_t n) { point((uintptr_t)a, n, true, false); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) {}
void __tsan_vptr_read(void **p) {}
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int mo) { point((uintptr_t)a, sizeof(T), false, false); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { point((uintptr_t)a, sizeof(T), true, false); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { point((uintptr_t)a, sizeof(T), true, false); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { point((uintptr_t)a, sizeof(T), true, false); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { point((uintptr_t)a, sizeof(T), true, false); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { point((uintptr_t)a, sizeof(T), true, false); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { point((uintptr_t)a, sizeof(T), true, false); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { point((uintptr_t)a, sizeof(T), true, false); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { point((uintptr_t)a, sizeof(T), true, false); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
	point((uintptr_t)a, sizeof(T), true, false); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { \
	return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
	__tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
typedef unsigned __int128 u128;
AT(128, u128)
/* memory functions used by the library objects */
void *vf_memcpy(void *d, const void *s, size_t n) {
	if (n) { point((uintptr_t)s, n, false, false); point((uintptr_t)d, n, true, false); }
	return memcpy(d, s, n);
}
void *vf_memmove(void *d, const void *s, size_t n) {
	if (n) { point((uintptr_t)s, n, false, false); point((uintptr_t)d, n, true, false); }
	return memmove(d, s, n);
}
void *vf_memset(void *d, int c, size_t n) { if (n) point((uintptr_t)d, n, true, false); return memset(d, c, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return vf_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return vf_memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return vf_memset(d, c, n); }
void *vf_malloc(size_t n) { return arenaAlloc(16, n); }
void *vf_calloc(size_t a, size_t b) { void *p = arenaAlloc(16, a * b); if (p) memset(p, 0, a * b); return p; }
void *vf_aligned_alloc(size_t al, size_t n) { return arenaAlloc(al, n); }
void *vf_realloc(void *p, size_t n) {
	void *q = arenaAlloc(16, n);
	if (q && p) { int b = blkOf((uintptr_t)p); memcpy(q, p, blks[b].size < n ? blks[b].size : n); vf_free(p); }
	return q;
}

/* ------------------------------------------------------------ executions */
bool vf_done(int f) { return st[f] == DONE; }
static void entry(void) {
	sc->body(cur, sc->arg);
	st[cur] = DONE;
	int f = decide(true, true);
	wakeSpurious(f);
	nextFiber = f;
	swapcontext(&ctx[cur], &hub);
	abort();
}
static void onSig(int s) { siglongjmp(crashJmp, s); }
/* the variables of the library as they were before the first execution */
extern char __start_vf_lib_bss[] __attribute__((weak)), __stop_vf_lib_bss[] __attribute__((weak)), __start_vf_lib_data[] __attribute__((weak)),
	__stop_vf_lib_data[] __attribute__((weak)), __start_vf_lib_rel[] __attribute__((weak)), __stop_vf_lib_rel[] __attribute__((weak));
static char *libSaved[3];
static void libVars(bool save) {
	char *a[3] = { __start_vf_lib_bss, __start_vf_lib_data, __start_vf_lib_rel }, *z[3] = { __stop_vf_lib_bss, __stop_vf_lib_data, __stop_vf_lib_rel };
	for (int i = 0; i < 3; i++) {
		if (a[i] == NULL || z[i] == a[i]) continue;
		size_t n = (size_t)(z[i] - a[i]);
		if (save) { libSaved[i] = malloc(n); memcpy(libSaved[i], a[i], n); }
		else memcpy(a[i], libSaved[i], n);
	}
}
static void execute(Sched *s) {
	libVars(false);
	closeFiles();
	arenaTop = ARENA_BASE + 64; 
	memset(shadow, 0, ((arenaHigh - ARENA_BASE) / 16 + 8) * 2);
	nblk = 0; nmx = 0; trLen = 0; trN = 0; step = 0; nch = 0; fpos = 0; follow = s; fatal = false; failAt = 0;
	vf_stuck = false; cur = -1; nf = sc->nfibers; memset(autoKind, 0, sizeof autoKind);
	static unsigned long nex; if ((nex++ & 255) == 0) alarm(20);
	int sig;
	if ((sig = sigsetjmp(crashJmp, 1)) != 0) {
		int c = cur; cur = -1;
		if (sig == SIGALRM) hung = true;
		vf_ev("\"e\":\"crash\",\"t\":%d,\"kind\":\"signal\",\"r\":%d", c + 1, sig);
		return;
	}
	sc->setup(sc->arg);
	for (int i = 0; i < nf; i++) {
		getcontext(&ctx[i]);
		ctx[i].uc_stack.ss_sp = stacks[i]; ctx[i].uc_stack.ss_size = STACK_SIZE; ctx[i].uc_link = NULL;
		makecontext(&ctx[i], entry, 0);
		st[i] = RUN;
	}
	cur = 0;
	{ int f = decide(true, true); nextFiber = f; }
	while (nextFiber >= 0 && !fatal) {
		cur = nextFiber; nextFiber = -1;
		swapcontext(&hub, &ctx[cur]);
	}
	cur = -1;
	if (!fatal) {
		for (int i = 0; i < nf; i++) if (st[i] != DONE) vf_stuck = true;
		sc->finish(sc->arg);
	}
}

/* --------------------------------------------------------- deduplication */
typedef struct { uint64_t h; } Hs;
static uint64_t *hs; static size_t hsCap, hsN;
static bool hsAdd(uint64_t h) {
	if (h == 0) h = 1;
	if (hsN * 2 >= hsCap) {
		size_t oc = hsCap; uint64_t *o = hs; hsCap = oc ? oc * 2 : 1 << 14; hs = calloc(hsCap, 8); hsN = 0;
		for (size_t i = 0; i < oc; i++) if (o[i]) hsAdd(o[i]);
		free(o);
	}
	for (size_t i = h & (hsCap - 1);; i = (i + 1) & (hsCap - 1)) {
		if (hs[i] == h) return false;
		if (hs[i] == 0) { hs[i] = h; hsN++; return true; }
	}
}
static uint64_t hashStr(const char *s, size_t n) {
	uint64_t h = 1469598103934665603ull;
	for (size_t i = 0; i < n; i++) { h ^= (uint8_t)s[i]; h *= 1099511628211ull; }
	return h ^ (h >> 29);
}
static FILE *outf; static VfStats *stt;
static void record(void) {
	stt->executions++; stt->steps += step; if (step > stt->maxSteps) stt->maxSteps = step;
	if (hsAdd(hashStr(tr, trLen))) {
		stt->distinct++;
		fprintf(outf, "[{\"e\":\"scenario\",\"name\":\"%s\",\"t\":0}%s%s]\n", sc->name, trN ? "," : "", trN ? tr : "");
	}
}
void vf_explore(VfScenario *s, FILE *out, VfStats *stats) {
	static bool saved;
	if (!saved) { libVars(true); saved = true; }
	sc = s; outf = out; stt = stats; memset(stats, 0, sizeof *stats);
	uint32_t hash = 0;
	for (const char *n = s->name; *n; n++) hash = hash * 31 + (unsigned char)*n;
	smallFill = (hash ^ hash >> 7 ^ hash >> 13) & 1;
	memset(conf, 0, sizeof(Conf) << CBITS); confChanges = 0;
	free(hs); hs = NULL; hsCap = hsN = 0;
	/* warm the conflict table with random schedules */
	randMode = true;
	long rex = s->randExec;
	for (long i = 0; i < rex && !hung; i++) {
		randProb = (uint32_t)((i % 4 == 0) ? 512 : (i % 4 == 1) ? 200 : (i % 4 == 2) ? 60 : 20);
		execute(NULL); record();
	}
	randMode = false;
	/* systematic: depth first over forced switches */
	size_t cap = 1 << 16, n = 0;
	Sched *q = malloc(cap * sizeof *q);
	bool complete = true;
	for (int round = 0; round < 4; round++) {
		long before = confChanges, ex = 0;
		n = 0; q[n++] = (Sched){ 0 };
		complete = true;
		while (n > 0 && !hung) {
			Sched c = q[--n];
			if (ex >= s->maxExec) { complete = false; break; }
			execute(&c); record(); ex++;
			uint32_t last = c.n ? c.ov[c.n - 1].step : 0;
			for (size_t i = 0; i < nch; i++) {
				if (choices[i].step <= last || c.n == MAXOV) continue;
				for (int f = 0; f < nf; f++) if (choices[i].mask & (1u << f)) {
					int cost = c.cost + ((choices[i].free & (1u << f)) ? 0 : 1);
					if (cost > s->bound) continue;
					if (n == cap) { cap *= 2; q = realloc(q, cap * sizeof *q); }
					q[n] = c; q[n].ov[c.n] = (Ov){ choices[i].step, (uint8_t)f }; q[n].n++; q[n].cost = (uint8_t)cost; n++;
					stats->choicePoints++;
				}
			}
		}
		if (confChanges == before || !complete) break;
		stats->choicePoints = 0;
	}
	free(q);
	stats->complete = complete; stats->exhaustiveBound = s->bound;
}
void vf_init(uint64_t seed) {
	rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567; if (!rng) rng = 1;
	void *p = mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void*)ARENA_BASE) die("arena");
	shadow = calloc(ARENA_SIZE / 16 + 16, 2); arenaHigh = ARENA_BASE + 64;
	conf = calloc(1u << CBITS, sizeof(Conf));
	for (int i = 0; i < VF_MAXF; i++) stacks[i] = mmap(NULL, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	static char alt[65536];
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
	sigaltstack(&ss, NULL);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
	int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM };
	for (int i = 0; i < 6; i++) sigaction(sg[i], &sa, NULL);
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
}
