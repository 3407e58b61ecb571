/* Drives the tracking of allocations (memory.c). The allocator behind it can
 * fail, and gives a small block for a huge size.
 * script = scale { op }: sizes are in units of 2^scale bytes
 *   m slot size n   allocate (n: the n-th allocation behind it fails, 0 none)
 *   a slot align size n
 *   f slot          free      z free a null pointer   y the same, aligned
 *   R reset   S set up   U unset   g   nothing but the totals */
#include "seq.h"
#define SLOTS 64
static long failAt, live, scale; static bool failed;
/* the block which stands for a huge one */
static size_t real(size_t n) { return n > ((size_t)1 << 26) ? 64 : n; }
void *vf_malloc(size_t n) { if (failAt > 0 && --failAt == 0) { failed = true; return NULL; } live++; return malloc(real(n)); }
void *vf_calloc(size_t a, size_t b) { if (failAt > 0 && --failAt == 0) { failed = true; return NULL; } live++; return calloc(1, real(a * b)); }
void *vf_realloc(void *p, size_t n) { if (failAt > 0 && --failAt == 0) { failed = true; return NULL; } if (p == NULL) live++; return realloc(p, real(n)); }
void *vf_aligned_alloc(size_t a, size_t n) {
	if (failAt > 0 && --failAt == 0) { failed = true; return NULL; }
	void *p = NULL;
	if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, real(n)) != 0) seqDie("aligned");
	live++; return p;
}
void vf_free(void *p) { if (p != NULL) live--; free(p); }
static struct { unsigned char *p; size_t n; bool aligned; } slots[SLOTS];
static bool overlap(int s) {
	for (int i = 0; i < SLOTS; i++) if (i != s && slots[i].p != NULL
		&& slots[i].p < slots[s].p + slots[s].n && slots[s].p < slots[i].p + slots[i].n) return true;
	return false;
}
static void giveBack(int s);
static void totals(void) {
	size_t a = fiftyoneDegreesMemoryTrackingGetAllocated(), m = fiftyoneDegreesMemoryTrackingGetMax(), u = (size_t)1 << scale;
	/* out of range when it is not a multiple or large */
	printf(",\"alloc\":%ld,\"max\":%ld", a % u || a / u > 1000000000 ? -1L : (long)(a / u), m % u || m / u > 1000000000 ? -1L : (long)(m / u));
	evEnd();
}
static void got(const char *op, int s, long size, int align, void *p) {
	int ok = p != NULL, good = 1;
	if (ok) {
		slots[s].p = p; slots[s].n = real((size_t)size << scale); slots[s].aligned = align != 0;
		if (align && (uintptr_t)p % (uintptr_t)align != 0) good = 0;
		if (slots[s].n && overlap(s)) good = 0;
		memset(p, s + 1, slots[s].n);
	}
	evBegin("\"e\":\"%s\",\"s\":%d,\"size\":%ld,\"align\":%d,\"ok\":%d,\"good\":%d,\"failed\":%d", op, s, size, align, ok, good, failed);
	totals();
	failAt = 0;
}
static void giveBack(int s) {
	if (slots[s].p == NULL) seqBad("free of an empty slot");
	int good = 1;
	for (size_t i = 0; i < slots[s].n; i++) if (slots[s].p[i] != s + 1) good = 0;
	(slots[s].aligned ? fiftyoneDegreesFreeAligned : fiftyoneDegreesFree)(slots[s].p);
	slots[s].p = NULL;
	evBegin("\"e\":\"free\",\"s\":%d,\"good\":%d", s, good); totals();
}
static void script(void) {
	scale = tokInt(); live = 0; memset(slots, 0, sizeof slots);
	fiftyoneDegreesMemoryTrackingReset();
	fiftyoneDegreesMalloc = fiftyoneDegreesMemoryTrackingMalloc;
	fiftyoneDegreesMallocAligned = fiftyoneDegreesMemoryTrackingMallocAligned;
	fiftyoneDegreesFree = fiftyoneDegreesMemoryTrackingFree;
	fiftyoneDegreesFreeAligned = fiftyoneDegreesMemoryTrackingFreeAligned;
	live = 0;
	char *t;
	while ((t = tokOpt()) != NULL) {
		switch (*t) {
		case 'm': { int s = (int)tokInt(); if (slots[s].p) giveBack(s); long n = tokInt(); failed = false; failAt = tokInt();
			got("malloc", s, n, 0, fiftyoneDegreesMalloc((size_t)n << scale)); break; }
		case 'a': { int s = (int)tokInt(), al = (int)tokInt(); if (slots[s].p) giveBack(s); long n = tokInt(); failed = false; failAt = tokInt();
			got("malloc", s, n, al, fiftyoneDegreesMallocAligned(al, (size_t)n << scale)); break; }
		case 'f': giveBack((int)tokInt()); break;
		case 'z': fiftyoneDegreesFree(NULL); evBegin("\"e\":\"null\""); totals(); break;
		case 'y': fiftyoneDegreesFreeAligned(NULL); evBegin("\"e\":\"null\""); totals(); break;
		case 'R': fiftyoneDegreesMemoryTrackingReset(); evBegin("\"e\":\"reset\""); totals(); break;
		case 'S': fiftyoneDegreesSetUpMemoryTracking(); evBegin("\"e\":\"setup\""); totals(); break;
		case 'U': { size_t r = fiftyoneDegreesUnsetMemoryTracking(), u = (size_t)1 << scale;
			evBegin("\"e\":\"unset\",\"left\":%ld", r % u || r / u > 1000000000 ? -1L : (long)(r / u)); totals(); break; }
		default: seqDie("op");
		}
	}
	for (int i = 0; i < SLOTS; i++) if (slots[i].p != NULL) giveBack(i);
	ev("\"e\":\"end\",\"live\":%ld,\"standard\":%d", live, fiftyoneDegreesMalloc == fiftyoneDegreesMemoryStandardMalloc);
}
int main(void) { return seqLoop(script, 10); }
