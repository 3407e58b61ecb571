/* Runs a sequential history against a loading cache.
 * script = cap conc bits { g lo hi fail | r lo hi }...
 * bits 32: the key is the 32 bit integer lo, 64: lo and hi are its halves */
#include "seq.h"
typedef struct { int lo, hi; } K;
typedef struct { K k; fiftyoneDegreesCacheNode *n; } Held;
static int failing, loads, bits; static K last;
static int64_t stateTag;
static void load(const void *state, fiftyoneDegreesData *data, const void *key, fiftyoneDegreesException *exception) {
	K k; k.lo = ((const int*)key)[0]; k.hi = bits == 64 ? ((const int*)key)[1] : 0;
	loads++;
	last = k;
	if (state != &stateTag) seqBad("loader state");
	if (failing) { FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL); return; }
	size_t size = sizeof(K) * (size_t)(1 + (((unsigned)k.lo) % 5) * 3);
	K *d = fiftyoneDegreesDataMalloc(data, size);
	for (size_t i = 0; i < size / sizeof(K); i++) d[i] = k;
	data->used = (uint32_t)size;
}
static int bad(Held *h) {
	size_t n = sizeof(K) * (size_t)(1 + (((unsigned)h->k.lo) % 5) * 3);
	if (h->n->data.used != n) return 1;
	K *d = (K*)h->n->data.ptr;
	for (size_t i = 0; i < n / sizeof(K); i++) if (d[i].lo != h->k.lo || d[i].hi != h->k.hi) return 1;
	return 0;
}
static void script(void) {
	static Held held[4096]; int n = 0;
	int cap = (int)tokInt(), conc = (int)tokInt(); bits = (int)tokInt();
	fiftyoneDegreesCache *c = fiftyoneDegreesCacheCreate((uint32_t)cap, (uint16_t)conc, load,
		bits == 64 ? fiftyoneDegreesCacheHash64 : fiftyoneDegreesCacheHash32, &stateTag);
	ev("\"e\":\"create\",\"cap\":%d,\"conc\":%d,\"ok\":%d", cap, conc, c != NULL);
	if (c == NULL) return;
	char *t;
	while ((t = tokOpt()) != NULL) {
		K k; k.lo = (int)tokInt(); k.hi = (int)tokInt();
		if (*t == 'g') {
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			int64_t key = (int64_t)(((uint64_t)(uint32_t)k.hi << 32) | (uint32_t)k.lo);
			int key32 = k.lo;
			failing = (int)tokInt(); loads = 0; last.lo = last.hi = 0;
			fiftyoneDegreesCacheNode *node = fiftyoneDegreesCacheGet(c, bits == 64 ? (void*)&key : (void*)&key32, exception);
			int same = 0, other = 0;
			if (node != NULL) {
				for (int i = 0; i < n; i++) if (held[i].n == node) { if (held[i].k.lo == k.lo && held[i].k.hi == k.hi) same = 1; else other = 1; }
				held[n].k = k; held[n++].n = node;
			}
			int corrupt = 0;
			for (int i = 0; i < n; i++) corrupt += bad(&held[i]);
			ev("\"e\":\"get\",\"lo\":%d,\"hi\":%d,\"fail\":%d,\"loads\":%d,\"lk\":%d,\"ok\":%d,\"same\":%d,\"other\":%d,\"st\":%d,\"corrupt\":%d,\"hits\":%lu,\"misses\":%lu",
				k.lo, k.hi, failing, loads, loads == 0 || (last.lo == k.lo && last.hi == k.hi), node != NULL, same, other,
				FIFTYONE_DEGREES_EXCEPTION_FAILED ? 1 : 0, corrupt, c->hits, c->misses);
		} else {
			/* only what is held can be released */
			int at = -1;
			for (int i = 0; i < n; i++) if (held[i].k.lo == k.lo && held[i].k.hi == k.hi) at = i;
			if (at < 0) continue;
			fiftyoneDegreesCacheNode *node = held[at].n;
			for (int i = at; i + 1 < n; i++) held[i] = held[i + 1];
			n--;
			fiftyoneDegreesCacheRelease(node);
			ev("\"e\":\"rel\",\"lo\":%d,\"hi\":%d", k.lo, k.hi);
		}
	}
	fiftyoneDegreesCacheFree(c);
	ev("\"e\":\"end\",\"live\":%ld", seqLive);
}
int main(void) { seqUse(); return seqLoop(script, 10); }
