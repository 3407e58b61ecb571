/* Drives the loading cache under every schedule of small programs.
 * case = capacity,concurrency:prog|prog
 * 0..6 get that key, 8 get key -5, 9 get the key whose load fails, r release the
 * latest, R the oldest, u use what is held */
#include "sched/sched.h"
#include "fiftyone.h"
#include <string.h>
#include <stdlib.h>

typedef struct { const char *prog[VF_MAXF]; int n, cap, conc; } Case;
typedef struct { int key; int node; fiftyoneDegreesCacheNode *p; } Got;
static fiftyoneDegreesCache *cache;
static Got held[VF_MAXF][16]; static int nheld[VF_MAXF];
static int stateTag = 4242;

static int nodeOf(const void *p) {
	if (p == NULL) return 0;
	size_t d = (size_t)((const char*)p - (const char*)cache->nodes);
	return (int)(d / sizeof(fiftyoneDegreesCacheNode)) + 1;
}
static void load(const void *state, fiftyoneDegreesData *data, const void *key, fiftyoneDegreesException *exception) {
	int k = *(const int*)key, ok = k != 9 && state == &stateTag;
	vf_ev("\"e\":\"load\",\"t\":%d,\"k\":%d,\"n\":%d,\"ok\":%d", vf_self() + 1, k, nodeOf(data), ok);
	if (!ok) {
		FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL);
		return;
	}
	vf_autotag("data", 0);
	int *d = fiftyoneDegreesDataMalloc(data, sizeof(int));
	vf_autotag(NULL, 0);
	vf_touch(d, 4, true);
	*d = -77;
	vf_point();
	*d = k;
	data->used = sizeof(int);
}
static void setup(void *a) {
	Case *c = a;
	memset(nheld, 0, sizeof nheld);
	vf_autotag("cache", 0);
	cache = fiftyoneDegreesCacheCreate((uint32_t)c->cap, (uint16_t)c->conc, load, fiftyoneDegreesCacheHash32, &stateTag);
	vf_autotag(NULL, 0);
	vf_ev("\"e\":\"init\",\"t\":0,\"cap\":%d,\"conc\":%d", c->cap, c->conc);
}
static void check(int t, Got *g) {
	if (g->p->data.used != sizeof(int)) { vf_ev("\"e\":\"corrupt\",\"t\":%d,\"n\":%d", t, g->node); return; }
	vf_touch(g->p->data.ptr, 4, false);
	if (*(int*)g->p->data.ptr != g->key) vf_ev("\"e\":\"corrupt\",\"t\":%d,\"n\":%d", t, g->node);
}
static void give(int f, int at) {
	int t = f + 1;
	Got g = held[f][at];
	for (int i = at; i + 1 < nheld[f]; i++) held[f][i] = held[f][i + 1];
	nheld[f]--;
	check(t, &g);
	vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"rel\",\"k\":%d,\"n\":%d", t, g.key, g.node);
	fiftyoneDegreesCacheRelease(g.p);
	vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"rel\",\"k\":%d,\"n\":%d,\"st\":0", t, g.key, g.node);
}
static void body(int f, void *a) {
	Case *c = a; int t = f + 1;
	for (const char *p = c->prog[f]; *p; p++) {
		vf_opbegin();
		if (*p >= '0' && *p <= '9') {
			int k = *p - '0'; if (k == 8) k = -5;
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"get\",\"k\":%d,\"n\":0", t, k);
			fiftyoneDegreesCacheNode *n = fiftyoneDegreesCacheGet(cache, &k, exception);
			vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"get\",\"k\":%d,\"n\":%d,\"st\":%d", t, k, nodeOf(n), FIFTYONE_DEGREES_EXCEPTION_OKAY ? 0 : 1);
			if (n != NULL) { held[f][nheld[f]] = (Got){ k, nodeOf(n), n }; check(t, &held[f][nheld[f]++]); }
		}
		else if (*p == 'u') for (int i = 0; i < nheld[f]; i++) check(t, &held[f][i]);
		else if (*p == 'r' && nheld[f]) give(f, nheld[f] - 1);
		else if (*p == 'R' && nheld[f]) give(f, 0);
	}
}
static void finish(void *a) {
	if (vf_stuck) { vf_ev("\"e\":\"stuck\",\"t\":0"); return; }
	int hits = (int)cache->hits, misses = (int)cache->misses;
	fiftyoneDegreesCacheFree(cache);
	vf_ev("\"e\":\"end\",\"t\":0,\"hits\":%d,\"misses\":%d,\"data\":%d,\"others\":%d", hits, misses, vf_livecount("data"),
		vf_livecount(NULL) + vf_livecount("cache"));
}
int main(int argc, char **argv) {
	vf_init(strtoull(argv[1], NULL, 10));
	FILE *out = fopen(argv[2], "w");
	fiftyoneDegreesMalloc = vf_alloc; fiftyoneDegreesFree = vf_free;
	fiftyoneDegreesMallocAligned = vf_alloc_aligned; fiftyoneDegreesFreeAligned = vf_free;
	for (int i = 6; i < argc; i++) {
		Case c = { { 0 }, 0, 0, 0 };
		char *s = strdup(argv[i]), *name = argv[i];
		c.cap = atoi(s); c.conc = atoi(strchr(s, ',') + 1); s = strchr(s, ':') + 1;
		for (char *q = strtok(s, "|"); q; q = strtok(NULL, "|")) c.prog[c.n++] = q;
		VfScenario sc = { name, c.n, setup, body, finish, &c, atoi(argv[3]), atol(argv[4]), atol(argv[5]), false };
		VfStats st;
		vf_explore(&sc, out, &st);
		printf("{\"name\":\"%s\",\"executions\":%ld,\"distinct\":%ld,\"steps\":%ld,\"bound\":%d,\"complete\":%s}\n",
			name, st.executions, st.distinct, st.steps, atoi(argv[3]), st.complete ? "true" : "false");
	}
	fclose(out);
	return 0;
}
