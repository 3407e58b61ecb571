/* Drives the resource pool under every schedule of small programs.
 * case = size:prog|prog   g get, r release the latest, R release the oldest, u use */
#include "sched/sched.h"
#include "fiftyone.h"
#include <string.h>
#include <stdlib.h>

typedef struct { const char *prog[VF_MAXF]; int n; int size; } Case;
typedef struct { int id; int owner; } Res;
static fiftyoneDegreesPool *pool;
static fiftyoneDegreesPoolItem *held[VF_MAXF][16]; static int nheld[VF_MAXF];
static int created;
static void *create(fiftyoneDegreesPool *p, void *state, fiftyoneDegreesException *ex) {
	vf_autotag("resource", ++created);
	Res *r = vf_alloc(sizeof(Res)); vf_autotag(NULL, 0);
	r->id = created; r->owner = 0;
	return r;
}
static void freeRes(fiftyoneDegreesPool *p, void *r) {
	vf_ev("\"e\":\"free\",\"t\":0,\"r\":%d", vf_id(r));
	vf_free(r);
}
static void setup(void *a) {
	Case *c = a;
	created = 0; memset(nheld, 0, sizeof nheld);
	FIFTYONE_DEGREES_EXCEPTION_CREATE
	pool = vf_alloc(sizeof *pool); vf_tag(pool, "pool", 0); memset(pool, 0, sizeof *pool);
	vf_autotag("stack", 0);
	fiftyoneDegreesPoolInit(pool, (uint16_t)c->size, NULL, create, freeRes, exception);
	vf_autotag(NULL, 0);
	vf_ev("\"e\":\"init\",\"t\":0,\"r\":%d,\"size\":%d", created, c->size);
}
static void give(int f, int at) {
	int t = f + 1;
	fiftyoneDegreesPoolItem *it = held[f][at];
	for (int i = at; i + 1 < nheld[f]; i++) held[f][i] = held[f][i + 1];
	nheld[f]--;
	Res *r = it->resource; int id = r->id;
	vf_touch(r, sizeof *r, true);
	r->owner = 0;
	vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"rel\",\"r\":%d", t, id);
	fiftyoneDegreesPoolItemRelease(it);
	vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"rel\",\"r\":%d", t, id);
}
static void body(int f, void *a) {
	Case *c = a; int t = f + 1;
	for (const char *p = c->prog[f]; *p; p++) {
		vf_opbegin();
		switch (*p) {
		case 'g': {
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"get\",\"r\":0", t);
			fiftyoneDegreesPoolItem *it = fiftyoneDegreesPoolItemGet(pool, exception);
			int id = it == NULL ? 0 : it->resource == NULL ? 1000000 : ((Res*)it->resource)->id;
			/* the status is 0 for success, 1 for insufficient handles, else 2 */
			int st = FIFTYONE_DEGREES_EXCEPTION_OKAY ? 0 : exception->status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES ? 1 : 2;
			vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"get\",\"r\":%d,\"st\":%d", t, id, st);
			if (it != NULL && it->resource != NULL) {
				held[f][nheld[f]++] = it;
				Res *r = it->resource; vf_touch(r, sizeof *r, true);
				if (r->owner != 0) vf_ev("\"e\":\"shared\",\"t\":%d,\"r\":%d", t, r->id);
				r->owner = t;
			}
			break; }
		case 'u':
			for (int i = 0; i < nheld[f]; i++) {
				Res *r = held[f][i]->resource; vf_touch(r, sizeof *r, false);
				if (r->owner != t) vf_ev("\"e\":\"shared\",\"t\":%d,\"r\":%d", t, r->id);
			}
			break;
		case 'r': if (nheld[f]) give(f, nheld[f] - 1); break;
		case 'R': if (nheld[f]) give(f, 0); break;
		}
	}
}
static void finish(void *a) {
	Case *c = a;
	if (vf_stuck) { vf_ev("\"e\":\"stuck\",\"t\":0"); return; }
	/* everything which is not held can be got now */
	for (int i = 0; i <= c->size; i++) {
		FIFTYONE_DEGREES_EXCEPTION_CREATE
		fiftyoneDegreesPoolItem *it = fiftyoneDegreesPoolItemGet(pool, exception);
		vf_ev("\"e\":\"drain\",\"t\":0,\"r\":%d", it == NULL ? 0 : it->resource == NULL ? 1000000 : ((Res*)it->resource)->id);
		if (it == NULL) break;
	}
	fiftyoneDegreesPoolFree(pool);
	vf_ev("\"e\":\"end\",\"t\":0,\"resources\":%d,\"stacks\":%d,\"others\":%d", vf_livecount("resource"), vf_livecount("stack"), vf_livecount(NULL));
}
int main(int argc, char **argv) {
	vf_init(strtoull(argv[1], NULL, 10));
	FILE *out = fopen(argv[2], "w");
	fiftyoneDegreesMalloc = vf_alloc; fiftyoneDegreesFree = vf_free;
	fiftyoneDegreesMallocAligned = vf_alloc_aligned; fiftyoneDegreesFreeAligned = vf_free;
	for (int i = 6; i < argc; i++) {
		Case c = { { 0 }, 0, 0 };
		char *s = strdup(argv[i]), *name = argv[i];
		c.size = atoi(s); s = strchr(s, ':') + 1;
		for (char *q = strtok(s, "|"); q; q = strtok(NULL, "|")) c.prog[c.n++] = q;
		VfScenario sc = { name, c.n, setup, body, finish, &c, atoi(argv[3]), atol(argv[4]), atol(argv[5]), false };
		VfStats st;
		vf_explore(&sc, out, &st);
		printf("{\"name\":\"%s\",\"executions\":%ld,\"distinct\":%ld,\"steps\":%ld,\"bound\":%d,\"complete\":%s}\n",
			name, st.executions, st.distinct, st.steps, atoi(argv[3]), st.complete ? "true" : "false");
	}
	fclose(out);
	return 0;
}
