/* Drives the resource manager under every schedule of small programs. */
#include "sched/sched.h"
#include "fiftyone.h"
#include <string.h>
#include <stdlib.h>

typedef struct { const char *prog[VF_MAXF]; int n; int pre; } Case;
typedef struct { int id; int body; fiftyoneDegreesResourceHandle *handle; } Res;

static fiftyoneDegreesResourceManager *manager;
static Res *res[32]; static int nres; static int nextRes;
static fiftyoneDegreesResourceHandle *held[VF_MAXF][16]; static int nheld[VF_MAXF];
static int handedOver; static fiftyoneDegreesResourceHandle *bag[16]; static int nbag;
static bool freedManager;

static void freeRes(void *p) {
	Res *r = (Res*)p;
	int id = 0;
	if (r != NULL) id = vf_id(r);
	if (r == NULL) return;
	vf_ev("\"e\":\"free\",\"t\":%d,\"r\":%d", vf_self() + 1, id);
	vf_free(r);
}
static Res *newRes(int id) {
	vf_autotag("resource", id);
	Res *r = vf_alloc(sizeof(Res));
	vf_autotag(NULL, 0);
	r->id = id; r->body = id * 7; r->handle = NULL;
	res[id] = r; if (id > nres) nres = id;
	return r;
}
static void setup(void *a) {
	nres = 0; nextRes = 1; nbag = 0; freedManager = false;
	memset(nheld, 0, sizeof nheld);
	manager = vf_alloc(sizeof *manager); vf_tag(manager, "manager", 0);
	manager->active = NULL;
	Res *r = newRes(1);
	vf_autotag("handle", 1);
	fiftyoneDegreesResourceManagerInit(manager, r, &r->handle, freeRes);
	vf_autotag(NULL, 0);
	vf_ev("\"e\":\"init\",\"t\":0,\"r\":1");
	/* handles got before the threads start, one per 'pre', given to fibers in turn */
	Case *c = a;
	for (int i = 0; i < c->pre; i++) {
		fiftyoneDegreesResourceHandle *h = fiftyoneDegreesResourceHandleIncUse(manager);
		held[i % c->n][nheld[i % c->n]++] = h;
		vf_ev("\"e\":\"pre\",\"t\":%d,\"r\":%d", i % c->n + 1, vf_id((void*)h->resource));
	}
}
static void body(int f, void *a) {
	Case *c = a; int t = f + 1;
	for (const char *p = c->prog[f]; *p; p++) {
		vf_opbegin();
		switch (*p) {
		case 'g': {
			vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"get\",\"r\":0", t);
			fiftyoneDegreesResourceHandle *h = fiftyoneDegreesResourceHandleIncUse(manager);
			int id = h == NULL ? 0 : (h->resource == NULL ? 99 : vf_id((void*)h->resource));
			vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"get\",\"r\":%d", t, id);
			held[f][nheld[f]++] = h;
			break; }
		case 'u':
			for (int i = 0; i < nheld[f]; i++) {
				Res *r = (Res*)held[f][i]->resource;
				vf_touch(&r->body, 4, false);
				if (r->body != r->id * 7) vf_ev("\"e\":\"corrupt\",\"t\":%d,\"r\":%d", t, r->id);
			}
			break;
		case 'r': {
			if (nheld[f] == 0) break;
			fiftyoneDegreesResourceHandle *h = held[f][--nheld[f]];
			int id = vf_id((void*)h->resource);
			vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"rel\",\"r\":%d", t, id);
			fiftyoneDegreesResourceHandleDecUse(h);
			vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"rel\",\"r\":%d", t, id);
			break; }
		case 'p': {
			int id = ++nextRes;
			Res *r = newRes(id);
			vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"rep\",\"r\":%d", t, id);
			vf_autotag("handle", id);
			fiftyoneDegreesResourceReplace(manager, r, &r->handle);
			vf_autotag(NULL, 0);
			vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"rep\",\"r\":%d", t, id);
			break; }
		case 'f': {
			vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"mfree\",\"r\":0", t);
			vf_autotag("handle", 98);
			fiftyoneDegreesResourceManagerFree(manager);
			vf_autotag(NULL, 0);
			freedManager = true;
			vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"mfree\",\"r\":0", t);
			break; }
		}
	}
}
static void finish(void *a) {
	char live[128] = ""; 
	for (int i = 1; i <= nres; i++) if (!vf_isfreed(res[i])) sprintf(live + strlen(live), "%s%d", live[0] ? "," : "", i);
	int use = -1;
	if (!freedManager) use = fiftyoneDegreesResourceHandleGetUse((fiftyoneDegreesResourceHandle*)manager->active);
	vf_ev("\"e\":\"%s\",\"t\":0,\"live\":[%s],\"handles\":%d,\"others\":%d,\"use\":%d", vf_stuck ? "stuck" : "end",
		live, vf_livecount("handle"), vf_livecount(NULL), use);
}
int main(int argc, char **argv) {
	/* args: seed out bound maxExec randExec case... ; case = pre:prog|prog|prog */
	vf_init(strtoull(argv[1], NULL, 10));
	FILE *out = fopen(argv[2], "w");
	fiftyoneDegreesMalloc = vf_alloc; fiftyoneDegreesFree = vf_free;
	fiftyoneDegreesMallocAligned = vf_alloc_aligned; fiftyoneDegreesFreeAligned = vf_free;
	for (int i = 6; i < argc; i++) {
		Case c = { { 0 }, 0, 0 };
		char *s = strdup(argv[i]), *name = argv[i];
		c.pre = atoi(s); s = strchr(s, ':') + 1;
		for (char *q = strtok(s, "|"); q; q = strtok(NULL, "|")) c.prog[c.n++] = q;
		VfScenario sc = { name, c.n, setup, body, finish, &c, atoi(argv[3]), atol(argv[4]), atol(argv[5]), false };
		VfStats st;
		vf_explore(&sc, out, &st);
		printf("{\"name\":\"%s\",\"executions\":%ld,\"distinct\":%ld,\"steps\":%ld,\"bound\":%d,\"complete\":%s}\n",
			name, st.executions, st.distinct, st.steps, atoi(argv[3]), st.complete ? "true" : "false");
		fflush(stdout);
	}
	fclose(out);
	return 0;
}
