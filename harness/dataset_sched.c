/* Drives the reload of data sets from memory under the schedules of small programs. */
#include "sched/sched.h"
#include "fiftyone.h"
#include <string.h>
#include <stdlib.h>
#define ENG_SERIAL(e) ((int)(e)->header.id)
#define ENG_DONE(e) vf_autotag("handle", (int)(e)->header.id)
#include "engine.h"
#define IDS 16
#define KINDS 5
typedef struct { const char *prog[VF_MAXF]; int n; int pre; } Case;
static fiftyoneDegreesResourceManager *manager;
static Eng *sets[IDS]; static int nextId;
static const char *part[IDS] = { "p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15" };
static Eng *held[VF_MAXF][16]; static int nheld[VF_MAXF];
static bool freedManager;
static bool noHandle[VF_MAXF]; /* there is no memory for the handle of the set which a thread loads */
static void *allocAligned(int alignment, size_t size) {
	int f = vf_self();
	return f >= 0 && noHandle[f] ? NULL : vf_alloc_aligned(alignment, size);
}
static EngConfig config;
static EngBuf contents[IDS][KINDS];

static void engFreed(Eng *e) { vf_ev("\"e\":\"free\",\"t\":%d,\"r\":%d", vf_self() + 1, e->serial); }
/* kinds of content: all names, the first two only, none of those wanted, broken, all but without memory for the handle */
static const uint32_t masks[KINDS] = { 7, 3, 12, 7, 7 };
static EngBuf *contentOf(int id, int kind) {
	EngBuf *b = &contents[id][kind];
	if (b->p == NULL) {
		EngHeader h = { ENG_MAGIC, (uint32_t)id, masks[kind], 0, 1, 1 };
		*b = engContent(&h);
		if (kind == 3) b->n--;
	}
	return b;
}
static void setup(void *a) {
	fiftyoneDegreesException ex, *exception = &ex; FIFTYONE_DEGREES_EXCEPTION_CLEAR
	fiftyoneDegreesPropertiesRequired want = fiftyoneDegreesPropertiesDefault;
	Case *c = a;
	want.string = "Alpha,beta,Gamma.Two";
	memset(sets, 0, sizeof sets); memset(nheld, 0, sizeof nheld); nextId = 1; freedManager = false; memset(noHandle, 0, sizeof noHandle);
	memset(&config, 0, sizeof config);
	manager = vf_alloc(sizeof *manager); vf_tag(manager, "manager", 0); manager->active = NULL;
	EngBuf *b = contentOf(1, 0);
	vf_autotag(part[1], 1);
	if (engManager(manager, &config, &want, NULL, b->p, (long)b->n, exception) != FIFTYONE_DEGREES_STATUS_SUCCESS) abort();
	vf_autotag(NULL, 0);
	vf_ev("\"e\":\"init\",\"t\":0,\"r\":1,\"kind\":0");
	for (int i = 0; i < c->pre; i++) {
		Eng *e = (Eng*)fiftyoneDegreesDataSetGet(manager);
		held[i % c->n][nheld[i % c->n]++] = e;
		vf_ev("\"e\":\"pre\",\"t\":%d,\"r\":%d", i % c->n + 1, e->serial);
	}
}
static void load(int t, int kind) {
	fiftyoneDegreesException ex, *exception = &ex; FIFTYONE_DEGREES_EXCEPTION_CLEAR
	int id = ++nextId;
	if (id >= IDS) abort();
	EngBuf *b = contentOf(id, kind);
	vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"load\",\"r\":%d,\"kind\":%d", t, id, kind);
	vf_autotag(part[id], id);
	noHandle[t - 1] = kind == 4;
	fiftyoneDegreesStatusCode st = fiftyoneDegreesDataSetReloadManagerFromMemory(manager, b->p, (long)b->n, sizeof(Eng), engInitMemory, exception);
	noHandle[t - 1] = false;
	vf_autotag(NULL, 0);
	vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"load\",\"r\":%d,\"ok\":%d", t, id, st == FIFTYONE_DEGREES_STATUS_SUCCESS);
}
static void use(int t, Eng *e) {
	fiftyoneDegreesException ex, *exception = &ex; FIFTYONE_DEGREES_EXCEPTION_CLEAR
	int id = vf_id(e), mask = 0;
	vf_touch(e, sizeof *e, false);
	vf_touch(e->b.available, sizeof *e->b.available, false);
	fiftyoneDegreesPropertiesAvailable *av = e->b.available;
	for (uint32_t i = 0; av && i < av->count; i++) for (int k = 0; k < ENG_NAMES; k++)
		if (strcmp(FIFTYONE_DEGREES_STRING(av->items[i].name.data.ptr), engName[k]) == 0) mask |= 1 << k;
	int good = engReadValues(e, 0, 1, exception);
	vf_ev("\"e\":\"use\",\"t\":%d,\"r\":%d,\"id\":%d,\"props\":%d,\"good\":%d", t, id, (int)e->header.id, mask, good);
}
static void body(int f, void *a) {
	Case *c = a; int t = f + 1;
	for (const char *p = c->prog[f]; *p; p++) {
		vf_opbegin();
		switch (*p) {
		case 'g': {
			vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"get\",\"r\":0", t);
			Eng *e = (Eng*)fiftyoneDegreesDataSetGet(manager);
			vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"get\",\"r\":%d", t, e == NULL ? 99 : vf_id(e));
			if (e != NULL) held[f][nheld[f]++] = e;
			break; }
		case 'u': for (int i = 0; i < nheld[f]; i++) use(t, held[f][i]); break;
		case 'r': {
			if (nheld[f] == 0) break;
			Eng *e = held[f][--nheld[f]];
			int id = vf_id(e);
			vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"rel\",\"r\":%d", t, id);
			fiftyoneDegreesDataSetRelease(&e->b);
			vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"rel\",\"r\":%d", t, id);
			break; }
		case 'p': load(t, 0); break;
		case 'q': load(t, 1); break;
		case 'n': load(t, 2); break;
		case 'b': load(t, 3); break;
		case 'x': load(t, 4); break;
		case 'f': {
			vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"mfree\",\"r\":0", t);
			vf_autotag("handle", 98);
			fiftyoneDegreesResourceManagerFree(manager);
			vf_autotag(NULL, 0);
			freedManager = true;
			vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"mfree\",\"r\":0", t);
			break; }
		}
	}
}
static void finish(void *a) {
	char left[128] = "";
	for (int i = 0; i < IDS; i++) if (vf_livecount(part[i])) sprintf(left + strlen(left), "%s%d", left[0] ? "," : "", i);
	int use = -1;
	if (!freedManager) use = fiftyoneDegreesResourceHandleGetUse((fiftyoneDegreesResourceHandle*)manager->active);
	vf_ev("\"e\":\"%s\",\"t\":0,\"left\":[%s],\"handles\":%d,\"others\":%d,\"use\":%d", vf_stuck ? "stuck" : "end", left, vf_livecount("handle"), vf_livecount(NULL), use);
}
int main(int argc, char **argv) {
	/* args: seed out bound maxExec randExec case... ; case = pre:prog|prog|prog */
	vf_init(strtoull(argv[1], NULL, 10));
	FILE *out = fopen(argv[2], "w");
	fiftyoneDegreesMalloc = vf_alloc; fiftyoneDegreesFree = vf_free;
	fiftyoneDegreesMallocAligned = allocAligned; fiftyoneDegreesFreeAligned = vf_free;
	for (int i = 6; i < argc; i++) {
		Case c = { { 0 }, 0, 0 };
		char *s = strdup(argv[i]), *name = argv[i];
		c.pre = atoi(s); s = strchr(s, ':') + 1;
		for (char *q = strtok(s, "|"); q; q = strtok(NULL, "|")) c.prog[c.n++] = q;
		VfScenario sc = { name, c.n, setup, body, finish, &c, atoi(argv[3]), atol(argv[4]), atol(argv[5]), false };
		VfStats st;
		vf_explore(&sc, out, &st);
		printf("{\"name\":\"%s\",\"executions\":%ld,\"distinct\":%ld,\"steps\":%ld,\"bound\":%d,\"complete\":%s}\n",
			name, st.executions, st.distinct, st.steps, atoi(argv[3]), st.complete ? "true" : "false");
		fflush(stdout);
	}
	fclose(out);
	return 0;
}
