/* Drives the tracking of allocations under every schedule of small programs.
 * case = prog|prog   1..9 allocate that many times 8 bytes, a aligned 32,
 * r free the latest, R free the oldest, g read the total, x read the peak */
#include "sched/sched.h"
#include "fiftyone.h"
#include <string.h>
#include <stdlib.h>
typedef struct { const char *prog[VF_MAXF]; int n; } Case;
static struct { unsigned char *p; int size, id, aligned; } held[VF_MAXF][16]; static int nheld[VF_MAXF], ids;
static void setup(void *a) {
	memset(nheld, 0, sizeof nheld); ids = 0;
	fiftyoneDegreesSetUpMemoryTracking();
}
static void give(int f, int at) {
	int t = f + 1, id = held[f][at].id, al = held[f][at].aligned, n = held[f][at].size;
	unsigned char *p = held[f][at].p;
	for (int i = at; i + 1 < nheld[f]; i++) held[f][i] = held[f][i + 1];
	nheld[f]--;
	vf_touch(p, (size_t)n, false);
	for (int i = 0; i < n; i++) if (p[i] != id) { vf_ev("\"e\":\"shared\",\"t\":%d,\"b\":%d", t, id); break; }
	vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"free\",\"b\":%d,\"n\":0", t, id);
	(al ? fiftyoneDegreesFreeAligned : fiftyoneDegreesFree)(p);
	vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"free\",\"v\":0", t);
}
static void body(int f, void *a) {
	Case *c = a; int t = f + 1;
	for (const char *p = c->prog[f]; *p; p++) {
		vf_opbegin();
		switch (*p) {
		case 'g': case 'x': {
			vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"%s\",\"b\":0,\"n\":0", t, *p == 'g' ? "get" : "max");
			size_t v = *p == 'g' ? fiftyoneDegreesMemoryTrackingGetAllocated() : fiftyoneDegreesMemoryTrackingGetMax();
			vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"%s\",\"v\":%d", t, *p == 'g' ? "get" : "max", v > 1000000 ? -1 : (int)v);
			break; }
		case 'r': if (nheld[f]) give(f, nheld[f] - 1); break;
		case 'R': if (nheld[f]) give(f, 0); break;
		default: {
			int n = *p == 'a' ? 32 : (*p - '0') * 8, id = ++ids;
			vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"malloc\",\"b\":%d,\"n\":%d", t, id, n);
			unsigned char *m = *p == 'a' ? fiftyoneDegreesMallocAligned(16, (size_t)n) : fiftyoneDegreesMalloc((size_t)n);
			vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"malloc\",\"v\":%d", t, m != NULL);
			if (m != NULL) {
				vf_touch(m, (size_t)n, true); memset(m, id, (size_t)n);
				held[f][nheld[f]].p = m; held[f][nheld[f]].size = n; held[f][nheld[f]].id = id; held[f][nheld[f]++].aligned = *p == 'a';
			} }
		}
	}
}
static void finish(void *a) {
	Case *c = a;
	if (vf_stuck) { vf_ev("\"e\":\"stuck\",\"t\":0"); return; }
	vf_ev("\"e\":\"totals\",\"alloc\":%ld,\"max\":%ld", (long)fiftyoneDegreesMemoryTrackingGetAllocated(), (long)fiftyoneDegreesMemoryTrackingGetMax());
	for (int f = 0; f < c->n; f++) while (nheld[f]) give(f, 0);
	vf_ev("\"e\":\"totals\",\"alloc\":%ld,\"max\":%ld", (long)fiftyoneDegreesMemoryTrackingGetAllocated(), (long)fiftyoneDegreesMemoryTrackingGetMax());
	vf_ev("\"e\":\"end\",\"live\":%d", vf_livecount(NULL));
}
int main(int argc, char **argv) {
	vf_init(strtoull(argv[1], NULL, 10));
	FILE *out = fopen(argv[2], "w");
	vf_reuse = true;
	for (int i = 6; i < argc; i++) {
		Case c = { { 0 }, 0 };
		char *s = strdup(argv[i]), *name = argv[i];
		for (char *q = strtok(s, "|"); q; q = strtok(NULL, "|")) c.prog[c.n++] = q;
		VfScenario sc = { name, c.n, setup, body, finish, &c, atoi(argv[3]), atol(argv[4]), atol(argv[5]), false };
		VfStats st;
		vf_explore(&sc, out, &st);
		printf("{\"name\":\"%s\",\"executions\":%ld,\"distinct\":%ld,\"steps\":%ld,\"bound\":%d,\"complete\":%s}\n",
			name, st.executions, st.distinct, st.steps, atoi(argv[3]), st.complete ? "true" : "false");
	}
	fclose(out);
	return 0;
}
