/* Drives the signal and the mutex of threading.c under every schedule of
 * small programs, with spurious wake ups.
 * case = prog|prog   w wait, s set, L lock, U unlock, c use of the data the mutex guards */
#include "sched/sched.h"
#include "fiftyone.h"
#include <string.h>
#include <stdlib.h>

typedef struct { const char *prog[VF_MAXF]; int n; } Case;
static fiftyoneDegreesSignal *sig;
static fiftyoneDegreesMutex mtx;
static int *guarded;
static void setup(void *a) {
	vf_autotag("signal", 0);
	sig = fiftyoneDegreesSignalCreate();
	guarded = vf_alloc(sizeof *guarded); *guarded = 0;
	vf_autotag(NULL, 0);
	memset(&mtx, 0, sizeof mtx);
	fiftyoneDegreesMutexCreate(&mtx);
	vf_ev("\"e\":\"init\",\"t\":0,\"op\":\"%s\"", sig == NULL ? "null" : "ok");
}
static void body(int f, void *a) {
	Case *c = a; int t = f + 1;
	for (const char *p = c->prog[f]; *p; p++) {
		const char *op = *p == 'w' ? "wait" : *p == 's' ? "set" : *p == 'L' ? "lock" : *p == 'U' ? "unlock" : "use";
		if (*p == 'c') {
			/* a read and a write between which another thread may run */
			vf_touch(guarded, sizeof *guarded, false);
			int v = *guarded;
			vf_point();
			vf_touch(guarded, sizeof *guarded, true);
			*guarded = v + 1;
			continue;
		}
		vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"%s\"", t, op);
		switch (*p) {
		case 'w': fiftyoneDegreesSignalWait(sig); break;
		case 's': fiftyoneDegreesSignalSet(sig); break;
		case 'L': fiftyoneDegreesMutexLock(&mtx); break;
		case 'U': fiftyoneDegreesMutexUnlock(&mtx); break;
		}
		vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"%s\"", t, op);
	}
}
static void finish(void *a) {
	Case *c = a;
	int uses = 0;
	for (int f = 0; f < c->n; f++) for (const char *p = c->prog[f]; *p; p++) uses += *p == 'c';
	if (vf_stuck) { vf_ev("\"e\":\"stuck\",\"t\":0,\"op\":\"none\""); return; }
	vf_ev("\"e\":\"end\",\"t\":0,\"op\":\"%s\"", *guarded == uses ? "ok" : "lost");
	fiftyoneDegreesSignalClose(sig);
	fiftyoneDegreesMutexClose(&mtx);
}
int main(int argc, char **argv) {
	vf_init(strtoull(argv[1], NULL, 10));
	FILE *out = fopen(argv[2], "w");
	fiftyoneDegreesMalloc = vf_alloc; fiftyoneDegreesFree = vf_free;
	fiftyoneDegreesMallocAligned = vf_alloc_aligned; fiftyoneDegreesFreeAligned = vf_free;
	for (int i = 6; i < argc; i++) {
		Case c = { { 0 }, 0 };
		char *s = strdup(argv[i]);
		for (char *q = strtok(s, "|"); q; q = strtok(NULL, "|")) c.prog[c.n++] = q;
		VfScenario sc = { argv[i], c.n, setup, body, finish, &c, atoi(argv[3]), atol(argv[4]), atol(argv[5]), true };
		VfStats st;
		vf_explore(&sc, out, &st);
		printf("{\"name\":\"%s\",\"executions\":%ld,\"distinct\":%ld,\"steps\":%ld,\"bound\":%d,\"complete\":%s}\n",
			argv[i], st.executions, st.distinct, st.steps, atoi(argv[3]), st.complete ? "true" : "false");
	}
	fclose(out);
	return 0;
}
