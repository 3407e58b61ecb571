/* Threads reading the collections of a data set which is in a file, through the
 * file pool and the caches, under the schedules of small programs.
 * case = pool,ks,kv,cap,conc:prog|prog
 *   ks kv: kind of the strings and of the values: 0 file, 1 cached, 2 partly loaded, 3 loaded and cached
 *   0..5 get that value, a..f get the text of it, 9 get a value which isn't there,
 *   g..i get that profile, j..l that component (kinds ks and kv)
 *   r release the latest, R the oldest, u use what is held */
#include "sched/sched.h"
#include "fiftyone.h"
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include "engine.h"
typedef struct { const char *prog[VF_MAXF]; int n, pool, ks, kv, cap, conc; } Case;
typedef struct { int c, i; fiftyoneDegreesCollectionItem item; } Got;
static Eng *eng; static EngConfig config; static char file[300];
static Got held[VF_MAXF][16]; static int nheld[VF_MAXF];
static uint32_t textAt[6]; static EngHeader header;
/* after the data set: profiles and components of several lengths */
FILE *vf_fopen(const char *name, const char *mode); int vf_fseek(FILE *f, long o, int w); int vf_fclose(FILE *f);
static fiftyoneDegreesCollection *profiles, *components;
static uint32_t partAt[2][3], partEnd[3]; static unsigned char part[2][3][200]; static uint32_t partSize[2][3];
static void makeParts(EngBuf *b) {
	static const uint32_t counts[2][3] = { { 1, 6, 3 }, { 2, 1, 5 } };
	partEnd[0] = (uint32_t)b->n;
	for (int k = 0; k < 2; k++) {
		for (int i = 0; i < 3; i++) {
			unsigned char *p = part[k][i]; uint32_t n = counts[k][i];
			if (k == 0) {
				fiftyoneDegreesProfile *q = (fiftyoneDegreesProfile*)p;
				*(byte*)&q->componentIndex = (byte)i; *(uint32_t*)&q->profileId = 70 + (uint32_t)i; *(uint32_t*)&q->valueCount = n;
				for (uint32_t j = 0; j < n; j++) { uint32_t v = 1000 * (uint32_t)i + j; memcpy(p + sizeof *q + 4 * j, &v, 4); }
				partSize[k][i] = (uint32_t)sizeof *q + 4 * n;
			} else {
				uint32_t at = (uint32_t)(sizeof(fiftyoneDegreesComponent) - sizeof(fiftyoneDegreesComponentKeyValuePair));
				uint16_t c = (uint16_t)n;
				p[0] = (byte)(40 + i); memcpy(p + at - 2, &c, 2);
				for (uint32_t j = 0; j < 2 * n; j++) { uint32_t v = 5000 * (uint32_t)i + j; memcpy(p + at + 4 * j, &v, 4); }
				partSize[k][i] = at + 8 * n;
			}
			partAt[k][i] = (uint32_t)b->n - partEnd[k];
			engPut(b, p, partSize[k][i]);
		}
		partEnd[k + 1] = (uint32_t)b->n;
	}
}
static void engFreed(Eng *e) { }
static void makeFile(void) {
	/* one property, which holds a string */
	header = (EngHeader){ ENG_MAGIC, 5, 1, 1, 6, 1 };
	EngBuf b = engContent(&header);
	unsigned char *p = b.p + sizeof header;
	for (int k = 0; k < 3; k++) p += 4 + *(uint32_t*)p;
	p += 4;
	for (int i = 0; i < 6; i++) textAt[i] = ((EngValue*)p)[i].text;
	makeParts(&b);
	FILE *f = fopen(file, "wb");
	if (f == NULL || fwrite(b.p, b.n, 1, f) != 1 || fclose(f) != 0) abort();
}
static fiftyoneDegreesCollectionConfig kindOf(Case *c, int k) {
	fiftyoneDegreesCollectionConfig q = { 0, 0, (uint16_t)c->conc };
	if (k == 1 || k == 3) q.capacity = (uint32_t)c->cap;
	if (k == 2 || k == 3) q.loaded = 3;
	return q;
}
static void setup(void *a) {
	fiftyoneDegreesException ex, *exception = &ex; FIFTYONE_DEGREES_EXCEPTION_CLEAR
	Case *c = a;
	memset(nheld, 0, sizeof nheld); memset(&config, 0, sizeof config);
	config.concurrency = (uint16_t)c->pool; config.compare = -1;
	config.strings = kindOf(c, c->ks); config.values = kindOf(c, c->kv);
	vf_autotag("set", 0);
	eng = vf_alloc(sizeof *eng);
	if (engInitFile(eng, &config, NULL, file, exception) != FIFTYONE_DEGREES_STATUS_SUCCESS) { fprintf(stderr, "not loaded\n"); abort(); }
	FILE *f = vf_fopen(file, "rb");
	for (int k = 0; k < 2; k++) {
		vf_fseek(f, (long)partEnd[k], SEEK_SET);
		fiftyoneDegreesCollectionHeader h = { partEnd[k], partEnd[k + 1] - partEnd[k], 0 };
		*(k ? &components : &profiles) = fiftyoneDegreesCollectionCreateFromFile(f, &eng->b.filePool, k ? &config.values : &config.strings, h,
			k ? fiftyoneDegreesComponentReadFromFile : fiftyoneDegreesProfileReadFromFile);
	}
	vf_fclose(f);
	if (profiles == NULL || components == NULL) { fprintf(stderr, "not loaded\n"); abort(); }
	vf_autotag(NULL, 0);
	vf_ev("\"e\":\"init\",\"t\":0,\"pool\":%d,\"ks\":%d,\"kv\":%d,\"entries\":%d", c->pool, c->ks, c->kv, c->cap / c->conc + c->cap % c->conc);
}
/* what is got is in memory of the collection, and stays as it is while it is held */
static bool right(Got *g) {
	char t[64];
	if (g->c == 0) {
		EngValue *v = (EngValue*)g->item.data.ptr;
		vf_touch(v, sizeof *v, false);
		return v->number == engNumber(&header, (uint32_t)g->i) && v->text == textAt[g->i];
	}
	if (g->c > 1) {
		uint32_t n = partSize[g->c - 2][g->i];
		vf_touch(g->item.data.ptr, n, false);
		return memcmp(g->item.data.ptr, part[g->c - 2][g->i], n) == 0;
	}
	engValueText(t, &header, (uint32_t)g->i);
	fiftyoneDegreesString *s = (fiftyoneDegreesString*)g->item.data.ptr;
	vf_touch(s, strlen(t) + 3, false);
	return s->size == (int16_t)strlen(t) + 1 && strcmp(&s->value, t) == 0;
}
static void check(int t, Got *g) { if (!right(g)) vf_ev("\"e\":\"wrong\",\"t\":%d,\"c\":%d,\"i\":%d", t, g->c, g->i); }
static void *fetch(Got *g, fiftyoneDegreesException *exception) {
	fiftyoneDegreesDataReset(&g->item.data); g->item.handle = NULL; g->item.collection = NULL;
	fiftyoneDegreesCollection *p = g->c == 2 ? profiles : components;
	return g->c > 1 ? p->get(p, partAt[g->c - 2][g->i], &g->item, exception) : g->c == 0 ? eng->values->get(eng->values, (uint32_t)g->i, &g->item, exception)
		: (void*)fiftyoneDegreesStringGet(eng->strings, textAt[g->i], &g->item, exception);
}
static void give(int f, int at) {
	Got g = held[f][at];
	for (int i = at; i + 1 < nheld[f]; i++) held[f][i] = held[f][i + 1];
	nheld[f]--;
	check(f + 1, &g);
	vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"rel\",\"c\":%d,\"i\":%d", f + 1, g.c, g.i);
	FIFTYONE_DEGREES_COLLECTION_RELEASE(g.item.collection, &g.item);
	vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"rel\",\"ok\":1,\"why\":\"-\"", f + 1);
}
static void body(int f, void *a) {
	int t = f + 1;
	for (const char *p = ((Case*)a)->prog[f]; *p; p++) {
		vf_opbegin();
		if ((*p >= '0' && *p <= '9') || (*p >= 'a' && *p <= 'l')) {
			fiftyoneDegreesException ex, *exception = &ex; FIFTYONE_DEGREES_EXCEPTION_CLEAR
			Got g; g.c = *p >= 'j' ? 3 : *p >= 'g' ? 2 : *p >= 'a'; g.i = g.c == 3 ? *p - 'j' : g.c == 2 ? *p - 'g' : g.c ? *p - 'a' : *p == '9' ? 100 : *p - '0';
			vf_ev("\"e\":\"call\",\"t\":%d,\"op\":\"get\",\"c\":%d,\"i\":%d", t, g.c, g.i);
			void *q = fetch(&g, exception);
			bool ok = FIFTYONE_DEGREES_EXCEPTION_OKAY;
			if (ok && (q == NULL || q != g.item.data.ptr)) { vf_ev("\"e\":\"nothing\",\"t\":%d", t); continue; }
			if (ok) check(t, &g);
			vf_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"get\",\"ok\":%d,\"why\":\"%s\"", t, ok,
				ok ? "-" : ex.status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES ? "handles" : "other");
			if (ok) held[f][nheld[f]++] = g;
		}
		else if (*p == 'u') for (int i = 0; i < nheld[f]; i++) check(t, &held[f][i]);
		else if (*p == 'r' && nheld[f]) give(f, nheld[f] - 1);
		else if (*p == 'R' && nheld[f]) give(f, 0);
	}
	while (nheld[f]) give(f, 0);
}
static void finish(void *a) {
	Case *c = a;
	if (vf_stuck) { vf_ev("\"e\":\"stuck\",\"t\":0"); return; }
	/* everything is there again */
	fiftyoneDegreesException ex, *exception = &ex; FIFTYONE_DEGREES_EXCEPTION_CLEAR
	int good = 0, items = vf_livecount(NULL), handles = 0;
	for (int r = 0; r < 2; r++) for (int k = 0; k < 18; k++) {
		Got g; g.c = k < 12 ? k & 1 : 2 + (k & 1); g.i = k < 12 ? k / 2 : k / 2 - 6;
		void *q = fetch(&g, exception);
		if (q != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY) { good += right(&g); FIFTYONE_DEGREES_COLLECTION_RELEASE(g.item.collection, &g.item); }
		FIFTYONE_DEGREES_EXCEPTION_CLEAR
	}
	fiftyoneDegreesFileHandle *h[32];
	while (handles < 32 && (h[handles] = fiftyoneDegreesFileHandleGet(&eng->b.filePool, exception)) != NULL) handles++;
	for (int i = 0; i < handles; i++) fiftyoneDegreesFileHandleRelease(h[i]);
	FIFTYONE_DEGREES_COLLECTION_FREE(profiles); FIFTYONE_DEGREES_COLLECTION_FREE(components);
	engFreeParts(eng); vf_free(eng);
	vf_ev("\"e\":\"end\",\"t\":0,\"good\":%d,\"handles\":%d,\"left\":%d,\"files\":%d", good, handles, vf_livecount("set") + vf_livecount(NULL), vf_files);
}
int main(int argc, char **argv) {
	/* args: seed out bound maxExec randExec case... */
	vf_init(strtoull(argv[1], NULL, 10));
	FILE *out = fopen(argv[2], "w");
	sprintf(file, "%.250s.dat", argv[2]);
	makeFile();
	fiftyoneDegreesMalloc = vf_alloc; fiftyoneDegreesFree = vf_free;
	fiftyoneDegreesMallocAligned = vf_alloc_aligned; fiftyoneDegreesFreeAligned = vf_free;
	for (int i = 6; i < argc; i++) {
		Case c = { { 0 } };
		char *s = strdup(argv[i]), *name = argv[i];
		if (sscanf(s, "%d,%d,%d,%d,%d:", &c.pool, &c.ks, &c.kv, &c.cap, &c.conc) != 5) abort();
		s = strchr(s, ':') + 1;
		for (char *q = strtok(s, "|"); q; q = strtok(NULL, "|")) c.prog[c.n++] = q;
		VfScenario sc = { name, c.n, setup, body, finish, &c, atoi(argv[3]), atol(argv[4]), atol(argv[5]), false };
		VfStats st;
		vf_explore(&sc, out, &st);
		printf("{\"name\":\"%s\",\"executions\":%ld,\"distinct\":%ld,\"steps\":%ld,\"bound\":%d,\"complete\":%s}\n",
			name, st.executions, st.distinct, st.steps, atoi(argv[3]), st.complete ? "true" : "false");
		fflush(stdout);
	}
	fclose(out); unlink(file);
	return 0;
}
