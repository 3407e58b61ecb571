/* Histories of initialising, using, reloading and freeing a data set of the small
 * engine, in a scratch folder.
 * script = flags conc kinds { op }
 *   flags: 1 temporary file, 2 reuse of one, 4 all in memory, 8 compare the header only, 16 two folders of which the first is missing,
 *     32 an exception of their own for names and headers
 *   kinds: s n h v digits: 0 file, 1 cached, 2 partly loaded, 3 loaded and cached
 * op: w m id mask variant values heads bad | d m      data file m (0..1)
 *     F kind n                       a fault for the next operation
 *     I m want | J id mask variant values heads bad want     (want: mask of names, -1 all, 256 an unknown name)
 *     g slot | q slot | l slot
 *     R m | M id mask variant values heads bad
 *     X                              free the manager
 * bad: 0 fine, 1 magic, 2 cut short, 3 extra bytes, 4 size of a collection, 5 empty, 6 fine but another body */
#include "io.h"
#define ENG_FREAD vf_fread
#define ENG_FCLOSE vf_fclose
#include "engine.h"
#define SLOTS 6
static EngConfig config; static int flags;
static fiftyoneDegreesResourceManager manager; static bool managed;
static Eng *slot[SLOTS];
static int freed[64], nfreed;
static void engFreed(Eng *e) { if (nfreed < 64) freed[nfreed++] = e->serial; }
static char tempNames[256][200]; static int nTemps;
static void *mems[64]; static int nMems;
static fiftyoneDegreesException ex;
/* what stands for the bytes of a file, and for its length and header */
static void keysOf(const unsigned char *p, size_t n, int *key, int *head) {
	uint32_t h = 2166136261u ^ (uint32_t)n, full;
	for (size_t i = 0; i < n && i < sizeof(EngHeader); i++) h = (h ^ p[i]) * 16777619u;
	*head = (int)(h % 999999937u);
	for (size_t i = sizeof(EngHeader); i < n; i++) h = (h ^ p[i]) * 16777619u;
	full = h; *key = (int)(full % 999999937u);
}
static void fileKeys(const char *path, int *key, int *head) {
	FILE *f = fopen(path, "rb"); static unsigned char p[100000]; size_t n;
	*key = *head = -1;
	if (f == NULL) return;
	n = fread(p, 1, sizeof p, f); fclose(f);
	keysOf(p, n, key, head);
}
static int cmpName(const void *a, const void *b) { return strcmp(*(char*const*)a, *(char*const*)b); }
static int tempIndex(const char *name) {
	for (int i = 0; i < nTemps; i++) if (strcmp(tempNames[i], name) == 0) return i;
	if (nTemps == 256) seqBad("too many names");
	strcpy(tempNames[nTemps], name);
	return nTemps++;
}
static void listing(void) {
	DIR *dir = opendir("t"); struct dirent *e; char *names[256]; int n = 0; char p[600];
	while (dir && (e = readdir(dir)) != NULL && n < 256) if (e->d_name[0] != '.') names[n++] = strdup(e->d_name);
	if (dir) closedir(dir);
	qsort(names, (size_t)n, sizeof *names, cmpName);
	printf(",\"temps\":[");
	for (int i = 0; i < n; i++) {
		int key, head;
		sprintf(p, "t/%s", names[i]); fileKeys(p, &key, &head);
		printf("%s[%d,%d,%d,%d]", i ? "," : "", tempIndex(names[i]), names[i][0] == 'm' && names[i][2] == '-' ? names[i][1] - '0' : 9, key, head); free(names[i]);
	}
	printf("]");
}
static void tempOf(Eng *e) {
	const char *s = strrchr(e->b.fileName, '/');
	int k = -1;
	if (strncmp(e->b.fileName, "t/", 2) == 0) k = tempIndex(s + 1);
	printf(",\"temp\":%d,\"mem\":%d", k, e->b.isInMemory);
}
static char armed = '-';
static void done(const char *st) {
	bool f = ioDisarm();
	printf(",\"st\":\"%s\",\"fk\":\"%c\",\"fault\":%d,\"live\":%ld,\"open\":%ld,\"dirs\":%d,\"outside\":%d", st, armed, f, seqLive, ioOpen, ioDirs, ioOutside);
	Eng *a = managed ? (Eng*)((fiftyoneDegreesResourceHandle*)manager.active)->resource : NULL;
	printf(",\"active\":%d,\"use\":%d,\"freed\":[", a ? a->serial : 0, a ? fiftyoneDegreesResourceHandleGetUse(a->b.handle) : 0);
	for (int i = 0; i < nfreed; i++) printf("%s%d", i ? "," : "", freed[i]);
	printf("]"); nfreed = 0; armed = '-';
	listing(); evEnd();
}
static void about(Eng *e, bool faulty) {
	fiftyoneDegreesException *exception = &ex; FIFTYONE_DEGREES_EXCEPTION_CLEAR
	printf(",\"id\":%u,\"variant\":%u", e->header.id, e->header.variant);
	int mask = 0, other = 0;
	fiftyoneDegreesPropertiesAvailable *av = e->b.available;
	for (uint32_t i = 0; av && i < av->count; i++) {
		const char *n = FIFTYONE_DEGREES_STRING(av->items[i].name.data.ptr); int k = 0;
		while (n && k < ENG_NAMES && strcmp(n, engName[k]) != 0) k++;
		if (!n || k == ENG_NAMES || (mask >> k & 1)) other++; else mask |= 1 << k;
		fiftyoneDegreesEvidenceProperties *p = av->items[i].evidenceProperties;
		uint32_t want = av->items[i].propertyIndex % 3; if (want > e->header.heads) want = e->header.heads;
		if (p == NULL || p->count != want) other++;
	}
	fiftyoneDegreesOverridePropertyArray *ov = e->b.overridable;
	if (av != NULL && (ov ? ov->count : 0) != engOverrides(e)) other++;
	for (uint32_t i = 0; ov && i < ov->count; i++) if (ov->items[i].requiredPropertyIndex >= av->count || !engMayOverride(e, ov->items[i].requiredPropertyIndex)) other++;
	/* every header of the data is there, once */
	int heads = 0;
	for (uint32_t i = 0; i < e->header.heads && i < 6; i++) {
		int at = e->b.uniqueHeaders ? fiftyoneDegreesHeaderGetIndex(e->b.uniqueHeaders, engHead[i], strlen(engHead[i])) : -1;
		if (at >= 0) heads++;
	}
	int wantHeads = e->header.heads > 6 ? 6 : (int)e->header.heads;
	printf(",\"props\":[");
	for (int i = 0, n = 0; i < ENG_NAMES; i++) if (mask >> i & 1) printf("%s%d", n++ ? "," : "", i);
	printf("],\"other\":%d,\"heads\":%d,\"values\":%u,\"master\":%d", other, heads == wantHeads, e->header.values,
		e->b.masterFileName[0] == 'm' ? e->b.masterFileName[1] - '0' : -1);
	int good = engReadValues(e, 0, 1, exception);
	printf(",\"good\":%d,\"why\":\"%s\"", good, exName(exception));
	tempOf(e);
}
static void masterName(char *p, int m) { sprintf(p, "m%d.dat", m); }
static EngBuf tokContent(EngHeader *h, int *bad) {
	h->magic = ENG_MAGIC; h->id = (uint32_t)tokInt(); h->mask = (uint32_t)tokInt(); h->variant = (uint32_t)tokInt(); h->values = (uint32_t)tokInt(); h->heads = (uint32_t)tokInt();
	*bad = (int)tokInt();
	engSalt = *bad == 6;
	EngBuf b = engContent(h);
	switch (*bad) {
	case 1: b.p[0] ^= 1; break;
	case 2: b.n -= 1; break;
	case 3: engPut(&b, "x", 1); break;
	case 4: *(uint32_t*)(b.p + sizeof *h) += 100000; break;
	case 5: b.n = 0; break;
	}
	printf(",\"id\":%u,\"mask\":[", h->id);
	int k = 0;
	for (int i = 0; i < ENG_NAMES; i++) if (h->mask >> i & 1) printf("%s%d", k++ ? "," : "", i);
	int key, head; keysOf(b.p, b.n, &key, &head);
	printf("],\"variant\":%u,\"values\":%u,\"bad\":%d,\"key\":%d,\"head\":%d", h->variant, h->values, *bad, key, head);
	return b;
}
/* a block of the exact size, as the caller keeps it */
static void *memOf(EngBuf b) { void *m = malloc(b.n + !b.n); memcpy(m, b.p, b.n); free(b.p); if (nMems == 64) seqBad("too many blocks"); return mems[nMems++] = m; }
static fiftyoneDegreesCollectionConfig kindOf(char c) {
	fiftyoneDegreesCollectionConfig k = { 0, 0, config.concurrency };
	if (c == '1' || c == '3') k.capacity = 200;
	if (c == '2' || c == '3') k.loaded = 3;
	return k;
}
static void script(void) {
	static const char *dirs[2] = { "none", "t" };
	char *t, p[100];
	ioReset(); managed = false; memset(slot, 0, sizeof slot); nTemps = 0; nMems = 0; engSerial = 0; nfreed = 0;
	{ DIR *d = opendir("t"); struct dirent *e; while (d && (e = readdir(d)) != NULL) if (e->d_name[0] != '.') { sprintf(p, "t/%.80s", e->d_name); unlink(p); } if (d) closedir(d); }
	unlink("m0.dat"); unlink("m1.dat");
	flags = (int)tokInt();
	memset(&config, 0, sizeof config);
	config.b.useTempFile = flags & 1; config.b.reuseTempFile = (flags & 2) != 0; config.b.allInMemory = (flags & 4) != 0; config.compare = flags & 8 ? (long)sizeof(EngHeader) : -1;
	config.b.tempDirs = flags & 16 ? dirs : dirs + 1; config.b.tempDirCount = flags & 16 ? 2 : 1;
	config.own = (flags & 32) != 0;
	config.concurrency = (uint16_t)tokInt();
	t = tok();
	config.strings = kindOf(t[0]); config.names = kindOf(t[1]); config.heads = kindOf(t[2]); config.values = kindOf(t[3]);
	ev("\"e\":\"start\",\"temp\":%d,\"reuse\":%d,\"mem\":%d,\"compare\":%d,\"own\":%d,\"conc\":%d", flags & 1, (flags & 2) != 0, (flags & 4) != 0, flags & 8 ? 1 : 0, config.own, config.concurrency);
	char fk = '-'; long fn = 0;
	while ((t = tokOpt()) != NULL) {
		fiftyoneDegreesException *exception = &ex; FIFTYONE_DEGREES_EXCEPTION_CLEAR
		EngHeader h; EngBuf b; int bad, m;
		char op = *t;
		if (op == 'F') { fk = *tok(); fn = tokInt(); continue; }
		switch (op) {
		case 'w': {
			/* another file takes the name, as when a data file is updated */
			m = (int)tokInt();
			evBegin("\"e\":\"write\",\"m\":%d", m);
			b = tokContent(&h, &bad);
			FILE *f = fopen("new", "wb"); if (f == NULL) seqDie("can't write");
			fwrite(b.p, 1, b.n, f); fclose(f); free(b.p);
			masterName(p, m); if (rename("new", p) != 0) seqDie("rename");
			done("ok");
			break; }
		case 'd':
			m = (int)tokInt(); masterName(p, m); unlink(p);
			evBegin("\"e\":\"remove\",\"m\":%d", m); done("ok");
			break;
		case 'I': case 'J': {
			m = -1; b.p = NULL;
			if (op == 'I') { m = (int)tokInt(); masterName(p, m); }
			evBegin("\"e\":\"init\",\"m\":%d", m);
			void *mem = NULL; long n = 0;
			if (op == 'J') { b = tokContent(&h, &bad); n = (long)b.n; mem = memOf(b); }
			int want = (int)tokInt(), k = 0;
			const char *array[ENG_NAMES + 2];
			fiftyoneDegreesPropertiesRequired req = fiftyoneDegreesPropertiesDefault;
			printf(",\"all\":%d,\"want\":[", want < 0);
			if (want >= 0) {
				for (int i = 0; i < ENG_NAMES; i++) if (want >> i & 1) { printf("%s%d", k ? "," : "", i); array[k++] = engName[i]; }
				if (want & 256) array[k++] = "unknown";
				req.array = array; req.count = k;
			}
			printf("]");
			if (managed) { printf(",\"skip\":1"); fk = '-'; }
			else printf(",\"skip\":0");
			fiftyoneDegreesStatusCode st = FIFTYONE_DEGREES_STATUS_SUCCESS;
			if (!managed) {
				armed = fk; ioArm(fk, fn);
				memset(&manager, 0, sizeof manager);
				st = engManager(&manager, &config, &req, op == 'I' ? p : NULL, mem, n, exception);
				managed = st == FIFTYONE_DEGREES_STATUS_SUCCESS;
			}
			printf(",\"serial\":%d", managed ? engSerial : 0);
			if (managed) tempOf((Eng*)((fiftyoneDegreesResourceHandle*)manager.active)->resource); else printf(",\"temp\":-1,\"mem\":0");
			done(stName(st));
			break; }
		case 'R': case 'M': {
			m = -1; void *mem = NULL; long n = 0;
			if (op == 'R') { m = (int)tokInt(); masterName(p, m); }
			evBegin("\"e\":\"reload\",\"m\":%d", m);
			if (op == 'M') { b = tokContent(&h, &bad); n = (long)b.n; mem = memOf(b); }
			fiftyoneDegreesStatusCode st = FIFTYONE_DEGREES_STATUS_SUCCESS;
			if (managed) {
				armed = fk; ioArm(fk, fn);
				st = op == 'R' ? fiftyoneDegreesDataSetReloadManagerFromFile(&manager, p, sizeof(Eng), engInitFile, exception)
					: fiftyoneDegreesDataSetReloadManagerFromMemory(&manager, mem, n, sizeof(Eng), engInitMemory, exception);
				fk = '-';
			}
			Eng *a = managed ? (Eng*)((fiftyoneDegreesResourceHandle*)manager.active)->resource : NULL;
			printf(",\"skip\":%d,\"serial\":%d", !managed, a ? a->serial : 0);
			if (a) tempOf(a); else printf(",\"temp\":-1,\"mem\":0");
			done(stName(st));
			break; }
		case 'g': {
			int s = (int)tokInt();
			if (!managed || slot[s]) break;
			slot[s] = (Eng*)fiftyoneDegreesDataSetGet(&manager);
			evBegin("\"e\":\"get\",\"slot\":%d,\"serial\":%d", s + 1, slot[s]->serial); done("ok");
			break; }
		case 'q': {
			int s = (int)tokInt();
			if (!slot[s]) break;
			evBegin("\"e\":\"use\",\"slot\":%d", s + 1);
			armed = fk; ioArm(fk, fn); fk = '-';
			about(slot[s], false);
			done("ok");
			break; }
		case 'l': {
			int s = (int)tokInt();
			if (!slot[s]) break;
			evBegin("\"e\":\"release\",\"slot\":%d", s + 1);
			armed = fk; ioArm(fk, fn); fk = '-';
			fiftyoneDegreesDataSetRelease(&slot[s]->b); slot[s] = NULL;
			done("ok");
			break; }
		case 'X':
			if (!managed) break;
			evBegin("\"e\":\"mfree\"");
			armed = fk; ioArm(fk, fn); fk = '-';
			{ const volatile void *before = manager.active;
			fiftyoneDegreesResourceManagerFree(&manager);
			/* it can't be freed when there is no memory */
			managed = manager.active == before; }
			printf(",\"done\":%d", !managed);
			done("ok");
			break;
		default: seqDie("op");
		}
		fk = '-';
	}
	for (int i = 0; i < SLOTS; i++) if (slot[i]) { evBegin("\"e\":\"release\",\"slot\":%d", i + 1); fiftyoneDegreesDataSetRelease(&slot[i]->b); slot[i] = NULL; done("ok"); }
	if (managed) { evBegin("\"e\":\"mfree\""); fiftyoneDegreesResourceManagerFree(&manager); managed = false; printf(",\"done\":1"); done("ok"); }
	evBegin("\"e\":\"end\""); done("ok");
	for (int i = 0; i < nMems; i++) free(mems[i]);
}
int main(int argc, char **argv) {
	seqUse();
	ioScratch(argv[1]);
	if (chdir(ioDir) != 0) seqDie("chdir");
	mkdir("t", 0700);
	return seqLoop(script, 10);
}
