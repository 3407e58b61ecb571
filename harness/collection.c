/* Runs a history on a collection of one of the configurations.
 * script = kind n es isCount loaded cap conc pool src avail fault n { op }...
 *   kind f fixed width, v strings; src m memory, f file; avail: bytes of the
 *   collection which are there (-1 all); fault: letter and number for the creation
 * op: g slot key fault n | r slot | i key fault n | S slot lower upper target cmpfail fault n
 *     | C | H n | h | x
 * argument: the scratch folder */
#include "io.h"
#define SLOTS 12
typedef fiftyoneDegreesCollectionItem Item;
static int kind, n, es, isCount, loaded, cap, conc, pool, src, avail;
static unsigned char *content; static int size; static int *offs, *lens;
static Item slots[SLOTS]; static int used[SLOTS], keyOf[SLOTS];
static fiftyoneDegreesFilePool fp; static bool haveFp;
static fiftyoneDegreesCollection *c;
static fiftyoneDegreesFileHandle *holding[64]; static int nholding;

static void make(void) {
	offs = calloc((size_t)n + 1, sizeof(int)); lens = calloc((size_t)n + 1, sizeof(int));
	size = 0;
	for (int k = 0; k < n; k++) {
		offs[k] = size;
		lens[k] = kind == 'f' ? es : 2 + 1 + (k * 5 + es) % (es < 100 ? 9 : es);
		size += lens[k];
	}
	content = calloc((size_t)size + 1, 1);
	for (int k = 0; k < n; k++) {
		unsigned char *p = content + offs[k];
		if (kind == 'v') {
			*(int16_t*)p = (int16_t)(lens[k] - 2);
			for (int i = 2; i < lens[k]; i++) p[i] = i == lens[k] - 1 ? 0 : (unsigned char)('a' + (k * 7 + i) % 26);
		} else if (es == 4) *(int32_t*)p = 10 * k + 5;
		else for (int i = 0; i < es; i++) p[i] = (unsigned char)((k * 7 + i * 13 + 1) % 251);
	}
}
static int indexOf(int key) {
	if (kind == 'f') return key >= 0 && key < n ? key : -1;
	for (int k = 0; k < n; k++) if (offs[k] == key) return k;
	return -1;
}
static int handles(void) {
	fiftyoneDegreesFileHandle *h[64]; int k = 0;
	if (!haveFp) return 0;
	for (;;) {
		FIFTYONE_DEGREES_EXCEPTION_CREATE
		h[k] = fiftyoneDegreesFileHandleGet(&fp, exception);
		if (h[k] == NULL || k >= 60) break;
		k++;
	}
	for (int i = 0; i < k; i++) fiftyoneDegreesFileHandleRelease(h[i]);
	return k;
}
/* bytes of an item, as many as its own header says */
static void bytes(void *p, int key) {
	int k = indexOf(key);
	if (p == NULL || k < 0) { printf(",\"b\":[]"); return; }
	int len = kind == 'f' ? es : (int)sizeof(int16_t) + *(int16_t*)p;
	if (len < 0 || len > 40000) len = 0;
	evSeq("b", p, len);
}
/* everything which is held is as it was */
static int heldBad(void) {
	int bad = 0;
	for (int s = 0; s < SLOTS; s++) if (used[s]) {
		int k = indexOf(keyOf[s]);
		if (slots[s].data.ptr == NULL || memcmp(slots[s].data.ptr, content + offs[k], (size_t)lens[k]) != 0) bad++;
	}
	return bad;
}
typedef struct { int target, failAt, calls; } Sought;
static int comparer(void *state, Item *item, long index, fiftyoneDegreesException *exception) {
	Sought *s = state;
	s->calls++;
	if (s->failAt > 0 && s->calls == s->failAt) { FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_CORRUPT_DATA) return 0; }
	int v = *(int32_t*)item->data.ptr;
	if (v != 10 * index + 5) return 0; /* the wrong item: shows as a wrong answer */
	return v < s->target ? -1 : v > s->target ? 1 : 0;
}
static void tail(const char *st, int fired) {
	printf(",\"st\":\"%s\",\"fired\":%d,\"bad\":%d,\"handles\":%d", st, fired, heldBad(), handles());
	evEnd();
}
static char path[5000];
static void script(void) {
	ioReset(); nholding = 0; haveFp = false; memset(used, 0, sizeof used);
	for (int i = 0; i < SLOTS; i++) { fiftyoneDegreesDataReset(&slots[i].data); slots[i].handle = NULL; slots[i].collection = NULL; }
	kind = *tok(); n = (int)tokInt(); es = (int)tokInt(); isCount = (int)tokInt(); loaded = (int)tokInt(); cap = (int)tokInt();
	conc = (int)tokInt(); pool = (int)tokInt(); src = *tok(); avail = (int)tokInt();
	char fk = *tok(); long fn = tokInt();
	make();
	if (avail < 0 || avail > size) avail = size;
	uint32_t head = kind == 'f' && isCount ? (uint32_t)n : (uint32_t)size;
	int junk = 7;
	unsigned char *mem = NULL; FILE *file = NULL; int fired = 0, pos = 0;
	fiftyoneDegreesMemoryReader reader;
	c = NULL;
	FIFTYONE_DEGREES_EXCEPTION_CREATE
	if (src == 'm') {
		int total = junk + 4 + avail + (avail == size ? junk : 0);
		mem = malloc((size_t)total);
		memset(mem, 0x5A, (size_t)total);
		memcpy(mem + junk, &head, 4); memcpy(mem + junk + 4, content, (size_t)avail);
		reader.startByte = mem; reader.current = mem + junk; reader.lastByte = mem + total; reader.length = total;
		fiftyoneDegreesCollectionHeader h = fiftyoneDegreesCollectionHeaderFromMemory(&reader, kind == 'f' ? (uint32_t)es : 0, kind == 'f' && isCount);
		ioArm(fk, fn);
		c = fiftyoneDegreesCollectionCreateFromMemory(&reader, h);
		fired = ioDisarm();
		pos = (int)(reader.current - mem) - (junk + 4 + size);
	} else {
		FILE *w = fopen(path, "wb");
		if (w == NULL) seqDie("can't write");
		for (int i = 0; i < junk; i++) fputc(0x5A, w);
		fwrite(&head, 4, 1, w); fwrite(content, 1, (size_t)avail, w);
		if (avail == size) for (int i = 0; i < junk; i++) fputc(0x5A, w);
		fclose(w);
		ioArm('-', 0);
		haveFp = fiftyoneDegreesFilePoolInit(&fp, path, (uint16_t)pool, exception) == FIFTYONE_DEGREES_STATUS_SUCCESS;
		if (!haveFp) seqBad("pool");
		if (fiftyoneDegreesFileOpen(path, &file) != FIFTYONE_DEGREES_STATUS_SUCCESS) seqBad("open");
		fseek(file, junk, SEEK_SET);
		fiftyoneDegreesCollectionHeader h = fiftyoneDegreesCollectionHeaderFromFile(file, kind == 'f' ? (uint32_t)es : 0, kind == 'f' && isCount);
		fiftyoneDegreesCollectionConfig config = { (uint32_t)loaded, (uint32_t)cap, (uint16_t)conc };
		ioArm(fk, fn);
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
		c = fiftyoneDegreesCollectionCreateFromFile(file, &fp, &config, h, NULL);
#else
		c = fiftyoneDegreesCollectionCreateFromFile(file, &fp, &config, h, kind == 'f' ? fiftyoneDegreesCollectionReadFileFixed : fiftyoneDegreesStringRead);
#endif
		fired = ioDisarm();
		pos = (int)ftell(file) - (junk + 4 + size);
		vf_fclose(file);
	}
	evBegin("\"e\":\"create\",\"kind\":\"%c\",\"src\":\"%s\",\"n\":%d,\"size\":%d,\"loaded\":%d,\"cap\":%d,\"conc\":%d,\"pool\":%d,\"avail\":%d,\"fault\":\"%c\"",
		kind, src == 'm' || fiftyoneDegreesCollectionGetIsMemoryOnly() ? (src == 'm' ? "mem" : "only") : "file", n, size, loaded, cap, conc, src == 'm' ? 0 : pool, avail, fk);
	printf(",\"offs\":[");
	for (int k = 0; k < n; k++) printf("%s%d", k ? "," : "", kind == 'f' ? k : offs[k]);
	printf("],\"items\":[");
	for (int k = 0; k < n; k++) {
		printf("%s[", k ? "," : "");
		for (int i = 0; i < lens[k]; i++) printf("%s%d", i ? "," : "", content[offs[k] + i]);
		printf("]");
	}
	printf("],\"ok\":%d,\"pos\":%d,\"count\":%d", c != NULL, c != NULL ? pos : 0, c != NULL && kind == 'f' ? (int)fiftyoneDegreesCollectionGetCount(c) : 0);
	tail("ok", fired);
	char *t;
	while (c != NULL && (t = tokOpt()) != NULL) {
		FIFTYONE_DEGREES_EXCEPTION_CLEAR
		switch (*t) {
		case 'g': {
			int s = (int)tokInt(), key = (int)tokInt(); char k = *tok(); long m = tokInt();
			if (used[s]) break;
			ioArm(k, m);
			void *p = c->get(c, (uint32_t)key, &slots[s], exception);
			int f = ioDisarm();
			/* the pointer which is returned is that of the item */
			int same = p == NULL || p == slots[s].data.ptr;
			if (p != NULL) { if (indexOf(key) >= 0) { used[s] = 1; keyOf[s] = key; } }
			evBegin("\"e\":\"get\",\"s\":%d,\"key\":%d,\"ok\":%d,\"same\":%d,\"fault\":\"%c\"", s, key, p != NULL, same, k);
			bytes(p, key);
			tail(exName(exception), f);
			break; }
		case 'r': {
			int s = (int)tokInt();
			if (!used[s]) break;
			int k = indexOf(keyOf[s]);
			int good = slots[s].data.ptr != NULL && memcmp(slots[s].data.ptr, content + offs[k], (size_t)lens[k]) == 0;
			used[s] = 0;
			FIFTYONE_DEGREES_COLLECTION_RELEASE(c, &slots[s]);
			evBegin("\"e\":\"rel\",\"s\":%d,\"key\":%d,\"good\":%d", s, keyOf[s], good);
			tail("ok", 0);
			break; }
		case 'i': {
			int key = (int)tokInt(); char k = *tok(); long m = tokInt();
			ioArm(k, m);
			int32_t v = fiftyoneDegreesCollectionGetInteger32(c, (uint32_t)key, exception);
			int f = ioDisarm();
			evBegin("\"e\":\"int\",\"key\":%d,\"v\":%d,\"fault\":\"%c\"", key, v, k);
			tail(exName(exception), f);
			break; }
		case 'S': {
			int s = (int)tokInt(), lower = (int)tokInt(), upper = (int)tokInt();
			Sought q; q.target = (int)tokInt(); q.failAt = (int)tokInt(); q.calls = 0;
			char k = *tok(); long m = tokInt();
			if (used[s]) break;
			ioArm(k, m);
			long r = fiftyoneDegreesCollectionBinarySearch(c, &slots[s], (uint32_t)lower, (uint32_t)upper, &q, comparer, exception);
			int f = ioDisarm();
			int found = FIFTYONE_DEGREES_EXCEPTION_OKAY && r >= 0;
			evBegin("\"e\":\"search\",\"s\":%d,\"lo\":%d,\"hi\":%d,\"target\":%d,\"cmp\":%d,\"res\":%ld,\"calls\":%d,\"fault\":\"%c\"", s, lower, upper, q.target,
				q.failAt > 0 && q.calls >= q.failAt, r, q.calls, k);
			bytes(found && r < n ? slots[s].data.ptr : NULL, (int)r);
			if (found && r < n) { used[s] = 1; keyOf[s] = (int)r; }
			tail(exName(exception), f);
			break; }
		case 'H': {
			int m = (int)tokInt(), got = 0;
			for (int i = 0; haveFp && i < m && nholding < 60; i++) {
				fiftyoneDegreesFileHandle *h = fiftyoneDegreesFileHandleGet(&fp, exception);
				if (h == NULL) break;
				holding[nholding++] = h; got++;
			}
			evBegin("\"e\":\"hold\",\"n\":%d,\"got\":%d", m, got);
			tail("ok", 0);
			break; }
		case 'h':
			for (int i = 0; i < nholding; i++) fiftyoneDegreesFileHandleRelease(holding[i]);
			nholding = 0;
			evBegin("\"e\":\"unhold\"");
			tail("ok", 0);
			break;
		default: seqDie("op");
		}
	}
	for (int i = 0; i < nholding; i++) fiftyoneDegreesFileHandleRelease(holding[i]);
	if (c != NULL) {
		for (int s = 0; s < SLOTS; s++) if (used[s]) { used[s] = 0; FIFTYONE_DEGREES_COLLECTION_RELEASE(c, &slots[s]); }
		FIFTYONE_DEGREES_COLLECTION_FREE(c);
	}
	if (haveFp) fiftyoneDegreesFilePoolRelease(&fp);
	ev("\"e\":\"end\",\"live\":%ld,\"open\":%ld", seqLive, ioOpen);
	free(mem); free(content); free(offs); free(lens);
	if (src != 'm') remove(path);
}
int main(int argc, char **argv) {
	seqUse();
	ioScratch(argv[1]);
	snprintf(path, sizeof path, "%s/data.bin", ioDir);
	int r = seqLoop(script, 10);
	rmdir(ioDir);
	return r;
}
