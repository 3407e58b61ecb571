/* Creates collections from any bytes whatever and gets items from them.
 * script = src at es isCount width loaded cap conc xBYTES { op }
 *   src m memory, f file; the header is at offset "at" of the bytes
 *   width: how items are read: f fixed, s strings, p profiles, c components
 * op: g key (32 bits) | A n  advance a memory reader over the bytes
 * argument: the scratch folder */
#include "io.h"
#include "pool.h"
typedef fiftyoneDegreesCollectionItem Item;
static char path[5000];
static void wide(const char *name, uint32_t v) { printf(",\"%s\":[%u,%u]", name, v >> 16, v & 65535); }
static void script(void) {
	ioReset();
	char src = *tok(); int at = (int)tokInt(), es = (int)tokInt(), isCount = (int)tokInt(); char width = *tok();
	uint32_t loaded = (uint32_t)tokInt(), cap = (uint32_t)tokInt(); uint16_t conc = (uint16_t)tokInt();
	long n; unsigned char *b = tokBytes(&n);
	FIFTYONE_DEGREES_EXCEPTION_CREATE
	fiftyoneDegreesCollection *c = NULL;
	fiftyoneDegreesMemoryReader reader, plain;
	fiftyoneDegreesFilePool fp; FILE *file = NULL;
	long pos = -1, before = -1;
	if (width != 'f') es = 0;
	plain.startByte = b; plain.current = b; plain.lastByte = b + n; plain.length = n;
	if (src == 'm') {
		reader = plain; reader.current = b + at;
		fiftyoneDegreesCollectionHeader h = fiftyoneDegreesCollectionHeaderFromMemory(&reader, (uint32_t)es, isCount);
		before = reader.current - b;
		c = fiftyoneDegreesCollectionCreateFromMemory(&reader, h);
		pos = reader.current - b;
	} else {
		FILE *w = fopen(path, "wb");
		if (w == NULL) seqDie("can't write");
		fwrite(b, 1, (size_t)n, w); fclose(w);
		if (fiftyoneDegreesFilePoolInit(&fp, path, 2, exception) != FIFTYONE_DEGREES_STATUS_SUCCESS) seqBad("pool");
		if (fiftyoneDegreesFileOpen(path, &file) != FIFTYONE_DEGREES_STATUS_SUCCESS) seqBad("open");
		fseek(file, at, SEEK_SET);
		fiftyoneDegreesCollectionHeader h = fiftyoneDegreesCollectionHeaderFromFile(file, (uint32_t)es, isCount);
		before = ftell(file);
		fiftyoneDegreesCollectionConfig config = { loaded, cap, conc };
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
		c = fiftyoneDegreesCollectionCreateFromFile(file, &fp, &config, h, NULL);
#else
		c = fiftyoneDegreesCollectionCreateFromFile(file, &fp, &config, h, width == 'f' ? fiftyoneDegreesCollectionReadFileFixed
			: width == 's' ? fiftyoneDegreesStringRead : width == 'p' ? fiftyoneDegreesProfileReadFromFile : fiftyoneDegreesComponentReadFromFile);
#endif
		pos = ftell(file);
		vf_fclose(file);
	}
	evBegin("\"e\":\"create\",\"src\":\"%s\",\"at\":%d,\"es\":%d,\"isCount\":%d,\"width\":\"%c\",\"loaded\":%u,\"cap\":%u,\"conc\":%u,\"ok\":%d,\"before\":%ld,\"pos\":%ld",
		src == 'm' ? "mem" : fiftyoneDegreesCollectionGetIsMemoryOnly() ? "only" : "file", at, es, isCount, width, loaded, cap, conc, c != NULL, before, pos);
	evSeq("b", b, n);
	wide("count", c != NULL ? fiftyoneDegreesCollectionGetCount(c) : 0);
	evEnd();
	char *t;
	while ((t = tokOpt()) != NULL) {
		if (*t == 'A') {
			uint64_t k = strtoull(tok(), NULL, 10);
			int r = fiftyoneDegreesMemoryAdvance(&plain, (size_t)k);
			ev("\"e\":\"advance\",\"n\":%ld,\"ok\":%d,\"pos\":%ld", k > 1000000 ? 1000000L : (long)k, r, plain.current - b > 100000 ? -1L : (long)(plain.current - b));
			continue;
		}
		uint32_t key = (uint32_t)strtoll(tok(), NULL, 10);
		if (c == NULL) continue;
		Item item;
		fiftyoneDegreesDataReset(&item.data); item.handle = NULL; item.collection = NULL;
		FIFTYONE_DEGREES_EXCEPTION_CLEAR
		unsigned char *p = c->get(c, key, &item, exception);
		bool ok = p != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY;
		/* as many bytes as the item is known to have. An item in memory of the
		 * caller has no more than what is there */
		bool own = item.handle != NULL;
		long m = !ok ? 0 : own ? (long)item.data.used : width == 'f' && fiftyoneDegreesCollectionGetCount(c) ? es : 1;
		evBegin("\"e\":\"get\",\"ok\":%d,\"null\":%d,\"own\":%d,\"st\":\"%s\"", ok, p == NULL, own, exName(exception));
		wide("key", key);
		evSeq("v", p, ok ? m : 0);
		/* the end of the item according to itself */
		long need = -1;
		if (ok && own && width == 's' && m >= 2) need = 2 + *(int16_t*)p;
		if (ok && own && width == 'p' && m >= (long)sizeof(fiftyoneDegreesProfile)) {
			uint64_t q = sizeof(fiftyoneDegreesProfile) + (uint64_t)((fiftyoneDegreesProfile*)p)->valueCount * 4; need = q > 100000 ? 100000 : (long)q; }
		if (ok && own && width == 'c' && m >= (long)(sizeof(fiftyoneDegreesComponent) - sizeof(fiftyoneDegreesComponentKeyValuePair)))
			need = (long)(sizeof(fiftyoneDegreesComponent) + ((long)((fiftyoneDegreesComponent*)p)->keyValuesCount - 1) * (long)sizeof(fiftyoneDegreesComponentKeyValuePair));
		printf(",\"need\":%ld", need);
		evEnd();
		/* the bytes are really there */
		volatile unsigned char x = 0;
		for (long i = 0; i < m; i++) x ^= p[i];
		if (ok) FIFTYONE_DEGREES_COLLECTION_RELEASE(c, &item);
	}
	if (c != NULL) FIFTYONE_DEGREES_COLLECTION_FREE(c);
	if (src != 'm') { fiftyoneDegreesFilePoolRelease(&fp); remove(path); }
	ev("\"e\":\"end\",\"live\":%ld,\"open\":%ld", seqLive, ioOpen);
	free(b);
}
int main(int argc, char **argv) {
	seqUse();
	ioScratch(argv[1]);
	snprintf(path, sizeof path, "%s/data.bin", ioDir);
	int r = seqLoop(script, 10);
	rmdir(ioDir);
	return r;
}
