/* A small engine built on the library the way the engines of the product are:
 * a data set with strings, properties, headers and values, which is initialised
 * from a file or from memory and is reloaded by the data set functions.
 *
 * file = header, strings, property names, header names, values. The collections
 * each follow the count or size they start with. Everything in a file is a
 * function of its header. */
#ifndef VF_ENGINE_H
#define VF_ENGINE_H
#ifndef ENG_FREAD
#define ENG_FREAD fread
#define ENG_FCLOSE fclose
#endif
typedef struct { uint32_t magic, id, mask, variant, values, heads; } EngHeader;
typedef struct { int32_t number; uint32_t text; } EngValue;
typedef struct {
	fiftyoneDegreesConfigBase b;
	fiftyoneDegreesCollectionConfig strings, names, heads, values;
	uint16_t concurrency;
	long compare; /* bytes of a temporary file to compare */
	bool own; /* an exception of its own for each call while names and headers are read */
} EngConfig;
typedef struct {
	fiftyoneDegreesDataSetBase b;
	EngConfig config;
	EngHeader header;
	fiftyoneDegreesCollection *strings, *names, *heads, *values;
	int serial;
} Eng;
#define ENG_MAGIC 0x59544656u
#define ENG_NAMES 8
static const char *engName[ENG_NAMES] = { "Alpha", "beta", "Gamma.Two", "delta", "eps", "SetHeaderAccept-CH", "zeta", "Eta" };
static const char *engHead[6] = { "User-Agent", "Sec-CH-UA", "accept", "A\x1F" "B", "X-Op", "A" };
#ifndef ENG_SERIAL
static int engSerial;
#define ENG_SERIAL(e) ++engSerial
#endif
#ifndef ENG_DONE
#define ENG_DONE(e)
#endif

/* ---- the content of a data file */
typedef struct { unsigned char *p; size_t n, room; } EngBuf;
static void engPut(EngBuf *b, const void *p, size_t n) {
	if (b->n + n > b->room) { b->room = (b->n + n) * 2 + 256; b->p = realloc(b->p, b->room); }
	memcpy(b->p + b->n, p, n); b->n += n;
}
static uint32_t engText(EngBuf *s, const char *t) {
	uint32_t at = (uint32_t)s->n; int16_t n = (int16_t)(strlen(t) + 1);
	engPut(s, &n, 2); engPut(s, t, (size_t)n);
	return at;
}
static void engValueText(char *t, const EngHeader *h, uint32_t i) { sprintf(t, "v%u.%u.%u%.*s", h->id, h->variant, i * i + i % 3, (int)(i * 5 % 7), "------"); }
static int32_t engNumber(const EngHeader *h, uint32_t i) { return (int32_t)(h->id * 100000 + h->variant * 1000 + i); }
/* a difference which isn't in the header */
static int engSalt;
static EngBuf engContent(const EngHeader *h) {
	EngBuf s = { 0 }, names = { 0 }, heads = { 0 }, values = { 0 }, all = { 0 };
	char t[64]; uint32_t at, n;
	for (int i = 0; i < ENG_NAMES; i++) if (h->mask >> i & 1) { at = engText(&s, engName[i]); engPut(&names, &at, 4); }
	for (uint32_t i = 0; i < h->heads; i++) { at = engText(&s, engHead[i % 6]); engPut(&heads, &at, 4); }
	engText(&s, engSalt ? "salt" : "salz");
	for (uint32_t i = 0; i < h->values; i++) { EngValue v; engValueText(t, h, i); v.number = engNumber(h, i); v.text = engText(&s, t); engPut(&values, &v, 8); }
	engPut(&all, h, sizeof *h);
	n = (uint32_t)s.n; engPut(&all, &n, 4); engPut(&all, s.p, s.n);
	n = (uint32_t)names.n; engPut(&all, &n, 4); if (names.n) engPut(&all, names.p, names.n);
	n = (uint32_t)heads.n; engPut(&all, &n, 4); if (heads.n) engPut(&all, heads.p, heads.n);
	n = (uint32_t)values.n; engPut(&all, &n, 4); if (values.n) engPut(&all, values.p, values.n);
	free(s.p); free(names.p); free(heads.p); free(values.p);
	return all;
}
/* ---- the engine */
static void engFreeParts(Eng *e) {
	/* the properties hold items of the strings */
	fiftyoneDegreesDataSetFree(&e->b);
	FIFTYONE_DEGREES_COLLECTION_FREE(e->strings); FIFTYONE_DEGREES_COLLECTION_FREE(e->names);
	FIFTYONE_DEGREES_COLLECTION_FREE(e->heads); FIFTYONE_DEGREES_COLLECTION_FREE(e->values);
	e->strings = e->names = e->heads = e->values = NULL;
}
static void engFreed(Eng *e);
static void engFree(void *p) {
	if (p == NULL) return;
	engFreed(p);
	engFreeParts(p);
	fiftyoneDegreesFree(p);
}
static fiftyoneDegreesString *engTextOf(Eng *e, fiftyoneDegreesCollection *c, uint32_t i, fiftyoneDegreesCollectionItem *item, fiftyoneDegreesException *exception) {
	fiftyoneDegreesCollectionItem at;
	fiftyoneDegreesDataReset(&at.data);
	uint32_t *p = c->get(c, i, &at, exception);
	if (p == NULL || FIFTYONE_DEGREES_EXCEPTION_FAILED) return NULL;
	fiftyoneDegreesString *s = fiftyoneDegreesStringGet(e->strings, *p, item, exception);
	FIFTYONE_DEGREES_COLLECTION_RELEASE(c, &at);
	return FIFTYONE_DEGREES_EXCEPTION_OKAY ? s : NULL;
}
/* an exception of its own makes each call independent of the failures before it */
typedef struct { Eng *e; fiftyoneDegreesException *exception; } EngState;
#define ENG_EXCEPTION fiftyoneDegreesException own, *exception = &own; if (s->e->config.own) { FIFTYONE_DEGREES_EXCEPTION_CLEAR } else exception = s->exception;
static fiftyoneDegreesString *engGetName(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	EngState *s = state; ENG_EXCEPTION
	fiftyoneDegreesDataReset(&item->data);
	if (FIFTYONE_DEGREES_EXCEPTION_FAILED || i >= fiftyoneDegreesCollectionGetCount(s->e->names)) return NULL;
	return engTextOf(s->e, s->e->names, i, item, exception);
}
static uint32_t engGetEvidence(void *state, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *ev) {
	EngState *s = state; uint32_t n = p->propertyIndex % 3;
	if (n > s->e->header.heads) n = s->e->header.heads;
	if (ev != NULL) {
		ENG_EXCEPTION
		for (uint32_t i = 0; i < n; i++) {
			fiftyoneDegreesCollectionItem item; fiftyoneDegreesDataReset(&item.data);
			if (FIFTYONE_DEGREES_EXCEPTION_FAILED || engTextOf(s->e, s->e->heads, i, &item, exception) == NULL) return i;
			FIFTYONE_DEGREES_COLLECTION_RELEASE(s->e->strings, &item);
			ev->items[i] = i;
		}
	}
	return n;
}
static long engGetHead(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	EngState *s = state; ENG_EXCEPTION
	if (FIFTYONE_DEGREES_EXCEPTION_FAILED || i >= fiftyoneDegreesCollectionGetCount(s->e->heads)) return -1;
	return engTextOf(s->e, s->e->heads, i, item, exception) ? (long)i + 10 : -1;
}
static fiftyoneDegreesStatusCode engCheck(Eng *e) {
	if (e->header.magic != ENG_MAGIC) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	if (e->header.id > 1000000) return FIFTYONE_DEGREES_STATUS_INCORRECT_VERSION;
	return FIFTYONE_DEGREES_STATUS_SUCCESS;
}
static fiftyoneDegreesStatusCode engFromMemory(Eng *e, fiftyoneDegreesMemoryReader *r) {
	if (r->length < (long)sizeof e->header) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	memcpy(&e->header, r->current, sizeof e->header);
	if (fiftyoneDegreesMemoryAdvance(r, sizeof e->header) == false) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	fiftyoneDegreesStatusCode st = engCheck(e);
	if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) return st;
	e->b.isInMemory = true;
	struct { fiftyoneDegreesCollection **c; uint32_t es; } part[4] = { { &e->strings, 0 }, { &e->names, 4 }, { &e->heads, 4 }, { &e->values, 8 } };
	for (int i = 0; i < 4; i++) {
		fiftyoneDegreesCollectionHeader h = fiftyoneDegreesCollectionHeaderFromMemory(r, part[i].es, false);
		*part[i].c = fiftyoneDegreesCollectionCreateFromMemory(r, h);
		if (*part[i].c == NULL) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	}
	return r->current == r->lastByte ? FIFTYONE_DEGREES_STATUS_SUCCESS : FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
}
static fiftyoneDegreesStatusCode engWithFile(Eng *e, fiftyoneDegreesException *exception) {
	fiftyoneDegreesStatusCode st = fiftyoneDegreesFilePoolInit(&e->b.filePool, e->b.fileName, e->config.concurrency, exception);
	if (st != FIFTYONE_DEGREES_STATUS_SUCCESS || FIFTYONE_DEGREES_EXCEPTION_FAILED) return st == FIFTYONE_DEGREES_STATUS_SUCCESS ? exception->status : st;
	fiftyoneDegreesFileHandle *handle = fiftyoneDegreesFileHandleGet(&e->b.filePool, exception);
	if (handle == NULL || FIFTYONE_DEGREES_EXCEPTION_FAILED) return exception->status;
	FILE *f = handle->file;
	st = FIFTYONE_DEGREES_STATUS_SUCCESS;
	if (fseek(f, 0, SEEK_SET) != 0 || ENG_FREAD(&e->header, sizeof e->header, 1, f) != 1) st = FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) st = engCheck(e);
	struct { fiftyoneDegreesCollection **c; uint32_t es; fiftyoneDegreesCollectionConfig *k; } part[4] = {
		{ &e->strings, 0, &e->config.strings }, { &e->names, 4, &e->config.names }, { &e->heads, 4, &e->config.heads }, { &e->values, 8, &e->config.values } };
	for (int i = 0; i < 4 && st == FIFTYONE_DEGREES_STATUS_SUCCESS; i++) {
		fiftyoneDegreesCollectionHeader h = fiftyoneDegreesCollectionHeaderFromFile(f, part[i].es, false);
		*part[i].c = fiftyoneDegreesCollectionCreateFromFile(f, &e->b.filePool, part[i].k, h,
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
			NULL);
#else
			part[i].es ? fiftyoneDegreesCollectionReadFileFixed : fiftyoneDegreesStringRead);
#endif
		if (*part[i].c == NULL) st = FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	}
	fiftyoneDegreesFileHandleRelease(handle);
	return st;
}
static void engReset(Eng *e, const EngConfig *config) {
	fiftyoneDegreesDataSetReset(&e->b);
	e->strings = e->names = e->heads = e->values = NULL;
	memset(&e->header, 0, sizeof e->header);
	e->config = *config;
	e->b.config = &e->config;
	e->serial = 0;
}
static bool engMayOverride(void *state, uint32_t i) { return ((Eng*)state)->b.available->items[i].propertyIndex % 2 == 0; }
static uint32_t engOverrides(Eng *e) { uint32_t n = 0; for (uint32_t i = 0; i < e->b.available->count; i++) n += engMayOverride(e, i); return n; }
/* what is common to every way of initialising. A failure frees everything but the structure */
static fiftyoneDegreesStatusCode engComplete(Eng *e, fiftyoneDegreesStatusCode st, fiftyoneDegreesPropertiesRequired *properties, fiftyoneDegreesException *exception) {
	EngState s = { e, exception };
	if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) st = fiftyoneDegreesDataSetInitProperties(&e->b, properties, &s, engGetName, engGetEvidence);
	if (st == FIFTYONE_DEGREES_STATUS_SUCCESS && FIFTYONE_DEGREES_EXCEPTION_OKAY) st = fiftyoneDegreesDataSetInitHeaders(&e->b, &s, engGetHead);
	if (st == FIFTYONE_DEGREES_STATUS_SUCCESS && FIFTYONE_DEGREES_EXCEPTION_FAILED) st = exception->status;
	if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) {
		e->b.overridable = fiftyoneDegreesOverridePropertiesCreate(e->b.available, false, e, engMayOverride);
		if (e->b.overridable == NULL && engOverrides(e) > 0) st = FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY;
	}
	if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) engFreeParts(e);
	else { e->serial = ENG_SERIAL(e); ENG_DONE(e); }
	return st;
}
static fiftyoneDegreesStatusCode engInitFile(void *dataSet, const void *config, fiftyoneDegreesPropertiesRequired *properties, const char *fileName, fiftyoneDegreesException *exception) {
	Eng *e = dataSet;
	engReset(e, config);
	fiftyoneDegreesStatusCode st = fiftyoneDegreesDataSetInitFromFile(&e->b, fileName, e->config.compare);
	if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) {
		if (e->config.b.allInMemory) {
			fiftyoneDegreesMemoryReader r;
			st = fiftyoneDegreesDataSetInitInMemory(&e->b, &r);
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) st = engFromMemory(e, &r);
		}
		else st = engWithFile(e, exception);
	}
	st = engComplete(e, st, properties, exception);
	/* this method also frees the structure */
	if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) fiftyoneDegreesFree(e);
	return st;
}
static fiftyoneDegreesStatusCode engInitMemory(void *dataSet, const void *config, fiftyoneDegreesPropertiesRequired *properties, void *memory, long size, fiftyoneDegreesException *exception) {
	Eng *e = dataSet;
	engReset(e, config);
	fiftyoneDegreesMemoryReader r;
	r.startByte = r.current = memory; r.length = size; r.lastByte = r.startByte + size;
	fiftyoneDegreesStatusCode st = engFromMemory(e, &r);
	return engComplete(e, st, properties, exception);
}
/* the first data set of a manager, as the engines make it */
static fiftyoneDegreesStatusCode engManager(fiftyoneDegreesResourceManager *manager, const EngConfig *config, fiftyoneDegreesPropertiesRequired *properties,
	const char *fileName, void *memory, long size, fiftyoneDegreesException *exception) {
	Eng *e = fiftyoneDegreesMalloc(sizeof *e);
	if (e == NULL) return FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY;
	fiftyoneDegreesStatusCode st = fileName ? engInitFile(e, config, properties, fileName, exception) : engInitMemory(e, config, properties, memory, size, exception);
	if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) { if (!fileName) fiftyoneDegreesFree(e); return st; }
	fiftyoneDegreesResourceManagerInit(manager, e, &e->b.handle, engFree);
	if (e->b.handle == NULL) { engFree(e); return FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY; }
	return FIFTYONE_DEGREES_STATUS_SUCCESS;
}
/* ---- reading a data set: the number of values which are as they should be, -1
 * for an exception, -2 for a wrong answer */
static int engReadValues(Eng *e, uint32_t from, uint32_t step, fiftyoneDegreesException *exception) {
	int good = 0;
	char t[64];
	for (uint32_t i = from; i < e->header.values; i += step) {
		fiftyoneDegreesCollectionItem v, s; fiftyoneDegreesDataReset(&v.data); fiftyoneDegreesDataReset(&s.data);
		EngValue *p = e->values->get(e->values, i, &v, exception);
		if (FIFTYONE_DEGREES_EXCEPTION_FAILED) return -1;
		if (p == NULL) return -2;
		fiftyoneDegreesString *q = fiftyoneDegreesStringGet(e->strings, p->text, &s, exception);
		if (FIFTYONE_DEGREES_EXCEPTION_FAILED) { FIFTYONE_DEGREES_COLLECTION_RELEASE(e->values, &v); return -1; }
		engValueText(t, &e->header, i);
		bool ok = q != NULL && p->number == engNumber(&e->header, i) && q->size == (int16_t)strlen(t) + 1 && strcmp(t, &q->value) == 0;
		if (q) FIFTYONE_DEGREES_COLLECTION_RELEASE(e->strings, &s);
		FIFTYONE_DEGREES_COLLECTION_RELEASE(e->values, &v);
		if (!ok) return -2;
		good++;
	}
	return good;
}
#endif
