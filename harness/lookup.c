/* Drives the lookups of properties, values, profiles, components and lists
 * (property.c, value.c, profile.c, component.c, list.c, coordinate.c) over
 * collections of any kind. Each collection is behind one which counts the items
 * which were got and not released to it. */
#include "io.h"
#include "pool.h"
enum { STRINGS, VALUES, PROPS, OFFSETS, PROFILES, COMPONENTS, TABLES };
typedef struct { fiftyoneDegreesCollection pub; fiftyoneDegreesCollection *inner; long out; } Counted;
static Counted cs[TABLES];
static long wrongRelease;
/* the items which are held: where they really came from */
static struct { void *ptr, *handle; fiftyoneDegreesCollection *real; int k; } held[4096];
static int nheld;
static void *countedGet(fiftyoneDegreesCollection *c, uint32_t i, fiftyoneDegreesCollectionItem *item, fiftyoneDegreesException *exception) {
	Counted *w = (Counted*)c;
	void *p = w->inner->get(w->inner, i, item, exception);
	if (p != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY) {
		if (nheld == 4096) seqDie("too many items");
		w->out++;
		held[nheld].ptr = item->data.ptr; held[nheld].handle = item->handle; held[nheld].real = item->collection; held[nheld++].k = (int)(w - cs);
		item->collection = c;
	}
	return p;
}
static void countedRelease(int k, fiftyoneDegreesCollectionItem *item) {
	int i = nheld - 1;
	while (i >= 0 && (item->data.ptr != held[i].ptr || item->handle != held[i].handle)) i--;
	if (i < 0 || held[i].k != k) wrongRelease++;
	if (i < 0) return; /* nothing which is held */
	Counted *w = &cs[held[i].k];
	w->out--;
	item->collection = held[i].real;
	held[i] = held[--nheld];
	w->inner->release(item);
	item->collection = NULL;
}
static void r0(fiftyoneDegreesCollectionItem *i) { countedRelease(0, i); }
static void r1(fiftyoneDegreesCollectionItem *i) { countedRelease(1, i); }
static void r2(fiftyoneDegreesCollectionItem *i) { countedRelease(2, i); }
static void r3(fiftyoneDegreesCollectionItem *i) { countedRelease(3, i); }
static void r4(fiftyoneDegreesCollectionItem *i) { countedRelease(4, i); }
static void r5(fiftyoneDegreesCollectionItem *i) { countedRelease(5, i); }
static void (*const rels[TABLES])(fiftyoneDegreesCollectionItem*) = { r0, r1, r2, r3, r4, r5 };

/* ---- the data set */
#define MAXN 1024
static long strOff[MAXN], strSize[MAXN], profOff[MAXN], compOff[MAXN];
static int nstr, nval, nprop, nprof, ncomp;
static unsigned char blob[TABLES][65536];
static long used[TABLES], counts[TABLES];
static void put(int t, const void *p, long n) { if (used[t] + n > 65536) seqDie("table too large"); memcpy(blob[t] + used[t], p, (size_t)n); used[t] += n; }
static void put32(int t, long v) { uint32_t x = (uint32_t)v; put(t, &x, 4); }
static void put16(int t, long v) { uint16_t x = (uint16_t)v; put(t, &x, 2); }
static void put8(int t, long v) { uint8_t x = (uint8_t)v; put(t, &x, 1); }
static long stringAt(long i) { return i < 0 || i >= nstr ? 60000 : strOff[i]; }
static int stringIndex(const void *s) { /* of a string which was got: by its bytes */
	const fiftyoneDegreesString *x = s;
	for (int i = 0; s != NULL && i < nstr; i++)
		if (strSize[i] == x->size && memcmp(&x->value, blob[STRINGS] + strOff[i] + 2, (size_t)x->size) == 0) return i;
	return s == NULL ? -1 : -2;
}
static void data(void) {
	memset(used, 0, sizeof used);
	evBegin("\"e\":\"data\"");
	nstr = (int)tokInt();
	printf(",\"strings\":[");
	for (int i = 0; i < nstr; i++) {
		long n; unsigned char *b = tokBytes(&n);
		strOff[i] = used[STRINGS]; strSize[i] = n;
		put16(STRINGS, n); put(STRINGS, b, n);
		printf("%s[", i ? "," : ""); for (long j = 0; j < n; j++) printf("%s%d", j ? "," : "", b[j]); printf("]");
		free(b);
	}
	nval = (int)tokInt();
	printf("],\"values\":[");
	for (int i = 0; i < nval; i++) {
		long p = tokInt(), name = tokInt(), desc = tokInt(), url = tokInt();
		put16(VALUES, p); put32(VALUES, stringAt(name)); put32(VALUES, stringAt(desc)); put32(VALUES, stringAt(url));
		printf("%s{\"prop\":%ld,\"name\":%ld,\"desc\":%ld,\"url\":%ld}", i ? "," : "", p, name, desc, url);
	}
	nprop = (int)tokInt();
	printf("],\"props\":[");
	for (int i = 0; i < nprop; i++) {
		long name = tokInt(), first = tokInt(), last = tokInt(), type = tokInt(), desc = tokInt(), cat = tokInt(), url = tokInt();
		put8(PROPS, 0); put8(PROPS, i); put8(PROPS, 0); put8(PROPS, 0); put8(PROPS, 1); put8(PROPS, 0); put8(PROPS, 1); put8(PROPS, type);
		put32(PROPS, 0); put32(PROPS, stringAt(name)); put32(PROPS, stringAt(desc)); put32(PROPS, stringAt(cat)); put32(PROPS, stringAt(url));
		put32(PROPS, first); put32(PROPS, last); put32(PROPS, 0); put32(PROPS, 0);
		printf("%s{\"name\":%ld,\"first\":%ld,\"last\":%ld,\"type\":%ld,\"desc\":%ld,\"cat\":%ld,\"url\":%ld}", i ? "," : "", name, first, last, type, desc, cat, url);
	}
	nprof = (int)tokInt();
	long ids[MAXN], order[MAXN];
	printf("],\"profiles\":[");
	for (int i = 0; i < nprof; i++) {
		long comp = tokInt(), id = (int)tokInt(), n = tokInt();
		profOff[i] = used[PROFILES]; ids[i] = id; order[i] = i;
		put8(PROFILES, comp); put32(PROFILES, id); put32(PROFILES, n);
		printf("%s{\"comp\":%ld,\"id\":%ld,\"values\":[", i ? "," : "", comp, id);
		for (long j = 0; j < n; j++) { long v = tokInt(); put32(PROFILES, v); printf("%s%ld", j ? "," : "", v); }
		printf("]}");
	}
	/* the offsets are sorted by id, the profiles are not */
	for (int i = 0; i < nprof; i++) for (int j = i + 1; j < nprof; j++) if ((uint32_t)ids[order[j]] < (uint32_t)ids[order[i]]) { long x = order[i]; order[i] = order[j]; order[j] = x; }
	printf("],\"order\":[");
	for (int i = 0; i < nprof; i++) { put32(OFFSETS, ids[order[i]]); put32(OFFSETS, profOff[order[i]]); printf("%s%ld", i ? "," : "", order[i]); }
	ncomp = (int)tokInt();
	printf("],\"comps\":[");
	for (int i = 0; i < ncomp; i++) {
		long id = tokInt(), name = tokInt(), def = tokInt(), n = tokInt();
		compOff[i] = used[COMPONENTS];
		put8(COMPONENTS, id); put32(COMPONENTS, stringAt(name)); put32(COMPONENTS, def < 0 || def >= nprof ? 60000 : profOff[def]); put16(COMPONENTS, n);
		printf("%s{\"id\":%ld,\"name\":%ld,\"def\":%ld,\"kv\":[", i ? "," : "", id, name, def);
		for (long j = 0; j < n; j++) { long k = tokInt(), v = tokInt(); put32(COMPONENTS, k); put32(COMPONENTS, v); printf("%s[%ld,%ld]", j ? "," : "", k, v); }
		printf("]}");
	}
	printf("]"); evEnd();
	counts[STRINGS] = 0; counts[VALUES] = nval; counts[PROPS] = nprop; counts[OFFSETS] = nprof; counts[PROFILES] = 0; counts[COMPONENTS] = 0;
}
static const uint32_t sizes[TABLES] = { 0, sizeof(fiftyoneDegreesValue), sizeof(fiftyoneDegreesProperty), sizeof(fiftyoneDegreesProfileOffset), 0, 0 };
static fiftyoneDegreesFilePool fp; static bool haveFp;
static unsigned char *mems[TABLES];
static char path[5000];
static void collections(void) { /* how each table is held */
	int pool = (int)tokInt(); char *how[TABLES]; long loaded[TABLES], cap[TABLES], conc[TABLES], at[TABLES];
	for (int t = 0; t < TABLES; t++) { how[t] = tok(); loaded[t] = tokInt(); cap[t] = tokInt(); conc[t] = tokInt(); }
	FILE *w = fopen(path, "wb");
	if (w == NULL) seqDie("can't write");
	fputc('!', w);
	for (int t = 0; t < TABLES; t++) { at[t] = ftell(w); uint32_t n = (uint32_t)used[t]; fwrite(&n, 4, 1, w); fwrite(blob[t], 1, (size_t)used[t], w); }
	fclose(w);
	FIFTYONE_DEGREES_EXCEPTION_CREATE
	haveFp = fiftyoneDegreesFilePoolInit(&fp, path, (uint16_t)pool, exception) == FIFTYONE_DEGREES_STATUS_SUCCESS;
	if (!haveFp) seqBad("pool");
	FILE *f; if (fiftyoneDegreesFileOpen(path, &f) != FIFTYONE_DEGREES_STATUS_SUCCESS) seqBad("open");
	for (int t = 0; t < TABLES; t++) {
		Counted *c = &cs[t];
		mems[t] = NULL; c->out = 0;
		if (*how[t] == 'm') {
			fiftyoneDegreesMemoryReader r;
			uint32_t n = (uint32_t)used[t];
			mems[t] = malloc((size_t)n + 4); memcpy(mems[t], &n, 4); memcpy(mems[t] + 4, blob[t], n);
			r.startByte = r.current = mems[t]; r.lastByte = mems[t] + n + 4; r.length = (long)n + 4;
			c->inner = fiftyoneDegreesCollectionCreateFromMemory(&r, fiftyoneDegreesCollectionHeaderFromMemory(&r, sizes[t], false));
		} else {
			fiftyoneDegreesCollectionConfig config = { (uint32_t)loaded[t], (uint32_t)cap[t], (uint16_t)conc[t] };
			fseek(f, at[t], SEEK_SET);
			c->inner = fiftyoneDegreesCollectionCreateFromFile(f, &fp, &config, fiftyoneDegreesCollectionHeaderFromFile(f, sizes[t], false),
				t == STRINGS ? fiftyoneDegreesStringRead : t == PROFILES ? fiftyoneDegreesProfileReadFromFile : t == COMPONENTS ? fiftyoneDegreesComponentReadFromFile : fiftyoneDegreesCollectionReadFileFixed);
		}
		if (c->inner == NULL) seqBad("collection");
		memset(&c->pub, 0, sizeof c->pub);
		c->pub.get = countedGet; c->pub.release = rels[t]; c->pub.next = c->inner;
	}
	vf_fclose(f);
}
#define C(t) (&cs[t].pub)
static long heldItems(void) { long n = 0; for (int t = 0; t < TABLES; t++) n += labs(cs[t].out); return n; }
static void tail(fiftyoneDegreesException *exception, int fired) {
	printf(",\"st\":\"%s\",\"fired\":%d,\"held\":%ld,\"wrong\":%ld,\"open\":%d", exName(exception), fired, heldItems(), wrongRelease, 0);
	evEnd();
	wrongRelease = 0;
}
static void clear(fiftyoneDegreesCollectionItem *i) { fiftyoneDegreesDataReset(&i->data); i->handle = NULL; i->collection = NULL; }
static void letGo(int t, fiftyoneDegreesCollectionItem *i) { cs[t].pub.release(i); }
typedef struct { int stop, n, keep; int seen[MAXN * 4]; int table; fiftyoneDegreesCollectionItem kept[MAXN]; } Visit;
static bool onValue(void *state, fiftyoneDegreesCollectionItem *item) {
	Visit *v = state; fiftyoneDegreesValue *x = (fiftyoneDegreesValue*)item->data.ptr;
	int at = -1;
	for (int i = 0; i < nval; i++) if (memcmp(blob[VALUES] + i * (long)sizeof(*x), x, sizeof *x) == 0) { at = i; break; }
	v->seen[v->n++] = at;
	if (v->keep && v->n <= 4) v->kept[v->n - 1] = *item; else letGo(VALUES, item);
	return v->stop == 0 || v->n < v->stop;
}
static bool onProfile(void *state, fiftyoneDegreesCollectionItem *item) {
	Visit *v = state; fiftyoneDegreesProfile *x = (fiftyoneDegreesProfile*)item->data.ptr;
	v->seen[v->n++] = (int)x->profileId;
	return v->stop == 0 || v->n < v->stop;
}
static void printSeen(Visit *v) { printf(",\"seen\":["); for (int i = 0; i < v->n; i++) printf("%s%d", i ? "," : "", v->seen[i]); printf("]"); }
static void printProfile(fiftyoneDegreesProfile *p) {
	printf(",\"profile\":[");
	if (p != NULL) {
		printf("{\"comp\":%d,\"id\":%d,\"values\":[", p->componentIndex, (int)p->profileId);
		const uint32_t *v = (const uint32_t*)(p + 1);
		for (uint32_t i = 0; i < p->valueCount; i++) printf("%s%u", i ? "," : "", v[i]);
		printf("]}");
	}
	printf("]");
}
static void arm(void) { char *k = tok(); long n = tokInt(); ioArm(*k, n); }
static void script(void) {
	ioReset(); nheld = 0; wrongRelease = 0;
	FIFTYONE_DEGREES_EXCEPTION_CREATE
	data();
	collections();
	char *op; fiftyoneDegreesCollectionItem a, b;
	while ((op = tokOpt()) != NULL) {
		FIFTYONE_DEGREES_EXCEPTION_CLEAR
		clear(&a); clear(&b);
		switch (*op) {
		case 'n': {
			char *name = tokStr(); arm();
			fiftyoneDegreesProperty *p = fiftyoneDegreesPropertyGetByName(C(PROPS), C(STRINGS), name, &a, exception);
			int f = ioDisarm(), at = p != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY ? p->displayOrder : -1;
			if (at >= 0) letGo(PROPS, &a);
			evBegin("\"e\":\"property\",\"i\":%d,\"null\":%d", at, p == NULL); evSeq("name", name, (long)strlen(name)); tail(exception, f);
			free(name); break; }
		case 'v': case 'i': {
			int i = (int)tokInt(); char *name = tokStr(); long tl; unsigned char *tb = tokBytes(&tl); char *k = tok(); long n = tokInt();
			if (i >= nprop) { free(name); free(tb); break; }
			fiftyoneDegreesProperty *p = fiftyoneDegreesPropertyGet(C(PROPS), (uint32_t)i, &a, exception);
			if (p == NULL) seqBad("property");
			ioArm(*k, n);
			long at = -1; int f, null = 0;
			if (*op == 'v') {
				fiftyoneDegreesValue *v = fiftyoneDegreesValueGetByName(C(VALUES), C(STRINGS), p, name, &b, exception);
				f = ioDisarm(); null = v == NULL;
				if (v != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY) {
					at = -2;
					for (int j = 0; j < nval; j++) if (memcmp(blob[VALUES] + j * (long)sizeof(*v), v, sizeof *v) == 0) { at = j; break; }
					letGo(VALUES, &b);
				}
			} else {
				at = fiftyoneDegreesValueGetIndexByName(C(VALUES), C(STRINGS), p, name, exception);
				f = ioDisarm(); null = at < 0;
				if (!FIFTYONE_DEGREES_EXCEPTION_OKAY) at = -1;
			}
			letGo(PROPS, &a);
			evBegin("\"e\":\"value\",\"prop\":%d,\"i\":%ld,\"by\":\"%c\"", i, at, *op); evSeq("name", name, (long)strlen(name)); evSeq("coord", tb, tl); tail(exception, f);
			free(name); free(tb); break; }
		case 'p': {
			uint32_t id = (uint32_t)tokInt(); arm();
			fiftyoneDegreesProfile *p = fiftyoneDegreesProfileGetByProfileId(C(OFFSETS), C(PROFILES), id, &a, exception);
			int f = ioDisarm();
			if (!FIFTYONE_DEGREES_EXCEPTION_OKAY) p = NULL;
			evBegin("\"e\":\"byid\",\"id\":%d", (int)id); printProfile(p);
			if (p != NULL) letGo(PROFILES, &a);
			tail(exception, f); break; }
		case 'o': {
			uint32_t id = (uint32_t)tokInt(); arm(); uint32_t off = 0;
			uint32_t *p = fiftyoneDegreesProfileGetOffsetForProfileId(C(OFFSETS), id, &off, exception);
			int f = ioDisarm(), at = -1;
			if (p != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY) { at = -2; for (int i = 0; i < nprof; i++) if (profOff[i] == (long)off) at = i; }
			evBegin("\"e\":\"offset\",\"id\":%d,\"i\":%d", (int)id, at); tail(exception, f); break; }
		case 'q': {
			uint32_t i = (uint32_t)tokInt(); arm();
			fiftyoneDegreesProfile *p = fiftyoneDegreesProfileGetByIndex(C(OFFSETS), C(PROFILES), i, &a, exception);
			int f = ioDisarm();
			if (!FIFTYONE_DEGREES_EXCEPTION_OKAY) p = NULL;
			evBegin("\"e\":\"byindex\",\"i\":%d", (int)i); printProfile(p);
			if (p != NULL) letGo(PROFILES, &a);
			tail(exception, f); break; }
		case 'V': {
			int i = (int)tokInt(), pi = (int)tokInt(); Visit v; memset(&v, 0, sizeof v); v.stop = (int)tokInt(); v.keep = (int)tokInt(); char *k = tok(); long n = tokInt();
			if (i >= nprof || pi >= nprop) break;
			fiftyoneDegreesProperty *p = fiftyoneDegreesPropertyGet(C(PROPS), (uint32_t)pi, &a, exception);
			fiftyoneDegreesProfile *q = (fiftyoneDegreesProfile*)C(PROFILES)->get(C(PROFILES), (uint32_t)profOff[i], &b, exception);
			if (p == NULL || q == NULL) seqBad("profile");
			ioArm(*k, n);
			long r = fiftyoneDegreesProfileIterateValuesForProperty(C(VALUES), q, p, &v, onValue, exception);
			int f = ioDisarm();
			for (int j = 0; v.keep && j < v.n && j < 4; j++) letGo(VALUES, &v.kept[j]);
			letGo(PROPS, &a); letGo(PROFILES, &b);
			evBegin("\"e\":\"profilevalues\",\"i\":%d,\"prop\":%d,\"stop\":%d,\"count\":%ld", i, pi, v.stop, r); printSeen(&v); tail(exception, f);
			break; }
		case 'W': {
			char *name = tokStr(), *val = tokStr(); Visit v; memset(&v, 0, sizeof v); v.stop = (int)tokInt(); arm();
			long r = fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(C(STRINGS), C(PROPS), C(VALUES), C(PROFILES), C(OFFSETS), name, val, &v, onProfile, exception);
			int f = ioDisarm();
			evBegin("\"e\":\"profiles\",\"stop\":%d,\"count\":%ld", v.stop, r); printSeen(&v);
			evSeq("name", name, (long)strlen(name)); evSeq("value", val, (long)strlen(val)); tail(exception, f);
			free(name); free(val); break; }
		case 'd': case 'k': case 'c': {
			int i = (int)tokInt(), x = *op == 'k' ? (int)tokInt() : 0; char *k = tok(); long n = tokInt();
			if (i >= ncomp) break;
			fiftyoneDegreesComponent *c = (fiftyoneDegreesComponent*)C(COMPONENTS)->get(C(COMPONENTS), (uint32_t)compOff[i], &a, exception);
			if (c == NULL) seqBad("component");
			ioArm(*k, n);
			if (*op == 'd') {
				uint32_t id = fiftyoneDegreesComponentGetDefaultProfileId(C(PROFILES), c, exception); int f = ioDisarm();
				letGo(COMPONENTS, &a);
				evBegin("\"e\":\"default\",\"i\":%d,\"id\":%d", i, (int)id); tail(exception, f);
			} else if (*op == 'k') {
				const fiftyoneDegreesComponentKeyValuePair *kv = fiftyoneDegreesComponentGetKeyValuePair(c, (uint16_t)x, exception); int f = ioDisarm();
				int ok = kv != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY; long kk = ok ? (long)kv->key : 0, vv = ok ? (long)kv->value : 0;
				letGo(COMPONENTS, &a);
				evBegin("\"e\":\"pair\",\"i\":%d,\"x\":%d,\"ok\":%d,\"kv\":[%ld,%ld]", i, x, ok, kk, vv); tail(exception, f);
			} else {
				fiftyoneDegreesString *s = fiftyoneDegreesComponentGetName(C(STRINGS), c, &b, exception); int f = ioDisarm();
				if (!FIFTYONE_DEGREES_EXCEPTION_OKAY) s = NULL;
				evBegin("\"e\":\"text\",\"of\":\"component\",\"i\":%d,\"what\":\"name\",\"s\":%d", i, stringIndex(s));
				if (s != NULL) letGo(STRINGS, &b);
				letGo(COMPONENTS, &a); tail(exception, f);
			}
			break; }
		case 'l': {
			arm(); fiftyoneDegreesList list; memset(&list, 0xA5, sizeof list);
			fiftyoneDegreesComponentInitList(C(COMPONENTS), &list, (uint32_t)ncomp, exception); int f = ioDisarm();
			evBegin("\"e\":\"list\",\"ids\":[");
			for (uint32_t i = 0; i < list.count; i++) printf("%s%d", i ? "," : "", ((fiftyoneDegreesComponent*)list.items[i].data.ptr)->componentId);
			printf("],\"during\":%ld", heldItems());
			fiftyoneDegreesListRelease(&list); printf(",\"left\":%d", (int)list.count);
			fiftyoneDegreesListRelease(&list); fiftyoneDegreesListFree(&list); printf(",\"cap\":%d", (int)list.capacity);
			tail(exception, f); break; }
		case 'L': { /* strings in a list */
			int cap = (int)tokInt(), n = (int)tokInt(); int idx[MAXN]; for (int i = 0; i < n; i++) idx[i] = (int)tokInt();
			arm(); fiftyoneDegreesList list; memset(&list, 0xA5, sizeof list);
			int ok = fiftyoneDegreesListInit(&list, (uint32_t)cap) == &list; int f = ioDisarm();
			evBegin("\"e\":\"strings\",\"ok\":%d,\"want\":[", ok);
			int m = 0;
			for (int i = 0; ok && i < n && m < cap; i++) { if (idx[i] >= nstr) continue; clear(&a);
				if (fiftyoneDegreesStringGet(C(STRINGS), (uint32_t)strOff[idx[i]], &a, exception) == NULL) seqBad("string");
				fiftyoneDegreesListAdd(&list, &a); printf("%s%d", m++ ? "," : "", idx[i]); }
			printf("],\"got\":["); for (int i = 0; i < m; i++) printf("%s%d", i ? "," : "", stringIndex(fiftyoneDegreesListGetAsString(&list, i)));
			printf("],\"during\":%ld", heldItems());
			fiftyoneDegreesListFree(&list); printf(",\"left\":%d", (int)list.count);
			tail(exception, f); break; }
		case 'g': { /* texts of a property */
			int i = (int)tokInt(); char w = *tok(); char *k = tok(); long n = tokInt();
			if (i >= nprop) break;
			fiftyoneDegreesProperty *p = fiftyoneDegreesPropertyGet(C(PROPS), (uint32_t)i, &a, exception);
			if (p == NULL) seqBad("property");
			ioArm(*k, n);
			fiftyoneDegreesString *s = w == 'n' ? fiftyoneDegreesPropertyGetName(C(STRINGS), p, &b, exception) : w == 'd' ? fiftyoneDegreesPropertyGetDescription(C(STRINGS), p, &b, exception)
				: w == 'c' ? fiftyoneDegreesPropertyGetCategory(C(STRINGS), p, &b, exception) : fiftyoneDegreesPropertyGetUrl(C(STRINGS), p, &b, exception);
			int f = ioDisarm();
			if (!FIFTYONE_DEGREES_EXCEPTION_OKAY) s = NULL;
			evBegin("\"e\":\"text\",\"of\":\"property\",\"i\":%d,\"what\":\"%s\",\"s\":%d", i, w == 'n' ? "name" : w == 'd' ? "desc" : w == 'c' ? "cat" : "url", stringIndex(s));
			if (s != NULL) letGo(STRINGS, &b);
			letGo(PROPS, &a); tail(exception, f); break; }
		case 'G': { /* texts of a value */
			int i = (int)tokInt(); char w = *tok(); char *k = tok(); long n = tokInt();
			if (i >= nval) break;
			fiftyoneDegreesValue *p = fiftyoneDegreesValueGet(C(VALUES), (uint32_t)i, &a, exception);
			if (p == NULL) seqBad("value");
			ioArm(*k, n);
			fiftyoneDegreesString *s = w == 'n' ? fiftyoneDegreesValueGetName(C(STRINGS), p, &b, exception) : w == 'd' ? fiftyoneDegreesValueGetDescription(C(STRINGS), p, &b, exception)
				: fiftyoneDegreesValueGetUrl(C(STRINGS), p, &b, exception);
			int f = ioDisarm();
			if (!FIFTYONE_DEGREES_EXCEPTION_OKAY) s = NULL;
			evBegin("\"e\":\"text\",\"of\":\"value\",\"i\":%d,\"what\":\"%s\",\"s\":%d", i, w == 'n' ? "name" : w == 'd' ? "desc" : "url", stringIndex(s));
			if (s != NULL) letGo(STRINGS, &b);
			letGo(VALUES, &a); tail(exception, f); break; }
		case 't': {
			uint32_t i = (uint32_t)tokInt(); arm();
			int ty = fiftyoneDegreesPropertyGetValueType(C(PROPS), i, exception); int f = ioDisarm();
			evBegin("\"e\":\"type\",\"i\":%d,\"type\":%d", (int)i, ty); tail(exception, f); break; }
		case 'C': {
			int i = (int)tokInt();
			if (i >= nstr) break;
			if (fiftyoneDegreesStringGet(C(STRINGS), (uint32_t)strOff[i], &a, exception) == NULL) seqBad("string");
			fiftyoneDegreesCoordinate c = fiftyoneDegreesIpiGetCoordinate(&a, exception);
			float x[2] = { (float)c.lat, (float)c.lon };
			letGo(STRINGS, &a);
			evBegin("\"e\":\"coordinate\",\"i\":%d", i); evSeq("b", x, 8); tail(exception, 0); break; }
		default: seqDie("op");
		}
	}
	for (int t = 0; t < TABLES; t++) { cs[t].inner->freeCollection(cs[t].inner); free(mems[t]); }
	if (haveFp) fiftyoneDegreesFilePoolRelease(&fp);
	ev("\"e\":\"end\",\"live\":%ld,\"open\":%ld", seqLive, ioOpen);
	remove(path);
}
int main(int argc, char **argv) {
	seqUse();
	ioScratch(argv[1]);
	snprintf(path, sizeof path, "%s/data.bin", ioDir);
	int r = seqLoop(script, 10);
	rmdir(ioDir);
	return r;
}
