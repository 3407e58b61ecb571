/* Required properties and overrides.
 * ops: C n names.. evmode mode(a|e|s|n|d) k wanted.. | string   fk fn
 *      F   B name   I i   S
 *      P prefix filter fk fn   V cap fk fn   A idx value fk fn   E none n {prefix field value}   H idx room   R   O i
 *      Q n {prefix field value} */
#include "io.h"
typedef struct { int n; char **name; int out; int evmode; } Names;
static Names names;
static fiftyoneDegreesPropertiesAvailable *av; static fiftyoneDegreesOverridePropertyArray *over;
static fiftyoneDegreesOverrideValueArray *vals; static bool overMade;
static void *kept[65536]; static int nkept;
static void *keep(void *p) { if (nkept < 65536) kept[nkept++] = p; return p; }
static void released(fiftyoneDegreesCollectionItem *item) { free(item->data.ptr); item->data.ptr = NULL; names.out--; }
static fiftyoneDegreesCollection source;
static void str(const char *k, const char *s) { evSeq(k, s, s ? (long)strlen(s) : 0); }
static fiftyoneDegreesString *copyOf(const char *s) {
	size_t len = strlen(s), size = sizeof(int16_t) + len + 1;
	fiftyoneDegreesString *r = malloc(size > sizeof(fiftyoneDegreesString) ? size : sizeof(fiftyoneDegreesString));
	r->size = (int16_t)(len + 1); memcpy(&r->value, s, len + 1);
	return r;
}
static fiftyoneDegreesString *getName(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	Names *s = state;
	if (i >= (uint32_t)s->n) return NULL;
	fiftyoneDegreesString *r = copyOf(s->name[i]);
	item->data.ptr = (byte*)r; item->data.used = 1; item->data.allocated = 0; item->collection = &source; item->handle = NULL;
	s->out++;
	return r;
}
static int evCount(Names *s, uint32_t p) { return s->evmode == 0 ? 0 : (int)((p * 3 + (uint32_t)s->evmode) % 4); }
static uint32_t evAt(Names *s, uint32_t p, int k) { return (uint32_t)((p * 5 + (uint32_t)k * 2 + (uint32_t)s->evmode) % 17); }
static uint32_t getEvidence(void *state, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) {
	Names *s = state;
	int n = evCount(s, p->propertyIndex);
	if (e != NULL) for (int i = 0; i < n; i++) e->items[i] = evAt(s, p->propertyIndex, i);
	return (uint32_t)n;
}
static void freeOver(void) { if (over) fiftyoneDegreesOverridePropertiesFree(over); over = NULL; }
static void freeVals(void) { if (vals) fiftyoneDegreesOverrideValuesFree(vals); vals = NULL; }
static void freeAv(void) { freeOver(); if (av) fiftyoneDegreesPropertiesFree(av); av = NULL; }
static char filterBits[4096];
static bool filter(void *state, uint32_t i) { return ((char*)state)[i] == '1'; }
static void valuesOut(void) {
	printf(",\"values\":[");
	for (uint32_t i = 0; vals && i < vals->count; i++) {
		printf("%s{\"idx\":%u", i ? "," : "", vals->items[i].requiredPropertyIndex);
		str("value", FIFTYONE_DEGREES_STRING(vals->items[i].string.ptr)); printf("}");
	}
	printf("]");
}
static fiftyoneDegreesEvidenceKeyValuePairArray *tokEvidence(void) {
	int n = (int)tokInt();
	long fail = seqFailAt; seqFailAt = 0;
	fiftyoneDegreesEvidenceKeyValuePairArray *e = fiftyoneDegreesEvidenceCreate((uint32_t)n);
	seqFailAt = fail;
	printf(",\"evidence\":[");
	for (int i = 0; i < n; i++) {
		int p = (int)tokInt(); char *f = keep(tokStr()), *v = keep(tokStr());
		fiftyoneDegreesEvidenceAddString(e, p, f, v);
		printf("%s{\"prefix\":%d", i ? "," : "", p); str("field", f); str("value", v); printf("}");
	}
	printf("]");
	return e;
}
static int idCount;
static void profileId(void *state, uint32_t id) { (void)state; printf("%s%u", idCount++ ? "," : "", id); }
static void script(void) {
	char *t;
	av = NULL; over = NULL; vals = NULL; nkept = 0; memset(&names, 0, sizeof names);
	memset(&source, 0, sizeof source); source.release = released;
	while ((t = tokOpt()) != NULL) {
		switch (*t) {
		case 'C': {
			fiftyoneDegreesPropertiesAvailable *old = av;
			Names oldNames = names;
			freeOver();
			names.n = (int)tokInt(); names.name = keep(calloc((size_t)names.n + 1, sizeof(char*)));
			for (int i = 0; i < names.n; i++) names.name[i] = keep(tokStr());
			names.evmode = (int)tokInt();
			char mode = *tok();
			fiftyoneDegreesPropertiesRequired req = fiftyoneDegreesPropertiesDefault, *rp = &req;
			char *text = NULL; int k = 0; const char **array = NULL;
			if (mode == 's') { text = keep(tokStr()); req.string = text; }
			else if (mode == 'a') {
				k = (int)tokInt(); array = keep(calloc((size_t)k + 1, sizeof(char*)));
				for (int i = 0; i < k; i++) array[i] = keep(tokStr());
				req.array = array; req.count = k;
			}
			else if (mode == 'e') { req.existing = old; req.string = "ignored"; }
			else if (mode == 'n') rp = NULL;
			char fk = *tok(); long fn = tokInt();
			int held = names.out;
			evBegin("\"e\":\"create\",\"mode\":\"%s\",\"names\":[", mode == 's' ? "string" : mode == 'a' ? "array" : mode == 'e' && old ? "existing" : mode == 'e' ? "string" : "all");
			for (int i = 0; i < names.n; i++) {
				printf("%s[", i ? "," : "");
				for (char *c = names.name[i]; *c; c++) printf("%s%d", c > names.name[i] ? "," : "", (unsigned char)*c);
				printf("]");
			}
			printf("],\"evidence\":[");
			for (int i = 0; i < names.n; i++) {
				printf("%s[", i ? "," : "");
				for (int j = 0; j < evCount(&names, (uint32_t)i); j++) printf("%s%u", j ? "," : "", evAt(&names, (uint32_t)i, j));
				printf("]");
			}
			printf("],\"wanted\":[");
			if (mode == 'e' && old) { k = (int)old->count; }
			for (int i = 0; i < k; i++) {
				const char *c = mode == 'e' ? FIFTYONE_DEGREES_STRING(old->items[i].name.data.ptr) : array[i];
				printf("%s[", i ? "," : "");
				for (const char *d = c; *d; d++) printf("%s%d", d > c ? "," : "", (unsigned char)*d);
				printf("]");
			}
			printf("]"); str("str", text ? text : mode == 'e' && !old ? "ignored" : "");
			ioArm(fk, fn);
			av = fiftyoneDegreesPropertiesCreate(rp, &names, getName, getEvidence);
			int fired = ioDisarm();
			printf(",\"fired\":%d,\"ok\":%d,\"out\":%d,\"items\":[", fired, av != NULL, names.out - held);
			for (uint32_t i = 0; av && i < av->count; i++) {
				fiftyoneDegreesPropertyAvailable *p = &av->items[i];
				printf("%s{\"idx\":%u,\"delay\":%d,\"noev\":%d,\"ev\":[", i ? "," : "", p->propertyIndex, p->delayExecution, p->evidenceProperties == NULL);
				for (uint32_t j = 0; p->evidenceProperties && j < p->evidenceProperties->count; j++) printf("%s%u", j ? "," : "", p->evidenceProperties->items[j]);
				printf("]"); str("name", FIFTYONE_DEGREES_STRING(p->name.data.ptr)); printf("}");
			}
			printf("]"); evEnd();
			if (old) fiftyoneDegreesPropertiesFree(old);
			(void)oldNames;
			break; }
		case 'F':
			freeAv();
			ev("\"e\":\"free\",\"out\":%d", names.out);
			break;
		case 'B': {
			char *n = keep(tokStr());
			if (av == NULL) break;
			evBegin("\"e\":\"byname\",\"ri\":%d,\"pi\":%d", fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(av, n),
				fiftyoneDegreesPropertiesGetPropertyIndexFromName(av, n));
			str("name", n); evEnd();
			break; }
		case 'I': {
			int i = (int)tokInt();
			if (av == NULL) break;
			evBegin("\"e\":\"byindex\",\"i\":%d,\"pi\":%d", i, fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(av, i));
			str("name", i >= 0 && i < (int)av->count ? FIFTYONE_DEGREES_STRING(fiftyoneDegreesPropertiesGetNameFromRequiredIndex(av, i)) : ""); evEnd();
			break; }
		case 'S':
			if (av == NULL) break;
			ev("\"e\":\"setheader\",\"r\":%d", fiftyoneDegreesPropertiesIsSetHeaderAvailable(av));
			break;
		case 'P': {
			int prefix = (int)tokInt(); char *bits = tok(); char fk = *tok(); long fn = tokInt();
			if (av == NULL) break;
			freeOver();
			for (uint32_t i = 0; i < av->count && i < 4095; i++) filterBits[i] = bits[i % strlen(bits)];
			ioArm(fk, fn);
			over = fiftyoneDegreesOverridePropertiesCreate(av, prefix, filterBits, filter);
			int fired = ioDisarm();
			evBegin("\"e\":\"overridable\",\"prefix\":%d,\"fired\":%d,\"ok\":%d,\"filter\":[", prefix, fired, over != NULL);
			for (uint32_t i = 0; i < av->count; i++) printf("%s%c", i ? "," : "", filterBits[i]);
			printf("],\"items\":[");
			for (uint32_t i = 0; over && i < over->count; i++) {
				if (over->items[i].available != &av->items[over->items[i].requiredPropertyIndex]) printf("%s-1", i ? "," : "");
				else printf("%s%u", i ? "," : "", over->items[i].requiredPropertyIndex);
			}
			printf("]"); evEnd();
			break; }
		case 'V': {
			int cap = (int)tokInt(); char fk = *tok(); long fn = tokInt();
			freeVals();
			ioArm(fk, fn);
			vals = fiftyoneDegreesOverrideValuesCreate((uint32_t)cap);
			int fired = ioDisarm();
			ev("\"e\":\"values\",\"cap\":%d,\"fired\":%d,\"ok\":%d", cap, fired, vals != NULL);
			break; }
		case 'A': {
			int idx = (int)tokInt(); char *v = keep(tokStr()); char fk = *tok(); long fn = tokInt();
			if (vals == NULL) break;
			ioArm(fk, fn);
			int ok = fiftyoneDegreesOverridesAdd(vals, idx, v);
			int fired = ioDisarm();
			evBegin("\"e\":\"add\",\"idx\":%d,\"fired\":%d,\"ok\":%d", idx, fired, ok); str("value", v); valuesOut(); evEnd();
			break; }
		case 'E': {
			int none = (int)tokInt();
			if (vals == NULL) none = 1;
			evBegin("\"e\":\"extract\",\"none\":%d", none || over == NULL);
			fiftyoneDegreesEvidenceKeyValuePairArray *e = tokEvidence();
			uint32_t n = none == 2 ? fiftyoneDegreesOverridesExtractFromEvidence(NULL, vals, e) : fiftyoneDegreesOverridesExtractFromEvidence(over, none ? NULL : vals, e);
			printf(",\"count\":%u", n); valuesOut(); evEnd();
			fiftyoneDegreesEvidenceFree(e);
			break; }
		case 'H': {
			int idx = (int)tokInt(), room = (int)tokInt();
			if (vals == NULL) break;
			fiftyoneDegreesCollectionItem item; memset(&item, 0, sizeof item); fiftyoneDegreesDataReset(&item.data);
			fiftyoneDegreesString *s = fiftyoneDegreesOverrideValuesGetFirst(vals, (uint32_t)idx, &item);
			fiftyoneDegreesList list;
			fiftyoneDegreesListInit(&list, (uint32_t)room);
			uint32_t n = fiftyoneDegreesOverrideValuesAdd(vals, (uint32_t)idx, &list);
			evBegin("\"e\":\"has\",\"idx\":%d,\"room\":%d,\"has\":%d,\"found\":%d,\"size\":%d,\"listed\":[", idx, room,
				fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex(vals, (uint32_t)idx), s != NULL, s ? s->size : 0);
			for (uint32_t i = 0; i < n && i < list.count; i++) {
				const char *c = FIFTYONE_DEGREES_STRING(fiftyoneDegreesListGetAsString(&list, (int)i));
				printf("%s[", i ? "," : "");
				for (const char *d = c; *d; d++) printf("%s%d", d > c ? "," : "", (unsigned char)*d);
				printf("]");
			}
			printf("]"); str("value", s ? &s->value : ""); evEnd();
			if (s) {
				FIFTYONE_DEGREES_COLLECTION_RELEASE(item.collection, &item);
				/* the item is used for something else, which leaves the value as it was */
				byte *b = (byte*)fiftyoneDegreesDataMalloc(&item.data, 1);
				if (b) { *b = '#'; fiftyoneDegreesFree(b); }
			}
			fiftyoneDegreesListFree(&list);
			break; }
		case 'R':
			if (vals == NULL) break;
			fiftyoneDegreesOverrideValuesReset(vals);
			evBegin("\"e\":\"reset\""); valuesOut(); evEnd();
			break;
		case 'O': {
			int i = (int)tokInt();
			if (av == NULL || i >= (int)av->count) break;
			ev("\"e\":\"overriding\",\"i\":%d,\"r\":%d", i, fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex(av, (uint32_t)i));
			break; }
		case 'Q': {
			evBegin("\"e\":\"profileids\"");
			fiftyoneDegreesEvidenceKeyValuePairArray *e = tokEvidence();
			printf(",\"ids\":["); idCount = 0;
			fiftyoneDegreesOverrideProfileIds(e, NULL, profileId);
			printf("]"); evEnd();
			fiftyoneDegreesEvidenceFree(e);
			break; }
		default: seqDie("op");
		}
	}
	freeVals(); freeAv();
	ev("\"e\":\"end\",\"live\":%ld,\"out\":%d", seqLive, names.out);
	for (int i = 0; i < nkept; i++) free(kept[i]);
}
int main(void) { seqUse(); return seqLoop(script, 10); }
