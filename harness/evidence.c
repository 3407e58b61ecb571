/* Headers, evidence and pseudo headers.
 * ops: H upper fault n count { id name }   L key   U id   P name
 *      E cap extra fault n   A prefix field value   R  I mask stop   M key   N bit
 *      Z size n order...   z   Y */
#include "io.h"
typedef struct { int n; long *id; char **name; int out; } Names;
static Names names;
static fiftyoneDegreesHeaders *headers; static fiftyoneDegreesEvidenceKeyValuePairArray *evidence;
static void *kept[65536]; static int nkept;
static void *keep(void *p) { if (nkept < 65536) kept[nkept++] = p; return p; }
static void released(fiftyoneDegreesCollectionItem *item) { free(item->data.ptr); item->data.ptr = NULL; names.out--; }
static fiftyoneDegreesCollection source;
static long getName(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	Names *s = state;
	if (i >= (uint32_t)s->n) return -1;
	/* a copy of the name, which is gone once it is released */
	size_t len = strlen(s->name[i]);
	fiftyoneDegreesString *str = malloc(sizeof(int16_t) + len + 1 > sizeof(fiftyoneDegreesString) ? sizeof(int16_t) + len + 1 : sizeof(fiftyoneDegreesString));
	str->size = (int16_t)(len + 1); memcpy(&str->value, s->name[i], len + 1);
	item->data.ptr = str; item->data.used = 1; item->data.allocated = 0; item->collection = &source; item->handle = NULL;
	s->out++;
	return s->id[i];
}
static void str(const char *k, const char *s) { evSeq(k, s, s ? (long)strlen(s) : 0); }
typedef struct { int stop, seen, parsed; } It;
static void pairOut(fiftyoneDegreesEvidenceKeyValuePair *p) {
	printf("{\"prefix\":%d", p->prefix); str("field", p->field); str("value", p->originalValue); printf("}");
}
static bool visit(void *state, fiftyoneDegreesEvidenceKeyValuePair *p) {
	It *it = state;
	if (it->seen++) printf(",");
	pairOut(p);
	if (p->parsedValue == p->originalValue) it->parsed++;
	return it->stop == 0 || it->seen < it->stop;
}
static int bufSize;
static void freePseudo(void) {
	if (evidence == NULL) return;
	if (evidence->pseudoEvidence != NULL) {
		for (uint32_t i = 0; i < evidence->pseudoEvidence->capacity; i++) free((void*)evidence->pseudoEvidence->items[i].originalValue);
		fiftyoneDegreesEvidenceFree(evidence->pseudoEvidence);
	}
	fiftyoneDegreesEvidenceFree(evidence);
	evidence = NULL;
}
static void script(void) {
	char *t;
	headers = NULL; evidence = NULL; nkept = 0; names.n = 0; names.out = 0; bufSize = 0;
	memset(&source, 0, sizeof source); source.release = released;
	while ((t = tokOpt()) != NULL) {
		FIFTYONE_DEGREES_EXCEPTION_CREATE
		switch (*t) {
		case 'H': {
			int upper = (int)tokInt(); char fk = *tok(); long fn = tokInt();
			fiftyoneDegreesHeadersFree(headers);
			names.n = (int)tokInt(); names.out = 0;
			names.id = keep(calloc((size_t)names.n + 1, sizeof(long))); names.name = keep(calloc((size_t)names.n + 1, sizeof(char*)));
			for (int i = 0; i < names.n; i++) { names.id[i] = tokInt(); names.name[i] = keep(tokStr()); }
			ioArm(fk, fn);
			headers = fiftyoneDegreesHeadersCreate(upper, &names, getName);
			int fired = ioDisarm();
			evBegin("\"e\":\"headers\",\"upper\":%d,\"fired\":%d,\"out\":%d,\"ok\":%d,\"names\":[", upper, fired, names.out, headers != NULL);
			for (int i = 0; i < names.n; i++) { printf("%s{\"id\":%ld", i ? "," : "", names.id[i]); str("name", names.name[i]); printf("}"); }
			printf("],\"list\":[");
			for (uint32_t i = 0; headers && i < headers->count; i++) {
				fiftyoneDegreesHeader *h = &headers->items[i];
				printf("%s{\"data\":%d,\"id\":%u,\"len\":%d,\"segs\":[", i ? "," : "", h->isDataSet, h->uniqueId, (int)h->nameLength);
				for (uint32_t j = 0; j < h->segments->count; j++) {
					printf("%s[", j ? "," : "");
					for (size_t k = 0; k < h->segments->items[j].length; k++) printf("%s%d", k ? "," : "", (unsigned char)h->segments->items[j].segment[k]);
					printf("]");
				}
				printf("]"); str("name", h->name); printf("}");
			}
			printf("],\"pseudo\":%d", headers ? (int)headers->pseudoHeadersCount : 0);
			evEnd();
			break; }
		case 'L': {
			/* the key has no terminator, its length is given */
			long n; char *with = keep(tokStr()); n = (long)strlen(with);
			char *k = malloc((size_t)n + (n == 0)); memcpy(k, with, (size_t)n);
			if (headers == NULL) { free(k); break; }
			int r = fiftyoneDegreesHeaderGetIndex(headers, k, (size_t)n);
			fiftyoneDegreesEvidenceKeyValuePair p = { FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, with, NULL, NULL };
			evBegin("\"e\":\"index\",\"r\":%d,\"http\":%d", r, fiftyoneDegreesHeadersIsHttp(headers, &p)); str("key", with); evEnd();
			free(k);
			break; }
		case 'U': {
			long id = tokInt();
			if (headers == NULL) break;
			fiftyoneDegreesHeader *h = fiftyoneDegreesHeadersGetHeaderFromUniqueId(headers, (uint32_t)id);
			ev("\"e\":\"id\",\"id\":%ld,\"r\":%d", id, h ? (int)(h - headers->items) : -1);
			break; }
		case 'P': {
			char *n = keep(tokStr());
			evBegin("\"e\":\"ispseudo\",\"r\":%d", fiftyoneDegreesHeadersIsPseudo(n)); str("name", n); evEnd();
			break; }
		case 'E': {
			int cap = (int)tokInt(), extra = (int)tokInt(); bufSize = (int)tokInt(); char fk = *tok(); long fn = tokInt();
			freePseudo();
			ioArm(fk, fn);
			evidence = fiftyoneDegreesEvidenceCreate((uint32_t)cap);
			int fired = ioDisarm(), pcap = headers ? (int)headers->pseudoHeadersCount + extra : 0;
			if (evidence && pcap > 0) {
				evidence->pseudoEvidence = fiftyoneDegreesEvidenceCreate((uint32_t)pcap);
				for (int i = 0; i < pcap; i++) {
					char *b = malloc((size_t)bufSize); memset(b, 0, (size_t)bufSize);
					evidence->pseudoEvidence->items[i].originalValue = b;
				}
			}
			ev("\"e\":\"evidence\",\"cap\":%d,\"pcap\":%d,\"fired\":%d,\"ok\":%d", cap, pcap, fired, evidence != NULL);
			break; }
		case 'A': {
			int prefix = (int)tokInt(); char *f = keep(tokStr()), *v = keep(tokStr());
			if (evidence == NULL) break;
			fiftyoneDegreesEvidenceKeyValuePair *p = fiftyoneDegreesEvidenceAddString(evidence, prefix, f, v);
			evBegin("\"e\":\"add\",\"prefix\":%d,\"ok\":%d,\"count\":%u", prefix, p != NULL, evidence->count);
			str("field", f); str("value", v); evEnd();
			break; }
		case 'R':
			/* the array is used again for another set of evidence */
			if (evidence == NULL) break;
			evidence->count = 0;
			ev("\"e\":\"again\"%s", "");
			break;
		case 'I': {
			int mask = (int)tokInt(); It it = { (int)tokInt(), 0, 0 };
			if (evidence == NULL) break;
			evBegin("\"e\":\"iterate\",\"mask\":%d,\"stop\":%d,\"seen\":[", mask, it.stop);
			uint32_t n = fiftyoneDegreesEvidenceIterate(evidence, mask, &it, visit);
			printf("],\"count\":%u,\"parsed\":%d", n, it.parsed); evEnd();
			break; }
		case 'M': {
			char *k = keep(tokStr());
			fiftyoneDegreesEvidencePrefixMap *m = fiftyoneDegreesEvidenceMapPrefix(k);
			evBegin("\"e\":\"map\",\"r\":%d", m ? (int)m->prefixEnum : 0); str("key", k); evEnd();
			break; }
		case 'N': {
			int bit = (int)tokInt();
			evBegin("\"e\":\"name\",\"bit\":%d", bit); str("r", fiftyoneDegreesEvidencePrefixString(bit)); evEnd();
			break; }
		case 'Z': {
			int n = (int)tokInt(); fiftyoneDegreesEvidencePrefix order[8];
			for (int i = 0; i < n; i++) order[i] = (int)tokInt();
			if (evidence == NULL || headers == NULL || evidence->pseudoEvidence == NULL) break;
			fiftyoneDegreesPseudoHeadersAddEvidence(evidence, headers, (size_t)bufSize, order, (size_t)n, exception);
			evBegin("\"e\":\"addpseudo\",\"size\":%d,\"st\":\"%s\",\"order\":[", bufSize, exName(exception));
			for (int i = 0; i < n; i++) printf("%s%d", i ? "," : "", order[i]);
			printf("],\"items\":[");
			for (uint32_t i = 0; i < evidence->pseudoEvidence->count; i++) { if (i) printf(","); pairOut(&evidence->pseudoEvidence->items[i]); }
			printf("]"); evEnd();
			break; }
		case 'z':
			fiftyoneDegreesPseudoHeadersAddEvidence(NULL, headers, 10, NULL, 0, exception);
			ev("\"e\":\"addpseudonull\",\"st\":\"%s\"", exName(exception));
			break;
		case 'Y': {
			if (evidence == NULL || evidence->pseudoEvidence == NULL) break;
			uint32_t had = evidence->pseudoEvidence->count; int dirty = 0;
			fiftyoneDegreesPseudoHeadersRemoveEvidence(evidence, (size_t)bufSize);
			for (uint32_t i = 0; i < had; i++) {
				if (evidence->pseudoEvidence->items[i].field != NULL) dirty++;
				for (int k = 0; k < bufSize; k++) if (((char*)evidence->pseudoEvidence->items[i].originalValue)[k]) dirty++;
			}
			ev("\"e\":\"removepseudo\",\"count\":%u,\"dirty\":%d", evidence->pseudoEvidence->count, dirty);
			break; }
		default: seqDie("op");
		}
	}
	freePseudo();
	fiftyoneDegreesHeadersFree(headers);
	ev("\"e\":\"end\",\"live\":%ld", seqLive);
	for (int i = 0; i < nkept; i++) free(kept[i]);
}
int main(void) { seqUse(); return seqLoop(script, 10); }
