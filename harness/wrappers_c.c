/* The parts of the C library which the driver of the C++ classes needs. */
#include "pool.h"
#include "fiftyone.h"
#include <string.h>
#include <stdlib.h>
#include "wrappers.h"
static fiftyoneDegreesCollection source;
static void released(fiftyoneDegreesCollectionItem *item) { free(item->data.ptr); item->data.ptr = NULL; }
static fiftyoneDegreesString *give(const char *s, fiftyoneDegreesCollectionItem *item) {
	size_t len = strlen(s), size = sizeof(int16_t) + len + 1;
	fiftyoneDegreesString *r = malloc(size > sizeof(fiftyoneDegreesString) ? size : sizeof(fiftyoneDegreesString));
	r->size = (int16_t)(len + 1); memcpy(&r->value, s, len + 1);
	source.release = released;
	item->data.ptr = (byte*)r; item->data.used = 1; item->data.allocated = 0; item->collection = &source; item->handle = NULL;
	return r;
}
static fiftyoneDegreesString *getName(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	HelpNames *n = state;
	return i < (uint32_t)n->n ? give(n->name[i], item) : NULL;
}
static uint32_t noEvidence(void *state, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) { return 0; }
static long getHeader(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	HelpNames *n = state;
	if (i >= (uint32_t)n->n) return -1;
	give(n->name[i], item);
	return 10 + i;
}
fiftyoneDegreesPropertiesAvailable *helpAvailable(fiftyoneDegreesPropertiesRequired *required, HelpNames *names) {
	return fiftyoneDegreesPropertiesCreate(required, names, getName, noEvidence);
}
fiftyoneDegreesHeaders *helpHeaders(bool upper, HelpNames *names) { return fiftyoneDegreesHeadersCreate(upper, names, getHeader); }
static bool all(void *state, uint32_t i) { return true; }
fiftyoneDegreesOverridePropertyArray *helpOverrides(fiftyoneDegreesPropertiesAvailable *a, bool prefix) {
	return fiftyoneDegreesOverridePropertiesCreate(a, prefix, NULL, all);
}
void helpOverridesFree(fiftyoneDegreesOverridePropertyArray *o) { fiftyoneDegreesOverridePropertiesFree(o); }
fiftyoneDegreesCollection *helpStrings(FILE *f, fiftyoneDegreesFilePool *pool, uint32_t offset, uint32_t length) {
	fiftyoneDegreesCollectionConfig q = { 0, 0, 1 };
	fiftyoneDegreesCollectionHeader h = { offset, length, 0 };
	return fiftyoneDegreesCollectionCreateFromFile(f, pool, &q, h, fiftyoneDegreesStringRead);
}
void helpFree(fiftyoneDegreesCollection *c) { c->freeCollection(c); }
