#ifndef VF_WRAPPERS_H
#define VF_WRAPPERS_H
typedef struct { int n; char **name; } HelpNames;
#ifdef __cplusplus
extern "C" {
#endif
fiftyoneDegreesPropertiesAvailable *helpAvailable(fiftyoneDegreesPropertiesRequired *required, HelpNames *names);
fiftyoneDegreesHeaders *helpHeaders(bool upper, HelpNames *names);
fiftyoneDegreesOverridePropertyArray *helpOverrides(fiftyoneDegreesPropertiesAvailable *a, bool prefix);
void helpOverridesFree(fiftyoneDegreesOverridePropertyArray *o);
fiftyoneDegreesCollection *helpStrings(FILE *f, fiftyoneDegreesFilePool *pool, uint32_t offset, uint32_t length);
void helpFree(fiftyoneDegreesCollection *c);
#ifdef __cplusplus
}
#endif
#endif
