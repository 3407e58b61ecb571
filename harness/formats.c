/* Drives the functions which read text formats: addresses (ip.c), text files
 * (textfile.c), yaml files (yamlfile.c), strings (string.c), floats (float.c)
 * and the messages of statuses (status.c, exceptionsc.c). */
#include "io.h"
#include <math.h>
#include <sys/wait.h>
static char path[5000];
static void putFile(const unsigned char *b, long n) {
	FILE *f = fopen(path, "wb");
	if (f == NULL || (n && fwrite(b, 1, (size_t)n, f) != (size_t)n) || fclose(f)) seqDie("scratch file");
}
static void printBytes(const void *p, long n) {
	printf("[");
	for (long i = 0; i < n; i++) printf("%s%d", i ? "," : "", ((const unsigned char*)p)[i]);
	printf("]");
}
static void printIp(const fiftyoneDegreesEvidenceIpAddress *a) {
	printf("{\"type\":%d,\"b\":", (int)a->type);
	printBytes(a->address, a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 ? 16 : 0);
	printf("}");
}
/* ---- lines and documents given to the callbacks */
static long seen;
static void onLine(const char *s, void *state) {
	if (state != (void*)&seen) seqBad("state");
	printf("%s", seen++ ? "," : ""); printBytes(s, (long)strlen(s));
}
static fiftyoneDegreesKeyValuePair *pairs;
static void onDoc(fiftyoneDegreesKeyValuePair *p, uint16_t n, void *state) {
	if (state != (void*)&seen || p != pairs) seqBad("state");
	printf("%s[", seen++ ? "," : "");
	for (int i = 0; i < n; i++) {
		printf("%s{\"k\":", i ? "," : ""); printBytes(p[i].key, (long)strlen(p[i].key));
		printf(",\"v\":"); printBytes(p[i].value, (long)strlen(p[i].value)); printf("}");
	}
	printf("]");
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void parts(const char *p, fiftyoneDegreesFloatInternal f) {
	fiftyoneDegreesFloatU u; u.fValue = f;
	printf(",\"%s\":[%u,%u,%u]", p, (unsigned)u.parts.sign, (unsigned)u.parts.exponent, (unsigned)u.parts.mantissa);
}
static void script(void) {
	char *op;
	while ((op = tokOpt()) != NULL) switch (*op) {
	case 'P': { /* one address, followed by more text */
		long n; unsigned char *s = tokHexT(&n, true);
		char *k = tok(); long fn = tokInt(); ioArm(*k, fn);
		fiftyoneDegreesEvidenceIpAddress *a = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, (char*)s, (char*)s + n);
		int fired = ioDisarm();
		evBegin("\"e\":\"address\",\"fired\":%d,\"null\":%d", fired, a == NULL);
		evSeq("s", s, n);
		printf(",\"list\":["); if (a) printIp(a); printf("],\"next\":%d", a != NULL && a->next != NULL);
		if (a) fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, a);
		printf(",\"live\":%ld", seqLive); evEnd();
		free(s); break; }
	case 'L': {
		long n; unsigned char *s = tokHexT(&n, true);
		char *k = tok(); long fn = tokInt(); ioArm(*k, fn);
		fiftyoneDegreesEvidenceIpAddress *a = fiftyoneDegreesIpParseAddresses(fiftyoneDegreesMalloc, (char*)s);
		int fired = ioDisarm();
		evBegin("\"e\":\"addresses\",\"fired\":%ld", fired ? fn : 0L);
		evSeq("s", s, n);
		printf(",\"list\":[");
		int i = 0;
		for (fiftyoneDegreesEvidenceIpAddress *x = a; x != NULL; x = x->next) { printf("%s", i++ ? "," : ""); printIp(x); }
		printf("]");
		fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, a);
		printf(",\"live\":%ld", seqLive); evEnd();
		free(s); break; }
	case 'K': {
		long n, m; unsigned char *a = tokBytes(&n), *b = tokBytes(&m); int t = (int)tokInt();
		evBegin("\"e\":\"compareip\",\"type\":%d,\"r\":%d", t, sgn(fiftyoneDegreesCompareIpAddresses(a, b, (fiftyoneDegreesEvidenceIpType)t)));
		evSeq("a", a, n); evSeq("b", b, m); evEnd();
		free(a); free(b); break; }
	case 'T': {
		long n; unsigned char *b = tokBytes(&n); int len = (int)tokInt(), limit = (int)tokInt(), all = (int)tokInt();
		putFile(b, n);
		char *buf = malloc((size_t)len); memset(buf, 0xA5, (size_t)len); seen = 0;
		evBegin("\"e\":\"text\",\"limit\":%d", all ? -1 : limit);
		evSeq("s", b, n);
		printf(",\"lines\":[");
		if (all) fiftyoneDegreesTextFileIterate(path, buf, len, &seen, onLine);
		else fiftyoneDegreesTextFileIterateWithLimit(path, buf, len, limit, &seen, onLine);
		printf("],\"live\":%ld,\"open\":%ld", seqLive, ioOpen); evEnd();
		free(buf); free(b); break; }
	case 'Y': {
		long n; unsigned char *b = tokBytes(&n); int len = (int)tokInt(), limit = (int)tokInt(), size = (int)tokInt(), kl = (int)tokInt(), vl = (int)tokInt(), all = (int)tokInt();
		char *k = tok(); long fn = tokInt();
		putFile(b, n);
		char *buf = malloc((size_t)len); memset(buf, 0xA5, (size_t)len); seen = 0;
		pairs = malloc(sizeof(*pairs) * (size_t)size);
		for (int i = 0; i < size; i++) {
			pairs[i].key = malloc((size_t)kl); pairs[i].keyLength = (size_t)kl; memset(pairs[i].key, 0xA5, (size_t)kl);
			pairs[i].value = malloc((size_t)vl); pairs[i].valueLength = (size_t)vl; memset(pairs[i].value, 0xA5, (size_t)vl);
		}
		evBegin("\"e\":\"yaml\",\"limit\":%d,\"size\":%d,\"kl\":%d,\"vl\":%d", all ? -1 : limit, size, kl, vl);
		evSeq("s", b, n);
		printf(",\"docs\":[");
		ioArm(*k, fn);
		fiftyoneDegreesStatusCode st = all ? fiftyoneDegreesYamlFileIterate(path, buf, (size_t)len, pairs, (uint16_t)size, &seen, onDoc)
			: fiftyoneDegreesYamlFileIterateWithLimit(path, buf, (size_t)len, pairs, (uint16_t)size, limit, &seen, onDoc);
		int fired = ioDisarm();
		printf("],\"st\":\"%s\",\"fired\":%d,\"live\":%ld,\"open\":%ld", stName(st), fired, seqLive, ioOpen); evEnd();
		for (int i = 0; i < size; i++) { free(pairs[i].key); free(pairs[i].value); }
		free(pairs); free(buf); free(b); break; }
	case 'y': { /* the same file with two buffers: anything may be in it */
		long n; unsigned char *b = tokBytes(&n); int lens[2]; lens[0] = (int)tokInt(); lens[1] = (int)tokInt();
		int limit = (int)tokInt(), size = (int)tokInt(), kl = (int)tokInt(), vl = (int)tokInt();
		putFile(b, n);
		evBegin("\"e\":\"yamlany\",\"limit\":%d,\"size\":%d,\"kl\":%d,\"vl\":%d", limit, size, kl, vl);
		evSeq("s", b, n);
		for (int j = 0; j < 2; j++) {
			char *buf = malloc((size_t)lens[j]); memset(buf, 0xA5, (size_t)lens[j]); seen = 0;
			pairs = malloc(sizeof(*pairs) * (size_t)size);
			for (int i = 0; i < size; i++) {
				pairs[i].key = calloc(1, (size_t)kl); pairs[i].keyLength = (size_t)kl;
				pairs[i].value = calloc(1, (size_t)vl); pairs[i].valueLength = (size_t)vl;
			}
			printf(",\"%s\":[", j ? "again" : "docs");
			fiftyoneDegreesStatusCode st = fiftyoneDegreesYamlFileIterateWithLimit(path, buf, (size_t)lens[j], pairs, (uint16_t)size, limit, &seen, onDoc);
			printf("],\"st%d\":\"%s\"", j, stName(st));
			for (int i = 0; i < size; i++) { free(pairs[i].key); free(pairs[i].value); }
			free(pairs); free(buf);
		}
		printf(",\"live\":%ld,\"open\":%ld", seqLive, ioOpen); evEnd();
		free(b); break; }
	case 'S': {
		long n, m; unsigned char *a = tokHexT(&n, true), *b = tokHexT(&m, true); long len = tokInt();
		char *sub = fiftyoneDegreesStringSubString((char*)a, (char*)b);
		evBegin("\"e\":\"strings\",\"cmp\":%d,\"sub\":%ld", sgn(fiftyoneDegreesStringCompare((char*)a, (char*)b)), sub ? (long)(sub - (char*)a) : -1L);
		/* not terminated, and of exactly the length */
		if (len > n) len = n;
		if (len > m) len = m;
		char *x = malloc((size_t)len + (len == 0)), *y = malloc((size_t)len + (len == 0));
		memcpy(x, a, (size_t)len); memcpy(y, b, (size_t)len);
		printf(",\"len\":%ld,\"cmplen\":%d", len, sgn(fiftyoneDegreesStringCompareLength(x, y, (size_t)len)));
		evSeq("a", a, n); evSeq("b", b, m); evEnd();
		free(x); free(y); free(a); free(b); break; }
	case 'F': { /* bits of a float, and of another */
		uint32_t v = (uint32_t)strtoul(tok(), NULL, 10), w = (uint32_t)strtoul(tok(), NULL, 10);
		fiftyoneDegreesFloatInternal f, g, nat; memcpy(&f, &v, 4); memcpy(&g, &w, 4);
		float x = fiftyoneDegreesFloatToNative(f), y; memcpy(&nat, &x, 4); memcpy(&y, &v, 4);
		evBegin("\"e\":\"float\",\"eq\":%d,\"same\":%d", fiftyoneDegreesFloatIsEqual(f, g) != 0, v == w);
		parts("f", f); parts("native", nat); parts("from", fiftyoneDegreesNativeToFloat(y)); evEnd();
		break; }
	case 'M': {
		int st = (int)tokInt(); char *name = tokStr(); char *k = tok(); long fn = tokInt();
		char *file = tokStr(), *func = tokStr(); int line = (int)tokInt();
		ioArm(*k, fn);
		const char *none = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)st, "");
		const char *with = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)st, name);
		const char *null = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)st, NULL);
		fiftyoneDegreesException ex[1]; memset(ex, 0, sizeof ex);
		ex->status = (fiftyoneDegreesStatusCode)st; ex->file = file; ex->func = func; ex->line = line;
		const char *m = fiftyoneDegreesExceptionGetMessage(ex);
		int fired = ioDisarm();
		evBegin("\"e\":\"message\",\"status\":%d,\"fired\":%d", st, fired);
		char digits[16]; int dn = snprintf(digits, sizeof digits, "%d", line);
		evSeq("file", file, (long)strlen(file)); evSeq("func", func, (long)strlen(func)); evSeq("line", digits, dn);
		dn = snprintf(digits, sizeof digits, "%d", st); evSeq("code", digits, dn);
		evSeq("name", name, name ? (long)strlen(name) : 0); printf(",\"noname\":%d", name == NULL);
		evSeq("none", none, none ? (long)strlen(none) : 0); evSeq("with", with, with ? (long)strlen(with) : 0); evSeq("null", null, null ? (long)strlen(null) : 0); evSeq("full", m, m ? (long)strlen(m) : 0);
		fiftyoneDegreesFree((void*)none); fiftyoneDegreesFree((void*)with); fiftyoneDegreesFree((void*)m); fiftyoneDegreesFree((void*)null); free(name); free(file); free(func);
		printf(",\"live\":%ld", seqLive); evEnd();
		break; }
	case 'X': {
		/* a process of its own, as it may be ended */
		int st = (int)tokInt(); char *file = tokStr(), *func = tokStr(); int line = (int)tokInt(); int nomem = (int)tokInt();
		fiftyoneDegreesException ex[1]; memset(ex, 0, sizeof ex);
		ex->status = (fiftyoneDegreesStatusCode)st; ex->file = file; ex->func = func; ex->line = line;
		const char *m = fiftyoneDegreesExceptionGetMessage(ex);
		int to[2]; if (pipe(to) != 0) seqDie("pipe");
		fflush(stdout);
		pid_t child = fork();
		if (child < 0) seqDie("fork");
		if (child == 0) {
			close(0); close(1); dup2(to[1], 2); close(to[0]); close(to[1]);
			if (nomem) ioArm('a', nomem);
			fiftyoneDegreesExceptionCheckAndExit(ex);
			_exit(77);
		}
		close(to[1]);
		char *err = malloc(65536); long n = 0, k;
		while (n < 65536 && (k = read(to[0], err + n, (size_t)(65536 - n))) > 0) n += k;
		close(to[0]);
		int w = 0; waitpid(child, &w, 0);
		evBegin("\"e\":\"exit\",\"status\":%d,\"nomem\":%d,\"code\":%d", st, nomem, WIFEXITED(w) ? WEXITSTATUS(w) : -1);
		evSeq("full", m, m ? (long)strlen(m) : 0); evSeq("said", err, n); evEnd();
		free(err); fiftyoneDegreesFree((void*)m); free(file); free(func);
		break; }
	default: seqDie("op");
	}
	ev("\"e\":\"end\",\"live\":%ld,\"open\":%ld", seqLive, ioOpen);
	remove(path);
}
int main(int argc, char **argv) {
	seqUse();
	ioScratch(argv[1]);
	snprintf(path, sizeof path, "%s/text", ioDir);
	int r = seqLoop(script, 10);
	rmdir(ioDir);
	return r;
}
