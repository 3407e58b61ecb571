/* The file operations and the temporary files of file.c, on a scratch folder
 * whose whole content is recorded after every operation.
 * script = { op }; a folder and a form of writing its path: 0e 0p 1p 1s 1r 1a 1L3000
 *   0 working folder, 1 d1, 2 e.x, 3 none (does not exist at first), 4 d1/sub (neither),
 *   5 d1 beside the working folder
 *   forms: e empty, p plain, s with a slash at the end, r with ./ before, a absolute, L<n> of n bytes
 * file = folder form name, where the name T<i> is the i-th temporary file created
 * op: F kind n   a fault for the next operation
 *     C n        set the clock
 *     w file len diff | c file file | d file | m folder | z file | r file
 *     f master paths bytes | u master paths bytes | n master paths length | l master paths
 *     t name start length | g xPATH | p folderName name size | h file | e handle
 *     paths = count { folder form }  (-1: a null list) */
#include "io.h"
#include <sys/types.h>
#define DIRS 6
static char root[4096], dirReal[DIRS][4600];
static const char *dirName[DIRS] = { ".", "d1", "e.x", "none", "d1/sub", "../d1" };
static struct { int d; char name[300]; } temps[64];
static int nTemps;
static FILE *held[16]; static int nHeld;
static unsigned char pat(long i) { return (unsigned char)((i * 7 + 13) ^ (i >> 8)); }
static void content(const char *path, long *len, long *diff) {
	FILE *f = fopen(path, "rb"); int c; long i = 0, d = -1;
	*len = -1; *diff = -2;
	if (f == NULL) return;
	while ((c = fgetc(f)) != EOF) {
		if (c != pat(i)) { if (d == -1 && c == (pat(i) ^ 1)) d = i; else d = -3; }
		i++;
	}
	fclose(f);
	*len = i; *diff = d;
}
static int cmpName(const void *a, const void *b) { return strcmp(*(char*const*)a, *(char*const*)b); }
static void listing(void) {
	bool first = true;
	printf(",\"ls\":[");
	for (int d = 0; d < DIRS; d++) {
		DIR *dir = opendir(dirReal[d]); struct dirent *e; char *names[600]; int n = 0;
		if (dir == NULL) continue;
		while ((e = readdir(dir)) != NULL && n < 600) names[n++] = strdup(e->d_name);
		closedir(dir);
		qsort(names, (size_t)n, sizeof *names, cmpName);
		for (int i = 0; i < n; i++) {
			char p[5000]; struct stat st; long len, diff;
			snprintf(p, sizeof p, "%s/%s", dirReal[d], names[i]);
			if (stat(p, &st) == 0 && S_ISREG(st.st_mode)) {
				content(p, &len, &diff);
				printf("%s[%d,[", first ? "" : ",", d); first = false;
				for (char *q = names[i]; *q; q++) printf("%s%d", q == names[i] ? "" : ",", (unsigned char)*q);
				printf("],[%ld,%ld]]", len, diff);
			}
			free(names[i]);
		}
	}
	printf("],\"dirs\":[");
	first = true;
	for (int d = 0; d < DIRS; d++) {
		struct stat st;
		if (stat(dirReal[d], &st) == 0 && S_ISDIR(st.st_mode)) { printf("%s%d", first ? "" : ",", d); first = false; }
	}
	printf("]");
}
/* the path of a folder in the form asked for. Null terminated in a block of the exact size */
static char *folder(int *d) {
	char *t = tok(), out[6000];
	*d = *t - '0';
	if (*d < 0 || *d >= DIRS) seqDie("folder");
	switch (t[1]) {
	case 'e': out[0] = 0; break;
	case 'p': strcpy(out, dirName[*d]); break;
	case 's': sprintf(out, "%s/", dirName[*d]); break;
	case 'r': sprintf(out, "./%s", dirName[*d]); break;
	case 'a': strcpy(out, dirReal[*d]); break;
	case 'L': {
		long n = strtol(t + 2, NULL, 10), m = n - (long)strlen(dirName[*d]);
		if (m < 0 || m % 2 || n > 5900) seqDie("length");
		for (long i = 0; i < m; i++) out[i] = i % 2 ? '/' : '.';
		strcpy(out + m, dirName[*d]);
		break; }
	default: seqDie("form");
	}
	return strdup(out);
}
static char *fileName(int *d, const char **name) {
	char *f = folder(d), *t = tok();
	static char buf[3][300]; static int which;
	char *b = buf[which = (which + 1) % 3];
	if (*t == 'T' && t[1] >= '0' && t[1] <= '9') {
		int i = atoi(t + 1);
		if (i < nTemps) { strcpy(b, temps[i].name); if (temps[i].d >= 0 && temps[i].d != *d) { *d = temps[i].d; free(f); f = strdup(dirName[*d]); } }
		else strcpy(b, "missing");
	} else strcpy(b, t);
	*name = b;
	size_t n = strlen(f);
	char *out = malloc(n + strlen(b) + 2);
	sprintf(out, "%s%s%s", f, n && f[n - 1] != '/' ? "/" : "", b);
	free(f);
	return out;
}
static char **paths; static int pathDir[40], nPaths;
static void readPaths(void) {
	nPaths = (int)tokInt();
	paths = NULL;
	if (nPaths < 0) return;
	paths = malloc(sizeof(char*) * (size_t)(nPaths + !nPaths));
	for (int i = 0; i < nPaths; i++) paths[i] = folder(&pathDir[i]);
}
static void evPaths(void) {
	printf(",\"paths\":[");
	for (int i = 0; i < nPaths; i++) { size_t n = strlen(paths[i]); printf("%s[%d,%zu]", i ? "," : "", pathDir[i], n == 0 ? 0 : n + (paths[i][n - 1] != '/')); }
	printf("]");
}
static void freePaths(void) { for (int i = 0; i < nPaths; i++) free(paths[i]); free(paths); paths = NULL; nPaths = 0; }
static void evFile(const char *k, int d, const char *name) { printf(",\"%s\":%d", k, d); char b[20]; snprintf(b, sizeof b, "%sn", k); evSeq(b, name, (long)strlen(name)); }
/* where a path leads */
static int whereIs(const char *path, const char **name) {
	static char dir[10000]; char real[8192];
	if (strlen(path) >= sizeof dir) { *name = ""; return -1; }
	strcpy(dir, path);
	char *s = strrchr(dir, '/');
	*name = s ? path + (s - dir) + 1 : path;
	if (s) s[s == dir] = 0; else strcpy(dir, ".");
	if (realpath(dir, real) == NULL) return -1;
	for (int d = 0; d < DIRS; d++) if (strcmp(real, dirReal[d]) == 0) return d;
	return -1;
}
static void evWhere(const char *path) {
	const char *name; int d = whereIs(path, &name);
	printf(",\"len\":%zu", strlen(path)); evFile("to", d, name);
}
static void remember(const char *path) {
	const char *name; int d = whereIs(path, &name);
	if (nTemps < 64 && strlen(name) < 300) { temps[nTemps].d = d; strcpy(temps[nTemps].name, name); nTemps++; }
}
static void done(const char *st) {
	bool f = ioDisarm();
	printf(",\"st\":\"%s\",\"fault\":%d,\"open\":%ld,\"odirs\":%d,\"live\":%ld,\"outside\":%d", st, f, ioOpen, ioDirs, seqLive, ioOutside);
	mode_t mask = umask(022);
	printf(",\"mask\":%d", mask == 022);
	listing(); evEnd();
	ioOutside = 0;
}
static void wipe(void) {
	for (int d = DIRS - 1; d >= 0; d--) {
		DIR *dir = opendir(dirReal[d]); struct dirent *e;
		if (dir == NULL) continue;
		while ((e = readdir(dir)) != NULL) {
			char p[5000]; struct stat st;
			snprintf(p, sizeof p, "%s/%s", dirReal[d], e->d_name);
			if (lstat(p, &st) == 0 && !S_ISDIR(st.st_mode)) unlink(p);
		}
		closedir(dir);
		if (d == 3 || d == 4) rmdir(dirReal[d]);
	}
}
static void script(void) {
	char *t, kind = '-'; long nth = 0;
	ioReset(); wipe(); nTemps = 0; nHeld = 0;
	char pid[30]; sprintf(pid, "%d", (int)getpid());
	evBegin("\"e\":\"start\""); evSeq("pid", pid, (long)strlen(pid)); listing(); evEnd();
	while ((t = tokOpt()) != NULL) {
		char op = *t;
		int d = 0, d2 = 0; const char *n = "", *n2 = ""; char *p = NULL, *p2 = NULL;
		switch (op) {
		case 'F': kind = *tok(); nth = tokInt(); continue;
		case 'C': ioClock = tokInt(); ioTicks = 0; continue;
		case 'w': {
			p = fileName(&d, &n); long len = tokInt(), diff = tokInt();
			unsigned char *b = malloc((size_t)(len + !len));
			for (long i = 0; i < len; i++) b[i] = pat(i) ^ (i == diff);
			ioArm(kind, nth);
			fiftyoneDegreesStatusCode st = fiftyoneDegreesFileWrite(p, b, (size_t)len);
			evBegin("\"e\":\"write\",\"c\":[%ld,%ld]", len, diff < len ? diff : -1); evFile("d", d, n);
			done(stName(st)); free(b);
			break; }
		case 'c': {
			p = fileName(&d, &n); p2 = fileName(&d2, &n2);
			ioArm(kind, nth);
			fiftyoneDegreesStatusCode st = fiftyoneDegreesFileCopy(p, p2);
			evBegin("\"e\":\"copy\""); evFile("d", d, n); evFile("to", d2, n2);
			done(stName(st));
			break; }
		case 'd': {
			p = fileName(&d, &n);
			ioArm(kind, nth);
			fiftyoneDegreesStatusCode st = fiftyoneDegreesFileDelete(p);
			evBegin("\"e\":\"delete\""); evFile("d", d, n);
			done(stName(st));
			break; }
		case 'm': {
			p = folder(&d);
			fiftyoneDegreesStatusCode st = fiftyoneDegreesFileCreateDirectory(p);
			evBegin("\"e\":\"mkdir\",\"d\":%d", d);
			done(stName(st));
			break; }
		case 'z': {
			p = fileName(&d, &n);
			ioArm(kind, nth);
			long s = fiftyoneDegreesFileGetSize(p);
			evBegin("\"e\":\"size\",\"r\":%ld", s); evFile("d", d, n);
			done("ok");
			break; }
		case 'r': {
			p = fileName(&d, &n);
			fiftyoneDegreesMemoryReader r; memset(&r, 0, sizeof r);
			ioArm(kind, nth);
			fiftyoneDegreesStatusCode st = fiftyoneDegreesFileReadToByteArray(p, &r);
			long len = -1, diff = -1;
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) {
				len = (long)r.length;
				if (r.current != r.startByte || r.lastByte != r.startByte + r.length) len = -7;
				else for (long i = 0; i < len; i++) if (r.startByte[i] != pat(i)) { if (diff == -1 && r.startByte[i] == (pat(i) ^ 1)) diff = i; else diff = -3; }
				fiftyoneDegreesFree(r.startByte);
			}
			evBegin("\"e\":\"read\",\"left\":%d,\"c\":[%ld,%ld]", r.startByte != NULL || r.current != NULL, len, diff); evFile("d", d, n);
			done(stName(st));
			break; }
		case 'f': {
			p = fileName(&d, &n); readPaths(); long bytes = tokInt();
			char *dest = malloc(FIFTYONE_DEGREES_FILE_MAX_PATH); dest[0] = 0;
			ioArm(kind, nth);
			bool found = fiftyoneDegreesFileGetExistingTempFile(p, (const char**)paths, nPaths < 0 ? 0 : nPaths, bytes, dest);
			evBegin("\"e\":\"find\",\"ok\":%d,\"bytes\":%ld", found, bytes); evFile("d", d, n); evPaths(); evWhere(dest);
			done("ok"); free(dest); freePaths();
			break; }
		case 'u': {
			p = fileName(&d, &n); readPaths(); long bytes = tokInt();
			ioArm(kind, nth);
			int k = fiftyoneDegreesFileDeleteUnusedTempFiles(p, (const char**)paths, nPaths < 0 ? 0 : nPaths, bytes);
			evBegin("\"e\":\"unused\",\"r\":%d,\"bytes\":%ld", k, bytes); evFile("d", d, n); evPaths();
			done("ok"); freePaths();
			break; }
		case 'n': {
			p = fileName(&d, &n); readPaths(); long length = tokInt();
			char *dest = length > 0 ? malloc((size_t)length) : NULL; if (dest) { memset(dest, 'z', (size_t)length); dest[0] = 0; }
			ioArm(kind, nth);
			fiftyoneDegreesStatusCode st = fiftyoneDegreesFileNewTempFile(p, (const char**)paths, nPaths < 0 ? 0 : nPaths, dest, (size_t)length);
			if (st == FIFTYONE_DEGREES_STATUS_NOT_SET) st = FIFTYONE_DEGREES_STATUS_INVALID_COLLECTION_CONFIG;
			bool ended = dest != NULL && memchr(dest, 0, (size_t)length) != NULL;
			evBegin("\"e\":\"new\",\"length\":%ld,\"ended\":%d", length, ended); evFile("d", d, n); evPaths(); evWhere(ended ? dest : "");
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS && ended) remember(dest);
			done(stName(st)); free(dest); freePaths();
			break; }
		case 'l': {
			p = fileName(&d, &n); readPaths();
			char *dest = malloc(FIFTYONE_DEGREES_FILE_MAX_PATH); dest[0] = 0;
			ioArm(kind, nth);
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
			fiftyoneDegreesStatusCode st = fiftyoneDegreesFileCreateTempFile(p, (const char**)paths, nPaths < 0 ? 0 : nPaths, dest);
#pragma GCC diagnostic pop
			if (st == FIFTYONE_DEGREES_STATUS_NOT_SET) st = FIFTYONE_DEGREES_STATUS_INVALID_COLLECTION_CONFIG;
			evBegin("\"e\":\"legacy\""); evFile("d", d, n); evPaths(); evWhere(dest);
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) remember(dest);
			done(stName(st)); free(dest); freePaths();
			break; }
		case 't': {
			char *m = tok(); long start = tokInt(), length = tokInt();
			char *dest = malloc((size_t)(start + length + (start + length == 0))); memset(dest, 'q', (size_t)(start + length));
			/* what is before the name is a path which does not exist */
			ioArm(kind, nth);
			fiftyoneDegreesStatusCode st = fiftyoneDegreesFileAddTempFileName(m, dest, (size_t)start, (size_t)length);
			int before = 1; for (long i = 0; i < start; i++) if (dest[i] != 'q') before = 0;
			bool ended = memchr(dest + start, 0, (size_t)length) != NULL;
			evBegin("\"e\":\"name\",\"start\":%ld,\"length\":%ld,\"before\":%d,\"ended\":%d", start, length, before, ended);
			evSeq("m", m, (long)strlen(m)); evSeq("r", dest + start, ended ? (long)strlen(dest + start) : 0);
			done(stName(st)); free(dest);
			break; }
		case 'g': {
			char *s = tokStr(); const char *r = fiftyoneDegreesFileGetFileName(s);
			evBegin("\"e\":\"base\",\"at\":%ld", (long)(r - s)); evSeq("s", s, (long)strlen(s)); done("ok"); free(s);
			break; }
		case 'p': {
			char *f = tok(), *m = tok(); long size = tokInt();
			char *dest = malloc((size_t)(size + !size)); if (size) dest[0] = 0;
			ioArm(kind, nth);
			fiftyoneDegreesStatusCode st = fiftyoneDegreesFileGetPath(f, m, dest, (size_t)size);
			bool ended = size > 0 && memchr(dest, 0, (size_t)size) != NULL;
			evBegin("\"e\":\"path\",\"size\":%ld,\"ended\":%d,\"rlen\":%zu", size, ended, strlen(dirReal[0]));
			evSeq("f", f, (long)strlen(f)); evSeq("m", m, (long)strlen(m)); evWhere(ended ? dest : "");
			done(stName(st)); free(dest);
			break; }
		case 'h': {
			p = fileName(&d, &n); FILE *h = NULL;
			fiftyoneDegreesStatusCode st = fiftyoneDegreesFileOpen(p, &h);
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) { if (nHeld < 16) held[nHeld++] = h; else seqBad("handles"); }
			evBegin("\"e\":\"hold\""); evFile("d", d, n); done(stName(st));
			break; }
		case 'e': {
			int i = (int)tokInt();
			if (i < nHeld && held[i] != NULL) { vf_fclose(held[i]); held[i] = NULL; evBegin("\"e\":\"unhold\",\"i\":%d", i + 1); done("ok"); }
			break; }
		default: seqDie("op");
		}
		free(p); free(p2);
		kind = '-'; nth = 0;
	}
	for (int i = 0; i < nHeld; i++) if (held[i]) vf_fclose(held[i]);
	evBegin("\"e\":\"end\""); done("ok");
}
int main(int argc, char **argv) {
	if (argc < 2) return 77;
	seqUse();
	ioScratch(argv[1]);
	char p[5000];
	snprintf(p, sizeof p, "%s/vw", ioRoot); mkdir(p, 0700);
	if (chdir(p) != 0) seqDie("chdir");
	mkdir("d1", 0700); mkdir("e.x", 0700); mkdir("../d1", 0700);
	for (int d = 0; d < DIRS; d++) {
		if (d == 3) snprintf(dirReal[d], sizeof dirReal[d], "%s/vw/none", ioRoot);
		else if (d == 4) snprintf(dirReal[d], sizeof dirReal[d], "%s/vw/d1/sub", ioRoot);
		else { char r[4600]; if (realpath(dirName[d], r) == NULL) seqDie("realpath"); strcpy(dirReal[d], r); }
	}
	umask(022);
	return seqLoop(script, 60);
}
