/* Stand-ins for the file functions which the library calls in the "fault"
 * builds: the n-th call of a kind can be made to fail, open files are counted,
 * and files are only opened, created or removed below the scratch folder (or read
 * only, elsewhere). */
#ifndef VF_IO_H
#define VF_IO_H
#include "seq.h"
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
enum { IO_OPEN, IO_READ, IO_SEEK, IO_TELL, IO_WRITE, IO_REMOVE, IO_DIR, IO_CLOSE, IO_KINDS };
static long ioFail[IO_KINDS], ioCount[IO_KINDS], ioOpen;
static bool ioFired;
static FILE *ioError;
static bool ioPart; /* half of what is read or written before the failure */
static char ioRoot[4096];
static int ioOutside;
static bool ioHit(int k) {
	ioCount[k]++;
	if (ioFail[k] > 0 && --ioFail[k] == 0) { ioFired = true; return true; }
	return false;
}
static bool ioBelow(const char *path) {
	char dir[8192], real[8192];
	if (ioRoot[0] == 0) return false;
	if (strlen(path) >= sizeof dir) return true;
	strcpy(dir, path);
	char *s = strrchr(dir, '/');
	if (s != NULL) *s = 0; else strcpy(dir, ".");
	if (*dir == 0) strcpy(dir, "/");
	/* nothing can be created or removed where there is no folder */
	if (realpath(dir, real) == NULL) return errno == ENOENT || errno == ENAMETOOLONG || errno == ENOTDIR;
	size_t n = strlen(ioRoot);
	return strncmp(real, ioRoot, n) == 0 && (real[n] == 0 || real[n] == '/');
}
FILE *vf_fopen(const char *p, const char *m) {
	if (strpbrk(m, "wa+") && !ioBelow(p)) { ioOutside++; errno = EACCES; return NULL; }
	if (ioHit(IO_OPEN)) { errno = ENOENT; return NULL; }
	FILE *f = fopen(p, m);
	if (f) ioOpen++;
	return f;
}
/* only a file which was written to can fail to be closed: its last bytes are lost */
static FILE *ioWritten;
int vf_fclose(FILE *f) {
	bool lost = f == ioWritten && ioHit(IO_CLOSE);
	if (f == ioError) ioError = NULL;
	if (f == ioWritten) ioWritten = NULL;
	ioOpen--;
	if (lost) { fflush(f); long n = ftell(f); if (n > 0 && ftruncate(fileno(f), n - 1) != 0) seqDie("truncate"); fclose(f); errno = ENOSPC; return EOF; }
	return fclose(f);
}
int vf_ferror(FILE *f) { return f == ioError || ferror(f); }
/* the clock only moves when it is asked for the time */
static long ioClock = -1, ioTicks;
int vf_clock_gettime(clockid_t id, struct timespec *t) {
	if (ioClock < 0) return clock_gettime(id, t);
	t->tv_sec = 0; t->tv_nsec = ioClock;
	if (++ioTicks % 3 == 0) ioClock++;
	return 0;
}
size_t vf_fread(void *b, size_t s, size_t n, FILE *f) { if (s == 0 || n == 0) return 0; if (ioHit(IO_READ)) { ioError = f; return ioPart ? fread(b, s, n / 2, f) : 0; } return fread(b, s, n, f); }
size_t vf_fwrite(const void *b, size_t s, size_t n, FILE *f) { if (s == 0 || n == 0) return 0; ioWritten = f; if (ioHit(IO_WRITE)) { errno = ENOSPC; return ioPart ? fwrite(b, s, n / 2, f) : 0; } return fwrite(b, s, n, f); }
int vf_fseek(FILE *f, long o, int w) { if (ioHit(IO_SEEK)) { errno = EIO; return -1; } return fseek(f, o, w); }
long vf_ftell(FILE *f) { if (ioHit(IO_TELL)) { errno = EIO; return -1; } return ftell(f); }
int vf_remove(const char *p) { if (!ioBelow(p)) { ioOutside++; errno = EACCES; return -1; } if (ioHit(IO_REMOVE)) { errno = EBUSY; return -1; } return remove(p); }
int vf_unlink(const char *p) { return vf_remove(p); }
static int ioDirs;
DIR *vf_opendir(const char *p) { if (ioHit(IO_DIR)) return NULL; DIR *d = opendir(p); if (d) ioDirs++; return d; }
int vf_closedir(DIR *d) { ioDirs--; return closedir(d); }
int vf_mkdir(const char *p, mode_t m) { if (!ioBelow(p)) { ioOutside++; errno = EACCES; return -1; } return mkdir(p, m); }
static void ioReset(void) {
	memset(ioFail, 0, sizeof ioFail); memset(ioCount, 0, sizeof ioCount);
	ioOpen = 0; ioFired = false; ioError = NULL; ioWritten = NULL; ioClock = -1; ioOutside = 0; ioDirs = 0;
}
/* a kind letter and a number: the n-th call of the kind fails (a: allocation) */
static void ioArm(char kind, long n) {
	ioFired = false; seqFailed = false; seqFailAt = 0; memset(ioFail, 0, sizeof ioFail);
	ioPart = kind == 'R' || kind == 'W';
	switch (kind) {
	case 'a': seqFailAt = n; break;
	case 'o': ioFail[IO_OPEN] = n; break;
	case 'r': case 'R': ioFail[IO_READ] = n; break;
	case 's': ioFail[IO_SEEK] = n; break;
	case 't': ioFail[IO_TELL] = n; break;
	case 'w': case 'W': ioFail[IO_WRITE] = n; break;
	case 'm': ioFail[IO_REMOVE] = n; break;
	case 'd': ioFail[IO_DIR] = n; break;
	case 'c': ioFail[IO_CLOSE] = n; break;
	case '-': break;
	default: seqDie("fault kind");
	}
}
static bool ioDisarm(void) {
	bool f = ioFired || seqFailed;
	ioFired = false; seqFailed = false; seqFailAt = 0; memset(ioFail, 0, sizeof ioFail);
	return f;
}
/* a scratch folder of this process below the current directory */
static char ioDir[4200];
static void ioScratch(const char *base) {
	snprintf(ioDir, sizeof ioDir, "%s/p%d", base, (int)getpid());
	if (mkdir(ioDir, 0700) != 0 && errno != EEXIST) seqDie("scratch folder");
	if (realpath(ioDir, ioRoot) == NULL) seqDie("scratch folder path");
}
static const char *stName(fiftyoneDegreesStatusCode s) {
	switch (s) {
	case FIFTYONE_DEGREES_STATUS_SUCCESS: case FIFTYONE_DEGREES_STATUS_NOT_SET: return "ok";
	case FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY: return "nomem";
	case FIFTYONE_DEGREES_STATUS_CORRUPT_DATA: return "corrupt";
	case FIFTYONE_DEGREES_STATUS_INCORRECT_VERSION: return "version";
	case FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND: return "notfound";
	case FIFTYONE_DEGREES_STATUS_FILE_FAILURE: return "filefail";
	case FIFTYONE_DEGREES_STATUS_POINTER_OUT_OF_BOUNDS: return "bounds";
	case FIFTYONE_DEGREES_STATUS_NULL_POINTER: return "nullptr";
	case FIFTYONE_DEGREES_STATUS_COLLECTION_FAILURE: return "collection";
	case FIFTYONE_DEGREES_STATUS_FILE_COPY_ERROR: return "copy";
	case FIFTYONE_DEGREES_STATUS_FILE_EXISTS_ERROR: return "exists";
	case FIFTYONE_DEGREES_STATUS_FILE_WRITE_ERROR: return "write";
	case FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR: return "readerr";
	case FIFTYONE_DEGREES_STATUS_FILE_PATH_TOO_LONG: return "toolong";
	case FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES: return "nohandle";
	case FIFTYONE_DEGREES_STATUS_COLLECTION_INDEX_OUT_OF_RANGE: return "index";
	case FIFTYONE_DEGREES_STATUS_COLLECTION_OFFSET_OUT_OF_RANGE: return "offset";
	case FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_SEEK_FAIL: return "seek";
	case FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL: return "read";
	case FIFTYONE_DEGREES_STATUS_TEMP_FILE_ERROR: return "temp";
	case FIFTYONE_DEGREES_STATUS_REQ_PROP_NOT_PRESENT: return "reqprop";
	case FIFTYONE_DEGREES_STATUS_INVALID_CONFIG: return "config";
	default: return "other";
	}
}
static const char *exName(fiftyoneDegreesException *exception) {
	return FIFTYONE_DEGREES_EXCEPTION_OKAY ? "ok" : stName(exception->status);
}
#endif
