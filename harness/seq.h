/* Common parts of the drivers which interpret a script per input line and
 * answer with a JSON array of events per line. */
#ifndef VF_SEQ_H
#define VF_SEQ_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include "fiftyone.h"

/* ---- events */
static int seqN;
#define SEQ_MAXEV 20000 /* more are answers without end */
static void ev(const char *fmt, ...) {
	va_list ap;
	if (seqN >= SEQ_MAXEV) abort();
	fputs(seqN++ ? ",{" : "{", stdout);
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
	fputc('}', stdout);
	fflush(stdout);
}
/* pieces of an event */
static void evBegin(const char *fmt, ...) {
	va_list ap;
	if (seqN >= SEQ_MAXEV) abort();
	fputs(seqN++ ? ",{" : "{", stdout);
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
}
static void evEnd(void) { fputc('}', stdout); fflush(stdout); }
/* a string of bytes as "x4142" ; "null" for a null pointer */
static void evHex(const char *name, const void *p, long n) {
	if (p == NULL) { printf(",\"%s\":\"null\"", name); return; }
	printf(",\"%s\":\"x", name);
	for (long i = 0; i < n; i++) printf("%02x", ((const unsigned char*)p)[i]);
	printf("\"");
}
/* bytes as a sequence of integers */
static void evSeq(const char *name, const void *p, long n) {
	printf(",\"%s\":[", name);
	for (long i = 0; p != NULL && i < n; i++) printf("%s%d", i ? "," : "", ((const unsigned char*)p)[i]);
	printf("]");
}
/* ---- tokens */
static char *seqTok;
static void seqDie(const char *m) { fprintf(stderr, "driver: %s\n", m); fflush(stderr); _exit(77); }
/* what only the code under test can be the reason of: a crash event */
static void seqBad(const char *m) { fprintf(stderr, "driver: %s\n", m); fflush(stderr); abort(); }
static char *tokOpt(void) {
	while (*seqTok == ' ') seqTok++;
	if (*seqTok == 0) return NULL;
	char *s = seqTok;
	while (*seqTok && *seqTok != ' ') seqTok++;
	if (*seqTok) *seqTok++ = 0;
	return s;
}
static char *tok(void) { char *s = tokOpt(); if (s == NULL) seqDie("script ends early"); return s; }
static long tokInt(void) { return strtol(tok(), NULL, 10); }
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
/* decodes xHEX to a buffer of exactly the size (plus a terminator when asked),
 * so that the sanitizer sees each byte read beyond it. "-" is NULL. */
static unsigned char *tokHexT(long *len, bool term) {
	char *s = tok();
	if (*s == '-') { if (len) *len = 0; return NULL; }
	if (*s != 'x') seqDie("bad hex");
	long n = (long)(strlen(s + 1) / 2);
	unsigned char *b = malloc((size_t)n + (term ? 1 : 0) + (n + term == 0));
	for (long i = 0; i < n; i++) b[i] = (unsigned char)(hexv(s[1 + 2 * i]) * 16 + hexv(s[2 + 2 * i]));
	if (term) b[n] = 0;
	if (len) *len = n;
	return b;
}
static char *tokStr(void) { return (char*)tokHexT(NULL, true); }
static unsigned char *tokBytes(long *len) { return tokHexT(len, false); }
/* ---- allocation accounting of the library: live blocks, and failure of the
 * n-th allocation from now on */
static long seqLive, seqAllocs, seqFailAt, seqPeakAllocs;
static bool seqFailed;
#define SEQ_MAXLIVE 1000000 /* more live blocks are allocations without end */
static void *seqMalloc(size_t n) {
	seqAllocs++;
	if (seqLive >= SEQ_MAXLIVE) abort();
	if (seqFailAt > 0 && --seqFailAt == 0) { seqFailed = true; return NULL; }
	void *p = malloc(n);
	if (p != NULL) { seqLive++; memset(p, 0xA5, n); }
	return p;
}
static void seqFree(void *p) { if (p != NULL) { seqLive--; free(p); } }
static void *seqMallocAligned(int a, size_t n) {
	seqAllocs++;
	if (seqFailAt > 0 && --seqFailAt == 0) { seqFailed = true; return NULL; }
	void *p = NULL;
	if (posix_memalign(&p, a < 8 ? 8 : (size_t)a, n) != 0) return NULL;
	seqLive++; memset(p, 0xA5, n);
	return p;
}
static void seqUse(void) {
	fiftyoneDegreesMalloc = seqMalloc; fiftyoneDegreesFree = seqFree;
	fiftyoneDegreesMallocAligned = seqMallocAligned; fiftyoneDegreesFreeAligned = seqFree;
}
static int seqLoop(void (*script)(void), unsigned seconds) {
	char *line = NULL; size_t cap = 0; ssize_t n;
	while ((n = getline(&line, &cap, stdin)) > 0) {
		if (line[n - 1] == '\n') line[--n] = 0;
		seqTok = line; seqN = 0; seqLive = 0; seqAllocs = 0; seqFailAt = 0; seqFailed = false;
		/* a script which doesn't end: the time of the processor, and of the clock
		 * for one which waits */
		struct itimerval cpu = { { 0, 0 }, { seconds, 0 } }, off = { { 0, 0 }, { 0, 0 } };
		setitimer(ITIMER_PROF, &cpu, NULL);
		alarm(seconds * 5);
		fputc('[', stdout); fflush(stdout);
		script();
		alarm(0);
		setitimer(ITIMER_PROF, &off, NULL);
		fputs("]\n", stdout); fflush(stdout);
	}
	free(line);
	return 0;
}
#endif
