/* Deterministic scheduler for the code under test.
 *
 * The library sources are compiled with -fsanitize=thread but linked against
 * this runtime instead of libtsan, so that every shared memory access, atomic
 * operation, lock, condition wait, allocation and free of the real code
 * becomes a point at which another thread (a fiber here) may be scheduled.
 * Nothing in /repo is changed and nothing depends on how the code is written.
 */
#ifndef VF_SCHED_H
#define VF_SCHED_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdbool.h>

#define VF_MAXF 8

/* one scenario = a set of fibers over freshly initialised state */
typedef struct {
	const char *name;
	int nfibers;
	void (*setup)(void *arg);          /* runs before the fibers, no scheduling */
	void (*body)(int fiber, void *arg);/* body of each fiber */
	void (*finish)(void *arg);         /* after all finished or stuck */
	void *arg;
	int bound;                         /* preemption bound for the exhaustive part */
	long maxExec;                      /* executions allowed for exhaustive part */
	long randExec;                     /* random executions in addition */
	bool spurious;                     /* explore spurious wake ups */
} VfScenario;

typedef struct {
	long executions, distinct, steps, exhaustiveBound, choicePoints, maxSteps;
	bool complete;
} VfStats;

void vf_init(uint64_t seed);
/* explores; each distinct event trace is written as one JSON array line */
void vf_explore(VfScenario *s, FILE *out, VfStats *stats);

/* events: appended to the current execution's trace (printf style JSON body
 * without braces) */
void vf_ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int vf_self(void);           /* current fiber or -1 */
void vf_opbegin(void);       /* forget which use after free has been reported */
void *vf_alloc(size_t size);
void *vf_alloc_aligned(int alignment, size_t size);
void vf_free(void *p);
void vf_tag(void *p, const char *kind, int id);  /* name a block */
void vf_autotag(const char *kind, int id); /* name blocks allocated by this fiber from now on */
const char *vf_kind(void *p); int vf_id(void *p);
bool vf_isfreed(void *p);
int vf_livecount(const char *kind);  /* live blocks with the tag kind (NULL: untagged) */
void vf_touch(void *p, size_t n, bool write); /* checked access from the harness */
void vf_point(void);         /* unconditional scheduling point */
extern int vf_files;         /* files which are open */
/* makes the n-th (1 based) allocation from now on fail, 0 disables */
void vf_failalloc(int n);
extern bool vf_stuck;        /* set in finish() when not every fiber ended */
bool vf_done(int fiber);
extern bool vf_yieldalloc;
extern bool vf_reuse;          /* freed blocks are given again, the latest first */
#endif
