/* Runs a history of insert and delete on the red black tree.
 * script = mode { i k | d k }...   keys are k * 2^mode, after each operation
 * the structure, every lookup, the iteration and the count are reported.
 * q before an operation: report only a summary. */
#include "seq.h"
typedef fiftyoneDegreesTreeNode Node;
#define MAXK 4096
typedef struct { Node tree; int k; int pos; int present; } N;
static N *nodes; static int nn; static fiftyoneDegreesTreeRoot root; static int mode;
static int byKey[2 * MAXK + 1];
static int order[MAXK], no;
static int64_t key(int k) { return (int64_t)k * ((int64_t)1 << mode); }
static int isEmpty(Node *n) { return n == &root.empty; }
static int num(Node *n) { return n == &root.empty ? 0 : n == &root.root ? -1 : ((N*)n)->pos; }
static int depthOf(Node *n, int guard) {
	if (isEmpty(n) || guard > 200) return guard > 200 ? 100000 : 0;
	int a = depthOf(n->left, guard + 1), b = depthOf(n->right, guard + 1);
	return 1 + (a > b ? a : b);
}
static void visit(void *state, Node *n) {
	if (state != &no) seqBad("state");
	if (no < MAXK) order[no++] = ((N*)n)->k;
}
static void report(const char *op, int k, int quiet, int lo, int hi) {
	evBegin("\"e\":\"%s\",\"k\":%d,\"quiet\":%d", op, k, quiet);
	int p = 0;
	for (int i = 0; i < nn; i++) if (nodes[i].present) nodes[i].pos = ++p;
	if (!quiet) {
		printf(",\"nodes\":[");
		for (int i = 0, c = 0; i < nn; i++) if (nodes[i].present) {
			Node *n = &nodes[i].tree;
			printf("%s[%d,%d,%d,%d,%d]", c++ ? "," : "", nodes[i].k, n->colour, num(n->left), num(n->right), num(n->parent));
		}
		printf("],\"top\":%d", num(root.root.left));
	} else printf(",\"nodes\":[],\"top\":0");
	printf(",\"found\":[");
	for (int k2 = lo, c = 0; k2 <= hi; k2++) {
		int64_t kk;
		if (__builtin_mul_overflow((int64_t)k2, (int64_t)1 << mode, &kk)) continue;
		Node *f = fiftyoneDegreesTreeFind(&root, key(k2));
		if (f != NULL) {
			/* the node which was inserted with the key */
			int good = byKey[k2 + MAXK] >= 0 && &nodes[byKey[k2 + MAXK]].tree == f;
			printf("%s%d", c++ ? "," : "", good ? k2 : 99999);
		}
	}
	no = 0;
	fiftyoneDegreesTreeIterateNodes(&root, &no, visit);
	printf("],\"order\":[");
	for (int i = 0; i < no; i++) printf("%s%d", i ? "," : "", order[i]);
	printf("],\"count\":%u,\"depth\":%d", fiftyoneDegreesTreeCount(&root), depthOf(root.root.left, 0));
	evEnd();
}
static void script(void) {
	mode = (int)tokInt();
	nodes = calloc(MAXK, sizeof(N)); nn = 0;
	int freeList[MAXK], nf = 0, lo = 0, hi = 0;
	for (int i = 0; i <= 2 * MAXK; i++) byKey[i] = -1;
	fiftyoneDegreesTreeRootInit(&root);
	char *t; int quiet = 0;
	while ((t = tokOpt()) != NULL) {
		if (*t == 'q') { quiet = 1; continue; }
		int k = (int)tokInt();
		if (k < lo) lo = k; if (k > hi) hi = k;
		if (*t == 'i') {
			if (byKey[k + MAXK] >= 0) { quiet = 0; continue; }
			int at = nf ? freeList[--nf] : nn++;
			N *n = &nodes[at];
			if (n->tree.root == NULL) fiftyoneDegreesTreeNodeInit(&n->tree, &root);
			n->k = k; n->present = 1; n->tree.key = key(k);
			byKey[k + MAXK] = at;
			fiftyoneDegreesTreeInsert(&n->tree);
			report("ins", k, quiet, lo - 1, hi + 1);
		} else {
			int at = byKey[k + MAXK];
			if (at < 0) { quiet = 0; continue; }
			fiftyoneDegreesTreeDelete(&nodes[at].tree);
			fiftyoneDegreesTreeNodeRemove(&nodes[at].tree);
			nodes[at].present = 0; byKey[k + MAXK] = -1; freeList[nf++] = at;
			report("del", k, quiet, lo - 1, hi + 1);
		}
		quiet = 0;
	}
	free(nodes);
}
int main(void) { seqUse(); return seqLoop(script, 10); }
