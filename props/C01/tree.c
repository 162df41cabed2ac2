/* Red black tree: any history of insert / delete / find over N nodes. */
#include "tree.h"
#include "verif.h"

#ifndef N
#define N 4
#endif
#ifndef OPS
#define OPS 6
#endif

static fiftyoneDegreesTreeRoot root;
static fiftyoneDegreesTreeNode node[N];
static _Bool in[N];

static int visits[N];
static int calls;
static void onNode(void *state, fiftyoneDegreesTreeNode *n) {
	int i;
	calls++;
	VERIF_ASSERT(state == (void*)&calls, "iterate passes the caller's state");
	for (i = 0; i < N; i++) if (n == &node[i]) visits[i]++;
}

/* Number of black nodes on every path below n; clears ok if the red black,
 * linking or ordering rules are broken. Depth is bounded by N. */
static _Bool ok;
static int check(fiftyoneDegreesTreeNode *n, fiftyoneDegreesTreeNode *parent,
	int depth) {
	int l, r;
	if (n == &root.empty) return 1;
	if (depth == 0) { ok = 0; return 1; }
	ok &= n->parent == parent && n->root == &root;
	ok &= n->left == &root.empty || n->left->key < n->key;
	ok &= n->right == &root.empty || n->right->key > n->key;
	ok &= !(n->colour == 1 && (n->left->colour == 1 || n->right->colour == 1));
	l = check(n->left, n, depth - 1);
	r = check(n->right, n, depth - 1);
	ok &= l == r;
	return l + (n->colour == 0 ? 1 : 0);
}

static void setup(void) {
	int i, j;
	fiftyoneDegreesTreeRootInit(&root);
	VERIF_ASSERT(fiftyoneDegreesTreeCount(&root) == 0, "new tree is empty");
	for (i = 0; i < N; i++) {
		fiftyoneDegreesTreeNodeInit(&node[i], &root);
		node[i].key = (int64_t)verif_u64();
		in[i] = 0;
		for (j = 0; j < i; j++) VERIF_ASSUME(node[j].key != node[i].key);
	}
}

static void verify(void) {
	int i, present = 0;
#ifdef RANKS
	int64_t key = (int8_t)verif_u8();
#else
	int64_t key = (int64_t)verif_u64();
#endif
	fiftyoneDegreesTreeNode *expect = NULL;
	for (i = 0; i < N; i++) {
		visits[i] = 0;
		if (in[i]) {
			present++;
			if (node[i].key == key) expect = &node[i];
		}
	}
	VERIF_ASSERT(fiftyoneDegreesTreeFind(&root, key) == expect,
		"find returns exactly the node stored under the key");
	VERIF_ASSERT(fiftyoneDegreesTreeCount(&root) == (uint32_t)present,
		"count is the number of nodes stored");
	calls = 0;
	fiftyoneDegreesTreeIterateNodes(&root, &calls, onNode);
	VERIF_ASSERT(calls == present, "iterate calls once per stored node");
	for (i = 0; i < N; i++) {
		VERIF_ASSERT(visits[i] == (in[i] ? 1 : 0),
			"iterate visits each stored node exactly once");
	}
	VERIF_ASSERT(root.root.left->colour == 0, "root of the tree is black");
	ok = 1;
	check(root.root.left, &root.root, N);
	VERIF_ASSERT(ok, "tree is ordered, correctly linked and balanced");
	VERIF_WITNESS_IF(present == N, "all nodes present");
	VERIF_WITNESS_IF(expect != NULL, "find hit");
	VERIF_OBSERVE(present);
}

/* Any interleaving of inserts and deletes. */
void harness_ops(void) {
	int i;
	setup();
	for (i = 0; i < OPS; i++) {
		int k = verif_range(0, N - 1);
		int j;
		for (j = 0; j < N; j++) {
			if (j == k) {
				if (in[j]) {
					fiftyoneDegreesTreeDelete(&node[j]);
					fiftyoneDegreesTreeNodeRemove(&node[j]);
					in[j] = 0;
				}
				else {
					fiftyoneDegreesTreeInsert(&node[j]);
					in[j] = 1;
				}
			}
		}
	}
	verify();
}

/* Any tree which obeys the rules, of any shape with up to N nodes, then one
 * insert or delete: with the rules kept for every such tree they hold after
 * histories of any length. The nodes are in ascending key order. */
#ifndef BLACKS
#define BLACKS 3
#endif
static int used;
static int build(int blacks, int most, fiftyoneDegreesTreeNode *parent, fiftyoneDegreesTreeNode **at) {
	/* Gives a subtree with the black height, of no more than most nodes */
	int red, room, i, n;
	fiftyoneDegreesTreeNode *x;
	if (blacks == 0 && (most == 0 || parent->colour == 1 || VERIF_SPLIT(verif_bool()) == 0)) { *at = &root.empty; return 0; }
	VERIF_ASSUME(most > 0);
	red = blacks == 0 ? 1 : parent->colour == 1 || parent == &root.root ? 0 : (int)VERIF_SPLIT(verif_bool());
	/* Nodes are numbered in order, so the left subtree is made first */
	{
		fiftyoneDegreesTreeNode temp, *left;
		temp.colour = (unsigned char)red;
		i = build(blacks - !red, most - 1, &temp, &left);
		x = &node[used++];
		x->colour = (unsigned char)red;
		x->parent = parent;
		x->left = left;
		if (left != &root.empty) left->parent = x;
		n = build(blacks - !red, most - 1 - i, x, &x->right);
	}
	room = 1 + i + n;
	*at = x;
	return room;
}
void harness_step(void) {
	int i, k, blacks;
	int64_t keys[N + 1];
	fiftyoneDegreesTreeRootInit(&root);
	for (i = 0; i < N; i++) {
		fiftyoneDegreesTreeNodeInit(&node[i], &root);
#ifdef RANKS
		keys[i] = node[i].key = 2 * i - N;
#else
		keys[i] = node[i].key = (int64_t)verif_u64();
		if (i > 0) VERIF_ASSUME(node[i - 1].key < node[i].key);
#endif
	}
	blacks = (int)VERIF_SPLIT(verif_range(0, BLACKS));
	if (blacks > 0) build(blacks, N, &root.root, &root.root.left);
	for (i = 0; i < used; i++) in[i] = 1;
	ok = 1;
	check(root.root.left, &root.root, N);
	VERIF_ASSERT(ok, "the tree built obeys the rules");
	k = (int)VERIF_SPLIT(verif_range(0, 2 * N));
	if (k < N) {
		VERIF_ASSUME(k < used);
		fiftyoneDegreesTreeDelete(&node[k]);
		fiftyoneDegreesTreeNodeRemove(&node[k]);
		in[k] = 0;
		verify();
		VERIF_WITNESS("deleted");
	}
	else {
		/* A node between any two, with the number of those below it */
		int below = k - N, j;
		VERIF_ASSUME(below <= used && used < N);
		for (j = used; j > below; j--) keys[j] = keys[j - 1];
		fiftyoneDegreesTreeNodeInit(&node[used], &root);
#ifdef RANKS
		node[used].key = keys[below] = 2 * below - N - 1;
#else
		node[used].key = keys[below] = (int64_t)verif_u64();
#endif
		VERIF_ASSUME(below == 0 || keys[below - 1] < keys[below]);
		VERIF_ASSUME(below == used || keys[below] < keys[below + 1]);
		fiftyoneDegreesTreeInsert(&node[used]);
		in[used] = 1;
		VERIF_ASSERT(node[used].key == keys[below], "key is left as it was");
		node[used].key = keys[below];
		verify();
		VERIF_WITNESS("inserted");
	}
}
