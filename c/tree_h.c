/*
 * Invariant monitor of the symbol tree.  Generated histories of operations run
 * on the real tree; after every operation the tree is walked and compared with
 * a plain map, and the red-black invariants are checked.
 *
 *   tree_h random SEED HISTORIES OPS KEYS
 *   tree_h perms N SEED          all insertion orders of N keys, removal orders sampled
 *   tree_h all N                 all insertion orders x all removal orders
 */
#include <mnml/lisp.h>
#include <mnml/slab.h>
#include <mnml/tree.h>
#include <mnml/utils.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAXK 4096
static lisp_t lisp;
static union symbol keys[MAXK];
static int nkeys;
static int present[MAXK];
static int64_t value[MAXK];
static int order[MAXK]; /* keys by increasing bytes */
static atom_t root;
static uint64_t rs;
static char trail[1 << 20];
static size_t tl;
static size_t n_ops, n_hist, n_max, n_height, n_checks;

static uint64_t
rnd(void)
{
  rs ^= rs << 13;
  rs ^= rs >> 7;
  rs ^= rs << 17;
  return rs * 0x2545F4914F6CDD1DULL;
}

static void
note(char op, int k)
{
  if (tl < sizeof(trail) - 32) {
    tl += sprintf(trail + tl, " %c%d", op, k);
  }
}

static void
fail(const char* what)
{
  printf("FAIL %s\nkeys=%d history:%s\n", what, nkeys, trail);
  for (int i = 0; i < nkeys && i < 64; i += 1) {
    printf("key %d =", i);
    for (int j = 0; j < 16; j += 1) {
      printf(" %02x", (unsigned char)keys[i].val[j]);
    }
    printf("\n");
  }
  fflush(stdout);
  exit(1);
}

#define SETS 65536
static uint64_t shapes[SETS];
static size_t n_shapes;

static void
shape(uint64_t h)
{
  h |= 1;
  for (size_t i = h % SETS, k = 0; k < 64; i = (i + 1) % SETS, k += 1) {
    if (shapes[i] == h) {
      return;
    }
    if (shapes[i] == 0) {
      shapes[i] = h;
      n_shapes += 1;
      return;
    }
  }
}

static int seen;
static uint64_t hash;

static int
walk(atom_t n, atom_t parent, int depth)
{
  if (IS_NULL(n)) {
    if (IS_COLORED(n)) {
      fail("a leaf is red");
    }
    hash = hash * 31 + 7;
    return 1;
  }
  if (depth > 200) {
    fail("the tree is too deep or has a cycle");
  }
  if ((size_t)depth > n_height) {
    n_height = depth;
  }
  hash = hash * 31 + (IS_COLORED(n) ? 3 : 5);
  if (parent == NULL) {
    if (!IS_NULL(PARENT(n))) {
      fail("the root has a parent");
    }
    if (IS_COLORED(n)) {
      fail("the root is red");
    }
  } else if (PARENT(n) != parent) {
    fail("wrong parent link");
  }
  if (IS_COLORED(n) && (IS_COLORED(LEFT(n)) || IS_COLORED(RIGHT(n)))) {
    fail("a red node has a red child");
  }
  if (n->refs != 1) {
    fail("a node does not have one owner");
  }
  int l = walk(LEFT(n), n, depth + 1);
  /* in order: the next present key */
  while (seen < nkeys && !present[order[seen]]) {
    seen += 1;
  }
  if (seen >= nkeys) {
    fail("a key that should not be there, or out of order");
  }
  int k = order[seen++];
  if (memcmp(KEY(n)->symbol.val, keys[k].val, 16) != 0) {
    fail("wrong or misplaced key");
  }
  if (!IS_NUMB(VALUE(n)) || VALUE(n)->number != value[k]) {
    fail("wrong value");
  }
  int r = walk(RIGHT(n), n, depth + 1);
  if (l != r) {
    fail("unequal black heights");
  }
  return l + (IS_COLORED(n) ? 0 : 1);
}

static void
check(void)
{
  n_checks += 1;
  seen = 0;
  hash = 1;
  walk(root, NULL, 1);
  while (seen < nkeys && !present[order[seen]]) {
    seen += 1;
  }
  if (seen < nkeys) {
    fail("a key is missing");
  }
  shape(hash);
}

static int visited;
static atom_t stop_at;

static bool
visit(const atom_t k, const atom_t v)
{
  while (visited < nkeys && !present[order[visited]]) {
    visited += 1;
  }
  if (visited >= nkeys || memcmp(k->symbol.val, keys[order[visited]].val, 16) != 0 ||
      v->number != value[order[visited]]) {
    fail("dfs does not visit the keys in increasing order");
  }
  int here = order[visited++];
  return stop_at != NULL && memcmp(k->symbol.val, stop_at->symbol.val, 16) == 0 && here >= 0;
}

static int
count(void)
{
  int c = 0;
  for (int i = 0; i < nkeys; i += 1) {
    c += present[i];
  }
  return c;
}

static void
op_dfs(int k)
{
  note('d', k);
  visited = 0;
  stop_at = k < 0 ? NULL : lisp_make_symbol(lisp, &keys[k]);
  atom_t r = lisp_tree_dfs(lisp, root, visit);
  if (k >= 0 && present[k]) {
    if (IS_NULL(r) || memcmp(KEY(r)->symbol.val, keys[k].val, 16) != 0) {
      fail("dfs does not return the node it stopped at");
    }
  } else {
    if (!IS_NULL(r)) {
      fail("dfs returned a node it did not stop at");
    }
    while (visited < nkeys && !present[order[visited]]) {
      visited += 1;
    }
    if (visited < nkeys) {
      fail("dfs does not visit every key");
    }
  }
  X(lisp, r);
  if (stop_at) {
    X(lisp, stop_at);
    stop_at = NULL;
  }
}

static void
op_add(int k, int64_t v)
{
  note('a', k);
  atom_t kv = lisp_cons(lisp, lisp_make_symbol(lisp, &keys[k]), lisp_make_number(lisp, v));
  root = lisp_tree_add(lisp, root, kv);
  present[k] = 1;
  value[k] = v;
}

static void
op_upd(int k, int64_t v)
{
  note('u', k);
  atom_t kv = lisp_cons(lisp, lisp_make_symbol(lisp, &keys[k]), lisp_make_number(lisp, v));
  atom_t r = lisp_tree_upd(lisp, root, kv);
  if (present[k]) {
    if (IS_NULL(r)) {
      fail("update does not find a key");
    }
    if (!IS_PAIR(r) || CDR(r)->number != value[k]) {
      fail("update does not give back the old value");
    }
    value[k] = v;
    X(lisp, r);
  } else {
    if (!IS_NULL(r)) {
      fail("update finds a key that is not there");
    }
    X(lisp, r);
    X(lisp, kv);
  }
}

static void
op_get(int k)
{
  note('g', k);
  atom_t r = lisp_tree_get(lisp, root, &keys[k]);
  if (present[k]) {
    if (!IS_PAIR(r) || memcmp(CAR(r)->symbol.val, keys[k].val, 16) != 0 || CDR(r)->number != value[k]) {
      fail("lookup does not give the value of the key");
    }
  } else if (!IS_NULL(r)) {
    fail("lookup finds a key that is not there");
  }
  X(lisp, r);
}

static void
op_rem(int k)
{
  note('r', k);
  root = lisp_tree_rem(lisp, root, &keys[k]);
  present[k] = 0;
}

static size_t base;

static void
start(void)
{
  tl = 0;
  trail[0] = 0;
  memset(present, 0, sizeof(int) * nkeys);
  base = lisp->slab->n_alloc - lisp->slab->n_free;
  root = lisp_make_nil(lisp);
  n_hist += 1;
}

static void
stop(void)
{
  note('X', 0);
  X(lisp, root);
  if (lisp->slab->n_alloc - lisp->slab->n_free != base) {
    fail("releasing the tree does not release every cell");
  }
}

static int
cmp(const void* a, const void* b)
{
  return memcmp(keys[*(int*)a].val, keys[*(int*)b].val, 16);
}

static void
sort_keys(void)
{
  for (int i = 0; i < nkeys; i += 1) {
    order[i] = i;
  }
  qsort(order, nkeys, sizeof(int), cmp);
}

static void
make_keys(int n, int style)
{
  nkeys = 0;
  while (nkeys < n) {
    union symbol s;
    memset(&s, 0, sizeof(s));
    switch (style) {
      case 0: /* short names in order */
        sprintf(s.val, "k%05d", nkeys);
        break;
      case 1: { /* one letter, all lengths */
        int l = 1 + rnd() % 16;
        for (int i = 0; i < l; i += 1) {
          s.val[i] = 'a' + rnd() % 2;
        }
        break;
      }
      case 2: /* full length, differing at one position */
        memset(s.val, 'x', 16);
        for (int i = 0; i < 3; i += 1) {
          s.val[rnd() % 16] = "xyz-~!"[rnd() % 6];
        }
        break;
      default: { /* any bytes */
        int l = 1 + rnd() % 16;
        for (int i = 0; i < l; i += 1) {
          s.val[i] = 1 + rnd() % 255;
        }
      }
    }
    int dup = 0;
    for (int i = 0; i < nkeys && !dup; i += 1) {
      dup = memcmp(keys[i].val, s.val, 16) == 0;
    }
    if (!dup) {
      keys[nkeys++] = s;
    } else if (style == 1 || style == 2) {
      style = 3;
    }
  }
  sort_keys();
}

static void
random_histories(int hist, int ops, int kmax)
{
  for (int h = 0; h < hist; h += 1) {
    int nk = 1 + rnd() % kmax;
    make_keys(nk, rnd() % 4);
    start();
    int mix = rnd() % 4;
    int dir = rnd() % 3, cur = 0;
    for (int i = 0; i < ops; i += 1) {
      int k = dir == 0 ? rnd() % nkeys : dir == 1 ? order[cur++ % nkeys] : order[nkeys - 1 - (cur++ % nkeys)];
      if (rnd() % 5 == 0) {
        k = rnd() % nkeys;
      }
      if (i % (ops / 4 + 1) == 0) {
        mix = rnd() % 4;
        dir = rnd() % 3;
      }
      int w = rnd() % 10;
      /* growing, balanced, shrinking, lookups */
      int a = mix == 0 ? 7 : mix == 1 ? 4 : mix == 2 ? 1 : 2;
      int r = mix == 0 ? 8 : mix == 1 ? 8 : mix == 2 ? 8 : 4;
      if (w < a) {
        op_add(k, (int64_t)rnd());
      } else if (w < r) {
        op_rem(k);
      } else if (w == 8) {
        op_upd(k, (int64_t)rnd());
      } else {
        op_get(k);
      }
      n_ops += 1;
      check();
      if (rnd() % 40 == 0) {
        op_dfs(rnd() % 3 ? (int)(rnd() % nkeys) : -1);
      }
      if ((size_t)count() > n_max) {
        n_max = count();
      }
    }
    if (rnd() % 2) {
      for (int i = 0; i < nkeys; i += 1) {
        op_rem(i);
        n_ops += 1;
        check();
      }
      if (!IS_NULL(root)) {
        fail("not empty after removing every key");
      }
    }
    stop();
  }
}

static int
next_perm(int* a, int n)
{
  int i = n - 2;
  while (i >= 0 && a[i] > a[i + 1]) {
    i -= 1;
  }
  if (i < 0) {
    return 0;
  }
  int j = n - 1;
  while (a[j] < a[i]) {
    j -= 1;
  }
  int t = a[i];
  a[i] = a[j];
  a[j] = t;
  for (int l = i + 1, r = n - 1; l < r; l += 1, r -= 1) {
    t = a[l];
    a[l] = a[r];
    a[r] = t;
  }
  return 1;
}

static void
perms(int n, int all)
{
  make_keys(n, 0);
  int ins[16], rem[16];
  for (int i = 0; i < n; i += 1) {
    ins[i] = i;
  }
  do {
    for (int i = 0; i < n; i += 1) {
      rem[i] = i;
    }
    if (!all) {
      for (int i = n - 1; i > 0; i -= 1) {
        int j = rnd() % (i + 1), t = rem[i];
        rem[i] = rem[j];
        rem[j] = t;
      }
    }
    do {
      start();
      for (int i = 0; i < n; i += 1) {
        op_add(ins[i], i);
        check();
      }
      for (int i = 0; i < n; i += 1) {
        op_rem(rem[i]);
        check();
      }
      n_ops += 2 * n;
      if (!IS_NULL(root)) {
        fail("not empty after removing every key");
      }
      stop();
    } while (all && next_perm(rem, n));
  } while (next_perm(ins, n));
  if ((size_t)n > n_max) {
    n_max = n;
  }
}

int
main(int argc, char** argv)
{
  slab_t slab = slab_new();
  lisp = (lisp_t)calloc(1, sizeof(struct lisp));
  lisp->slab = slab;
  if (strcmp(argv[1], "random") == 0) {
    rs = strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ULL + 12345;
    random_histories(atoi(argv[3]), atoi(argv[4]), atoi(argv[5]));
  } else if (strcmp(argv[1], "perms") == 0) {
    rs = strtoull(argv[3], NULL, 10) * 0x9E3779B97F4A7C15ULL + 777;
    perms(atoi(argv[2]), 0);
  } else {
    rs = 99;
    perms(atoi(argv[2]), 1);
  }
  printf("OK ops=%zu histories=%zu checks=%zu max=%zu height=%zu shapes=%zu\n", n_ops, n_hist, n_checks, n_max,
         n_height, n_shapes);
  slab_delete(slab);
  free(lisp);
  return 0;
}
