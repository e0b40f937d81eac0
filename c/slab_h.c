/*
 * Ownership monitor of the cell allocator: every cell handed out is checked
 * against a shadow of the arena and carries a pattern until it is released.
 *
 *   slab_h random SEED OPS MAXLIVE
 *   slab_h fill SEED            to the last cell of the arena, twice
 *   slab_h oom                  one cell more than the arena has
 */
#include <mnml/lisp.h>
#include <mnml/slab.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define CELLS (SLAB_SIZE / sizeof(struct atom))
static unsigned char* owned;   /* 1: live */
static uint32_t* stamp;        /* pattern of the live cells */
static uint32_t* live;         /* indices of the live cells */
static unsigned char* used;    /* ever handed out */
static size_t n_live, n_alloc, n_free, n_reused, n_used, n_peak, n_verified;
static slab_t slab;
static uint64_t rs;

static uint64_t
rnd(void)
{
  rs ^= rs << 13;
  rs ^= rs >> 7;
  rs ^= rs << 17;
  return rs * 0x2545F4914F6CDD1DULL;
}

static void
fail(const char* what, size_t i)
{
  printf("FAIL %s: cell %zu, live %zu, allocations %zu, releases %zu\n", what, i, n_live, n_alloc, n_free);
  fflush(stdout);
  _exit(1);
}

static void
pattern(atom_t c, uint32_t s)
{
  c->refs = s | 1;
  c->type = (atom_type_t)(1 + s % ATOM_TYPES);
  c->flags = (uint16_t)(s >> 3);
  c->cache = (struct atom*)(uintptr_t)(s * 0x9E3779B97F4A7C15ULL);
  CAR(c) = (struct atom*)(uintptr_t)(s * 0xD1B54A32D192ED03ULL);
  CDR(c) = (struct atom*)(uintptr_t)(s * 0x94D049BB133111EBULL);
}

static void
verify(size_t i)
{
  struct atom e;
  memset(&e, 0, sizeof(e));
  pattern(&e, stamp[i]);
  n_verified += 1;
  if (memcmp(&e, &slab->entries[i], sizeof(e)) != 0) {
    fail("a live cell was modified", i);
  }
}

static void
counters(void)
{
  if (slab->n_alloc != n_alloc || slab->n_free != n_free) {
    fail("wrong counters", 0);
  }
}

static void
take(void)
{
  static const unsigned char zero[sizeof(struct atom)];
  atom_t c = slab_allocate(slab);
  const char* lo = (const char*)slab->entries;
  const char* p = (const char*)c;
  if (p < lo || p + sizeof(struct atom) > lo + SLAB_SIZE || (size_t)(p - lo) % sizeof(struct atom)) {
    fail("not a cell of the arena", 0);
  }
  size_t i = (size_t)(p - lo) / sizeof(struct atom);
  if (owned[i]) {
    fail("handed out twice", i);
  }
  if (memcmp(c, zero, sizeof(zero)) != 0) {
    fail("not zeroed", i);
  }
  if (used[i]) {
    n_reused += 1;
  } else {
    used[i] = 1;
    n_used += 1;
  }
  owned[i] = 1;
  stamp[i] = (uint32_t)rnd();
  pattern(c, stamp[i]);
  live[n_live++] = (uint32_t)i;
  n_alloc += 1;
  if (n_live > n_peak) {
    n_peak = n_live;
  }
}

static void
give(size_t pos)
{
  size_t i = live[pos];
  verify(i);
  live[pos] = live[--n_live];
  owned[i] = 0;
  slab_deallocate(slab, &slab->entries[i]);
  n_free += 1;
}

static void
all(void)
{
  for (size_t k = 0; k < n_live; k += 1) {
    verify(live[k]);
  }
  counters();
}

static void
fresh(void)
{
  slab = slab_new();
  if (slab == NULL) {
    fail("no arena", 0);
  }
  n_live = n_alloc = n_free = n_used = 0;
  memset(owned, 0, CELLS);
  memset(used, 0, CELLS);
  counters();
}

static void
aborted(int s)
{
  printf("OK refused after %zu cells\n", n_live);
  fflush(stdout);
  _exit(n_live == CELLS ? 0 : 1);
}

int
main(int argc, char** argv)
{
  owned = calloc(CELLS, 1);
  used = calloc(CELLS, 1);
  stamp = calloc(CELLS, sizeof(uint32_t));
  live = calloc(CELLS + 1, sizeof(uint32_t));
  rs = (argc > 2 ? strtoull(argv[2], NULL, 10) : 1) * 0x9E3779B97F4A7C15ULL + 4242;
  if (strcmp(argv[1], "random") == 0) {
    size_t ops = strtoull(argv[3], NULL, 10), maxl = strtoull(argv[4], NULL, 10);
    for (int round = 0; round < 3; round += 1) {
      fresh();
      size_t target = rnd() % maxl;
      int how = 0;
      for (size_t k = 0; k < ops; k += 1) {
        if (k % 997 == 0) {
          target = rnd() % 3 ? rnd() % maxl : rnd() % 64;
          how = rnd() % 3;
        }
        int up = n_live < target ? rnd() % 8 != 0 : rnd() % 8 == 0;
        if ((up && n_live < maxl) || n_live == 0) {
          take();
        } else {
          give(how == 0 ? rnd() % n_live : how == 1 ? n_live - 1 : 0);
        }
        counters();
        if (k % 5003 == 0) {
          all();
        }
      }
      all();
      /* released cells are reused before the arena grows */
      size_t before = n_used, k = 0;
      while (n_live > 0) {
        give(rnd() % n_live);
      }
      for (; k < before && k < CELLS; k += 1) {
        take();
      }
      if (n_used != before) {
        fail("released cells are not reused", n_used);
      }
      all();
      while (n_live > 0) {
        give(n_live - 1);
      }
      counters();
      slab_delete(slab);
    }
  } else if (strcmp(argv[1], "fill") == 0) {
    fresh();
    while (n_live < CELLS) {
      take();
    }
    all();
    for (size_t k = 0; k < CELLS / 2; k += 1) {
      give(rnd() % n_live);
    }
    all();
    while (n_live < CELLS) {
      take();
    }
    all();
    while (n_live > 0) {
      give(rnd() % n_live);
    }
    counters();
    slab_delete(slab);
  } else {
    fresh();
    signal(SIGABRT, aborted);
    for (;;) {
      if (n_live == CELLS) {
        all();
      }
      take();
    }
  }
  printf("OK cells=%zu reused=%zu peak=%zu verified=%zu\n", n_used, n_reused, n_peak, n_verified);
  return 0;
}
