/*
 * Cell monitor: linked into the interpreter with --wrap, so it sees every cell
 * allocation and deallocation the running code performs.
 *
 *  - a freed cell is poisoned for AddressSanitizer and kept in a FIFO
 *    quarantine, so that any later read or write of it is reported (the slab
 *    free list is LIFO and would reuse it at once and hide the error);
 *  - freeing a cell that is already free, is not a cell of the slab, or still
 *    has references is reported;
 *  - the slab's own counters are kept as the program would see them.
 */
#include <mnml/lisp.h>
#include <mnml/slab.h>
#include <sanitizer/asan_interface.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

size_t __sanitizer_get_current_allocated_bytes(void);

#define QMAX 65536

atom_t __real_slab_allocate(const slab_t slab);
void __real_slab_deallocate(const slab_t slab, const atom_t cell);
void __real_slab_delete(const slab_t slab);

static atom_t q_cell[QMAX];
static slab_t q_slab;
static size_t q_head, q_len;
static size_t q_cap = (size_t)-1;
static size_t ev_alloc, ev_free, ev_peak;

static void
die(const char* what, const void* p)
{
  fflush(stdout);
  fprintf(stderr, "MNML-MONITOR: %s (cell %p)\n", what, p);
  /* trap through ASan so that a stack is printed */
  __asan_describe_address((void*)p);
  __sanitizer_print_stack_trace();
  _exit(98);
}

static void
release_one(void)
{
  atom_t c = q_cell[q_head];
  q_head = (q_head + 1) % QMAX;
  q_len -= 1;
  __asan_unpoison_memory_region(c, sizeof(struct atom));
  q_slab->n_free -= 1;
  __real_slab_deallocate(q_slab, c);
}

static void
drain(void)
{
  while (q_len > 0) {
    release_one();
  }
}

atom_t
__wrap_slab_allocate(const slab_t slab)
{
  atom_t r = __real_slab_allocate(slab);
  if (__asan_address_is_poisoned(r)) {
    die("allocated a cell that was still in quarantine", r);
  }
  ev_alloc += 1;
  if (ev_alloc - ev_free > ev_peak) {
    ev_peak = ev_alloc - ev_free;
  }
  return r;
}

void
__wrap_slab_deallocate(const slab_t slab, const atom_t cell)
{
  if (q_cap == (size_t)-1) {
    const char* e = getenv("MNML_VERIF_QUARANTINE");
    q_cap = e ? strtoul(e, NULL, 10) : 4096;
    if (q_cap > QMAX - 1) {
      q_cap = QMAX - 1;
    }
  }
  const char* lo = (const char*)slab->entries;
  const char* p = (const char*)cell;
  if (p < lo || p >= lo + SLAB_SIZE || (size_t)(p - lo) % sizeof(struct atom)) {
    die("freed an address that is not a cell", cell);
  }
  if (__asan_address_is_poisoned(cell)) {
    die("double free of a cell", cell);
  }
  if (cell->type == T_NONE) {
    die("freed a cell that was never in use", cell);
  }
  if (cell->refs != 0) {
    die("freed a cell that is still referenced", cell);
  }
  ev_free += 1;
  if (q_cap == 0) {
    __real_slab_deallocate(slab, cell);
    return;
  }
  if (q_slab != slab) {
    drain();
    q_slab = slab;
  }
  slab->n_free += 1;
  __asan_poison_memory_region(cell, sizeof(struct atom));
  q_cell[(q_head + q_len) % QMAX] = cell;
  q_len += 1;
  if (q_len > q_cap) {
    release_one();
  }
}

void
__wrap_slab_delete(const slab_t slab)
{
  size_t live = slab->n_alloc - slab->n_free;
  size_t heap = __sanitizer_get_current_allocated_bytes();
  if (q_slab == slab) {
    drain();
    q_slab = NULL;
  }
  __asan_unpoison_memory_region(slab->entries, SLAB_SIZE);
  const char* out = getenv("MNML_VERIF_STATS");
  if (out != NULL) {
    FILE* f = fopen(out, "a");
    if (f != NULL) {
      fprintf(f, "%zu %zu %zu %zu %zu\n", ev_alloc, ev_free, ev_peak, live,
              heap);
      fclose(f);
    }
  }
  __real_slab_delete(slab);
}
