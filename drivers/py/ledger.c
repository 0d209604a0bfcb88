// Preloaded into the Python interpreter: counts the blocks that code within an address range (the
// library's) allocates, until anyone frees them.
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
size_t malloc_usable_size(void *);

// Blocks the way of the heap at low addresses, so that pointers need all of their 64 bits.
__attribute__((constructor)) static void high_addresses(void) {
    uintptr_t top = ((uintptr_t)sbrk(0) + 4095) & ~(uintptr_t)4095;
    mmap((void *)top, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
}

static uintptr_t lo, hi;
#define CAP (1u << 20)
static void **ledger;                   // open addressing; (void *)1 marks a removed entry
static long live, bad;

#define OURS ((uintptr_t)__builtin_return_address(0) - lo < hi - lo)
static size_t slot(void *p) { return ((uintptr_t)p >> 4) * 11400714819323198485ull >> 44; }

static void add(void *p) {
    if (!p) return;
    size_t i = slot(p);
    while (ledger[i] && ledger[i] != (void *)1) i = (i + 1) & (CAP - 1);
    ledger[i] = p;
    live++;
}
static int take(void *p) {
    for (size_t i = slot(p); ledger[i]; i = (i + 1) & (CAP - 1))
        if (ledger[i] == p) { ledger[i] = (void *)1; live--; return 1; }
    return 0;
}

void ledger_range(uintptr_t a, uintptr_t b) { ledger = __libc_calloc(CAP, sizeof(void *)); lo = a; hi = b; live = bad = 0; }
long ledger_live(void) { return live; }
long ledger_bad(void) { return bad; }

void *malloc(size_t n) { int o = OURS; void *p = __libc_malloc(n); if (o) add(p); return p; }
void *calloc(size_t a, size_t b) { int o = OURS; void *p = __libc_calloc(a, b); if (o) add(p); return p; }
void *realloc(void *q, size_t n) {
    int o = OURS, was = ledger && q && take(q);
    if (o && q && !was) bad++;
    void *p = __libc_realloc(q, n);
    if (o || was) add(p);
    return p;
}
void *memalign(size_t a, size_t n) { int o = OURS; void *p = __libc_memalign(a, n); if (o) add(p); return p; }
void *aligned_alloc(size_t a, size_t n) { int o = OURS; void *p = __libc_memalign(a, n); if (o) add(p); return p; }
int posix_memalign(void **r, size_t a, size_t n) {
    int o = OURS;
    *r = __libc_memalign(a, n);
    if (o) add(*r);
    return *r ? 0 : 12;
}
void free(void *p) {
    if (!p) return;
    if (ledger) {
        // A block the library frees that is not its own, or was freed before, is left alone and counted.
        if (take(p)) memset(p, 0xDD, malloc_usable_size(p));
        else if (OURS) { bad++; return; }
    }
    __libc_free(p);
}
