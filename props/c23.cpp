#include <stdlib.h>
#include "ledger.h"
using namespace pbt;

// The linker redirects the library's and the harness's direct calls of the C
// allocator here (see checks.py: --wrap); the ledger itself uses
// aligned_alloc and, through __real_free, free.
static const char *g_direct = nullptr;
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__wrap_malloc(size_t n) { g_direct = "malloc"; return __real_malloc(n); }
void *__wrap_calloc(size_t k, size_t n) { g_direct = "calloc"; return __real_calloc(k, n); }
void *__wrap_realloc(void *p, size_t n) { g_direct = "realloc"; return __real_realloc(p, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { g_direct = "posix_memalign"; return __real_posix_memalign(p, a, n); }
}

PROPERTY(C23, "a generated case of one of the other checks (histories of 32-bit, 64-bit, C++, bitset and index objects, set operations, iterators, every format, views, rejected byte strings) runs with an allocator installed that keeps a ledger of every block, poisons it, aligns it no better than asked and guards its ends; afterwards every block must be back; "
              "non-trivial: at least 10 blocks were handed out, and the case is non-trivial by its own rule") {
    std::vector<Prop *> ps;
    for (auto &p : registry()) if (strcmp(p.id, "C23")) ps.push_back(&p);
    std::sort(ps.begin(), ps.end(), [](Prop *a, Prop *b) { return strcmp(a->id, b->id) < 0; });
    Prop *p = ps[c.t.draw(ps.size())];
    c.log("case of %s", p->id);
    ledger::State &s = ledger::st();
    PCHECK(c, s.live.empty(), "harness: blocks left from an earlier case");
    s.serial = 0;
    ledger::install();
    g_direct = nullptr;
    p->fn(c);
    ledger::check_all();
    PCHECK(c, !s.wrong, "%s: %s %zu", p->id, s.wrong, s.wrong_n);
    if (!s.live.empty()) {
        auto &b = s.live.begin()->second;
        PCHECK(c, false, "%s: %zu blocks (%zu bytes) were not returned, one of %zu bytes, %s, request %llu of %llu", p->id, s.live.size(), s.bytes, b.n, b.align ? "aligned" : "plain", (unsigned long long)b.serial, (unsigned long long)s.serial);
    }
    PCHECK(c, !g_direct, "%s: the library called %s directly", p->id, g_direct);
    c.count(p->id);
    c.count("blocks", s.serial);
    c.nontrivial = c.nontrivial && s.serial >= 10;
}
