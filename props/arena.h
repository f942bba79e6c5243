// Storage that can be made unwritable: while an arena is open the library's
// allocations come from one mapping; sealing it turns every write to a block
// allocated so far into a fault, and every release of one into a violation.
#pragma once
#include <stdlib.h>
#include <sys/mman.h>
#include <cstdint>
#include <cstring>
#include <roaring/memory.h>

namespace arena {
static const size_t ROOM = 1ull << 30, HEAD = 32;
struct State { char *base = nullptr; size_t used = 0, dirty = 0; bool open = false, sealed = false; const char *broken = nullptr; };
inline State &st() { static State s; return s; }
inline bool inside(const void *p) { State &s = st(); return s.base && (const char *)p >= s.base && (const char *)p < s.base + s.used; }
inline void *get(size_t align, size_t n) {
    State &s = st();
    if (!s.open) {
        void *p = nullptr;
        if (align) return posix_memalign(&p, align < sizeof(void *) ? sizeof(void *) : align, n) ? nullptr : p;
        return ::malloc(n);
    }
    size_t a = align < 16 ? 16 : align, at = (s.used + HEAD + a - 1) / a * a;
    if (at + n > ROOM) return nullptr;
    memcpy(s.base + at - sizeof n, &n, sizeof n);
    s.used = at + (n ? n : 1);
    return s.base + at;
}
inline void put(void *p) {
    State &s = st();
    if (!inside(p)) { ::free(p); return; }
    if (s.sealed) s.broken = "released storage of its read-only operand";
}
inline void *h_malloc(size_t n) { return get(0, n); }
inline void *h_aligned(size_t a, size_t n) { return get(a, n); }
inline void *h_calloc(size_t k, size_t n) {
    if (!st().open) return ::calloc(k, n);
    void *p = get(0, k * n);
    if (p) memset(p, 0, k * n);
    return p;
}
inline void *h_realloc(void *p, size_t n) {
    if (p && !inside(p)) return ::realloc(p, n);
    void *q = get(0, n);
    if (q && p) {
        size_t old;
        memcpy(&old, (char *)p - sizeof old, sizeof old);
        memcpy(q, p, old < n ? old : n);
    }
    if (p && q) put(p);
    return q;
}
struct Scope {  // one per case
    Scope() {
        State &s = st();
        if (!s.base) {
            s.base = (char *)mmap(nullptr, ROOM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (s.base == MAP_FAILED) abort();
        }
        s.used = 0;
        s.broken = nullptr;
        s.open = true;
        roaring_memory_t h = {h_malloc, h_realloc, h_calloc, put, h_aligned, put};
        roaring_init_memory_hook(h);
    }
    void seal() {
        State &s = st();
        s.open = false;
        s.sealed = true;
        mprotect(s.base, (s.used + 4095) / 4096 * 4096 + 4096, PROT_READ);
    }
    void unseal() {
        State &s = st();
        if (s.sealed) mprotect(s.base, (s.used + 4095) / 4096 * 4096 + 4096, PROT_READ | PROT_WRITE);
        s.sealed = false;
    }
    ~Scope() {
        unseal();
        State &s = st();
        s.open = false;
        if (s.used > (64u << 20)) madvise(s.base, s.used, MADV_DONTNEED);
    }
};
}
