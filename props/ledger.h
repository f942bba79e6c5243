// An allocator for the library that keeps a ledger of every block.
#pragma once
#include <stdlib.h>
#include <algorithm>
#include <unordered_map>
#include "pbt.h"
#include <roaring/memory.h>

namespace ledger {
using pbt::u64;
struct Block { size_t n, align; char *base; u64 serial; };
struct State {
    std::unordered_map<void *, Block> live;
    u64 serial = 0, plain = 0, aligned = 0, resized = 0;
    size_t bytes = 0;
    u64 fail_at = 0;       // serial of the request that fails; 0: none
    u64 fail_upto = 0;     // and every request up to this one
    bool failed = false;
    const char *wrong = nullptr;
    size_t wrong_n = 0;
};
inline State &st() { static State *s = new State; return *s; }
static const size_t HEAD = 64, TAIL = 32;
inline void wrong(const char *w, size_t n) { if (!st().wrong) { st().wrong = w; st().wrong_n = n; } }

inline void *get(size_t align, size_t n) {
    State &s = st();
    s.serial++;
    if (s.fail_at && s.serial >= s.fail_at && s.serial <= s.fail_upto) { s.failed = true; return nullptr; }
    if (n > (1ull << 32)) return nullptr;
    size_t a = align ? align : 16, off = (HEAD + a - 1) / a * a;
    if (off % (2 * a) == 0) off += a;  // aligned as asked for, and no better
    size_t tot = (off + n + TAIL + 2 * a - 1) / (2 * a) * (2 * a);
    char *b = (char *)aligned_alloc(2 * a < 64 ? 64 : 2 * a, (tot + 63) / 64 * 64);
    if (!b) return nullptr;
    if (2 * a < 64) { off = 80; if (a != 16) off = 64 + a; }
    memset(b, 0xC7, off);
    memset(b + off, 0xA5, n);
    memset(b + off + n, 0xC9, TAIL);
    s.live[b + off] = {n, align, b, s.serial};
    s.bytes += n;
    return b + off;
}
inline bool check_block(void *p, const Block &b) {
    char *q = (char *)p;
    for (char *x = b.base; x < q; x++) if (*x != (char)0xC7) { wrong("bytes before a block were overwritten; block size", b.n); return false; }
    for (size_t i = 0; i < TAIL; i++) if (q[b.n + i] != (char)0xC9) { wrong("bytes after a block were overwritten; block size", b.n); return false; }
    return true;
}
inline bool put(void *p, bool aligned, const char *unknown, const char *mixed) {
    State &s = st();
    auto it = s.live.find(p);
    if (it == s.live.end()) { wrong(unknown, (size_t)p); return false; }
    if ((it->second.align != 0) != aligned) { wrong(mixed, it->second.n); return false; }
    check_block(p, it->second);
    memset(p, 0xDD, it->second.n);
    s.bytes -= it->second.n;
    char *b = it->second.base;
    s.live.erase(it);
    ::free(b);
    return true;
}
inline void *m_malloc(size_t n) { st().plain++; return get(0, n); }
inline void *m_calloc(size_t k, size_t n) {
    st().plain++;
    if (n && k > SIZE_MAX / n) return nullptr;
    void *p = get(0, k * n);
    if (p) memset(p, 0, k * n);
    return p;
}
inline void m_free(void *p) {
    if (p) put(p, false, "free of what is not a live block", "free of an aligned block of size");
}
inline void *m_realloc(void *p, size_t n) {
    State &s = st();
    s.resized++;
    if (!p) return get(0, n);
    auto it = s.live.find(p);
    if (it == s.live.end()) { wrong("realloc of what is not a live block", (size_t)p); return nullptr; }
    if (it->second.align) { wrong("realloc of an aligned block of size", it->second.n); return nullptr; }
    size_t old = it->second.n;
    if (n == 0) { put(p, false, "", ""); return nullptr; }
    void *q = get(0, n);
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    put(p, false, "", "");
    return q;
}
inline void *m_aligned(size_t a, size_t n) {
    st().aligned++;
    if (a == 0 || (a & (a - 1))) wrong("aligned request with alignment", a);
    return get(a, n);
}
inline void m_aligned_free(void *p) {
    if (p) put(p, true, "aligned_free of what is not a live block", "aligned_free of a plain block of size");
}
inline void install() {
    roaring_memory_t h = {m_malloc, m_realloc, m_calloc, m_free, m_aligned, m_aligned_free};
    roaring_init_memory_hook(h);
}
inline void check_all() { for (auto &x : st().live) check_block(x.first, x.second); }
}  // namespace ledger
