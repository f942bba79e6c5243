#include <algorithm>
#include <map>
#include <memory>
#include "pbt.h"
#include "guard.h"
#include <roaring/art/art.h>
#include <roaring/memory.h>
using namespace pbt;
using namespace roaring::internal;
typedef unsigned long long ull;

struct Key25 {
    art_key_chunk_t b[ART_KEY_BYTES];
    explicit Key25(u64 k) { for (int i = 0; i < 6; i++) b[i] = (u8)(k >> (40 - 8 * i)); }
};
static u64 num25(const art_key_chunk_t *b) {
    u64 k = 0;
    for (int i = 0; i < 6; i++) k = k << 8 | b[i];
    return k;
}
static const u64 TOP = (1ull << 48) - 1;

struct Seen25 { std::map<u64, u64> *vals; u64 n; };
static bool leaf25(const art_val_t v, const char **reason, void *p) {
    Seen25 &s = *(Seen25 *)p;
    s.n++;
    if (!s.vals->count(v)) { *reason = "unknown value"; return false; }
    return true;
}

struct Mach25 {
    Ctx &c;
    typedef std::map<u64, u64> M;
    art_t a;
    M m;
    u64 nextval = 1, kinds = 0, grew = 0, cursor = 0, frozen = 0, shrunk = 0, big;
    u64 bases[3];
    explicit Mach25(Ctx &c_) : c(c_) { art_init_cleared(&a); }
    ~Mach25() { art_free(&a); }

    u64 some() { auto it = m.lower_bound(c.t.draw(TOP + 1)); if (it == m.end()) it = m.begin(); return it->first; }
    u64 member() {
        if (m.empty()) return c.t.draw(TOP + 1);
        if (c.t.draw(2)) return some();
        auto it = m.lower_bound(key(1));
        return it == m.end() ? m.rbegin()->first : it->first;
    }
    // keys that share prefixes of every length with each other
    u64 key(int depth = 0) {
        switch (c.t.pick({4, 4, 3, 2, 2, 1})) {
            case 0: return (bases[c.t.draw(3)] & ~0xffull) | c.t.draw(256);
            case 1: {  // one byte of a base or a member differs
                u64 k = m.empty() || depth || c.t.draw(2) ? bases[c.t.draw(3)] : some();
                int sh = 8 * (int)c.t.draw(6);
                return (k & ~(0xffull << sh)) | c.t.draw(256) << sh;
            }
            case 2: {
                u64 k = bases[c.t.draw(3)];
                for (int i = 0; i < 6; i++) if (c.t.chance(1, 3)) k = (k & ~(0xffull << (8 * i))) | (u64)c.t.draw(4) * 85 << (8 * i);
                return k;
            }
            case 3: return c.t.draw(TOP + 1);
            case 4: {
                if (m.empty() || depth) return c.t.draw(1000);
                u64 k = some();
                return c.t.draw(2) ? (k == TOP ? k : k + 1) : (k ? k - 1 : k);
            }
            default: { static const u64 S[] = {0, TOP, 0xff, 0x100, TOP - 0xff, 1ull << 40, (1ull << 40) - 1}; return S[c.t.draw(7)]; }
        }
    }
    void at(const art_iterator_t &it, M::const_iterator e, const char *what) {
        if (e == m.end()) {
            PCHECK(c, it.value == nullptr, "%s: at %llx, there is no such key", what, (ull)num25(it.key));
        } else {
            PCHECK(c, it.value != nullptr, "%s: no position, expected %llx", what, (ull)e->first);
            PCHECK(c, num25(it.key) == e->first, "%s: at %llx, expected %llx", what, (ull)num25(it.key), (ull)e->first);
            PCHECK(c, *it.value == e->second, "%s: value %llu at %llx, expected %llu", what, (ull)*it.value, (ull)e->first, (ull)e->second);
        }
    }
    void all(art_t *t, const char *what) {
        const char *reason = nullptr;
        std::map<u64, u64> vals;
        for (auto &x : m) vals[x.second] = 1;
        Seen25 s = {&vals, 0};
        PCHECK(c, art_internal_validate(t, &reason, leaf25, &s), "%s: the index is invalid: %s", what, reason ? reason : "?");
        PCHECK(c, s.n == m.size(), "%s: %llu leaves, expected %zu", what, (ull)s.n, m.size());
        PCHECK(c, art_is_empty(t) == m.empty(), "%s: is_empty", what);
        art_iterator_t it = art_init_iterator(t, true);
        for (auto e = m.cbegin();; ++e) {
            at(it, e, what);
            if (e == m.cend()) break;
            bool r = art_iterator_next(&it);
            PCHECK(c, r == (it.value != nullptr), "%s: result of next", what);
        }
        it = art_init_iterator(t, false);
        for (auto e = m.crbegin(); e != m.crend(); ++e) {
            PCHECK(c, it.value && num25(it.key) == e->first && *it.value == e->second, "%s: backward, expected %llx", what, (ull)e->first);
            bool r = art_iterator_prev(&it);
            PCHECK(c, r == (it.value != nullptr), "%s: result of prev", what);
        }
        PCHECK(c, !it.value, "%s: backward continues after the first key", what);
    }
    void lookups(art_t *t, int n, const char *what) {
        for (int i = 0; i < n; i++) {
            u64 k = key();
            Key25 kk(k);
            auto e = m.find(k);
            art_val_t *v = art_find(t, kk.b);
            PCHECK(c, (v != nullptr) == (e != m.end()) && (!v || *v == e->second), "%s: find %llx", what, (ull)k);
            art_iterator_t it = art_lower_bound(t, kk.b);
            at(it, m.lower_bound(k), what);
            walk(it, m.lower_bound(k), what);
            it = art_upper_bound(t, kk.b);
            at(it, m.upper_bound(k), what);
            walk(it, m.upper_bound(k), what);
        }
    }
    // a few moves from a position
    void walk(art_iterator_t it, M::const_iterator e, const char *what) {
        for (u64 k = c.t.draw(6); k > 0 && it.value; k--) {
            u64 r = c.t.draw(3);
            bool res;
            if (r == 0) { res = c.t.draw(2) ? art_iterator_next(&it) : art_iterator_move(&it, true); ++e; }
            else if (r == 1) {
                res = c.t.draw(2) ? art_iterator_prev(&it) : art_iterator_move(&it, false);
                if (e == m.begin()) e = m.end(); else --e;
            } else {
                u64 to = key();
                if (to < e->first) to = e->first + (to & 0x3ff);
                if (to > TOP) to = TOP;
                Key25 kk(to);
                res = art_iterator_lower_bound(&it, kk.b);
                e = m.lower_bound(to);
                at(it, e, "forward lower bound");
            }
            PCHECK(c, res == (it.value != nullptr), "%s: result of a move", what);
            at(it, e, what);
        }
        if (!it.value && c.t.chance(1, 2)) {  // an exhausted cursor searches from the root
            u64 to = key();
            Key25 kk(to);
            bool res = art_iterator_lower_bound(&it, kk.b);
            e = m.lower_bound(to);
            PCHECK(c, res == (e != m.end()), "%s: result of lower_bound on an exhausted cursor", what);
            at(it, e, "lower bound on an exhausted cursor");
        }
    }
    u64 val() { return c.t.draw(8) ? nextval++ : nextval++ << 40; }
    void insert(u64 k) {
        if (m.count(k)) return;
        Key25 kk(k);
        u64 v = val();
        art_val_t *p = art_insert(&a, kk.b, v);
        PCHECK(c, p && *p == v, "insert %llx returns a pointer to its value", (ull)k);
        m[k] = v;
    }
    void erase(u64 k) {
        Key25 kk(k);
        art_val_t v = 77;
        bool had = m.count(k), want = c.t.draw(4) != 0;
        bool r = art_erase(&a, kk.b, want ? &v : nullptr);
        PCHECK(c, r == had, "erase %llx returned %d", (ull)k, r);
        if (r && want) PCHECK(c, v == m[k], "erase %llx gave value %llu", (ull)k, (ull)v);
        m.erase(k);
    }
    void freeze(bool rebuild) {
        art_shrink_to_fit(&a);
        PCHECK(c, art_is_shrunken(&a), "is_shrunken after shrink_to_fit");
        size_t n = art_size_in_bytes(&a);
        PCHECK(c, n > 0, "size_in_bytes after shrink_to_fit");
        art_t e;
        art_init_cleared(&e);
        if (m.empty()) PCHECK(c, n == art_size_in_bytes(&e), "an empty index still takes %zu bytes after compaction", n);
        auto g = std::unique_ptr<Guard>(new Guard(n, 8));
        PCHECK(c, art_serialize(&a, g->p) == n, "serialize returns size_in_bytes");
        g->readonly();
        art_t v;
        memset(&v, 0x5a, sizeof v);
        PCHECK(c, art_frozen_view(g->p, g->n, &v) == n, "frozen_view consumes what was written");
        all(&v, "frozen");
        lookups(&v, 4, "frozen");
        std::vector<u64> again(n / 8 + 2);
        PCHECK(c, art_is_shrunken(&v) && art_size_in_bytes(&v) == n && art_serialize(&v, (char *)again.data()) == n && !memcmp(again.data(), g->p, n), "a view serializes to the same bytes");
        // a shorter buffer is refused and leaves an empty index
        size_t cut = c.t.draw(n);
        Guard s(cut, 8);
        memcpy(s.p, g->p, cut);
        memset(&v, 0x5a, sizeof v);
        PCHECK(c, art_frozen_view(s.p, cut, &v) == 0, "a buffer cut to %zu of %zu bytes is accepted", cut, n);
        frozen++;
        (void)rebuild;
    }
    void step() {
        switch (c.t.pick({8, 6, 5, 4, 4, 5, 3, 2, 1})) {
            case 0: { u64 k = key(); c.log("insert %llx", (ull)k); insert(k); break; }
            case 1: { u64 k = c.t.draw(4) ? member() : key(); c.log("erase %llx", (ull)k); erase(k); break; }
            case 2: {  // fan out one byte
                u64 k = c.t.draw(3) ? member() : key();
                int sh = 8 * (int)c.t.draw(6);
                static const u32 N[] = {3, 4, 5, 15, 16, 17, 47, 48, 49, 50, 100, 256};
                u32 n = N[c.t.draw(12)], from = (u32)c.t.draw(256), by = c.t.draw(3) ? 1 : 1 + 2 * (u32)c.t.draw(20);
                if (m.size() + n > big) break;
                u64 lo = c.t.draw(2) ? 0 : c.t.draw(TOP + 1);
                c.log("fan out %llx at byte %d: %u from %u by %u", (ull)k, sh / 8, n, from, by);
                for (u32 i = 0; i < n; i++) {
                    u64 x = (k & ~(0xffull << sh)) | (u64)((from + i * by) & 255) << sh;
                    if (lo && sh) x ^= lo & ((1ull << sh) - 1) & (0x0101010101ull * (i & 3));
                    insert(x);
                }
                grew++;
                break;
            }
            case 3: {  // thin out a subtree
                if (m.empty()) break;
                u64 k = member();
                int sh = 8 * (1 + (int)c.t.draw(6));
                u64 lo = sh == 48 ? 0 : k >> sh << sh, hi = sh == 48 ? TOP : lo + (1ull << sh) - 1;
                u32 keep = (u32)c.t.draw(20), num = 1 + (u32)c.t.draw(5);
                bool backward = c.t.draw(2);
                std::vector<u64> ks;
                for (auto it = m.lower_bound(lo); it != m.end() && it->first <= hi; ++it) ks.push_back(it->first);
                if (backward) std::reverse(ks.begin(), ks.end());
                c.log("thin out %llx..%llx, keep %u", (ull)lo, (ull)hi, keep);
                size_t left = ks.size();
                for (u64 x : ks) { if (left <= keep) break; if (num < 5 && c.t.chance(num, 6)) continue; erase(x); left--; }
                break;
            }
            case 4: {  // a cursor erases
                u64 k = key();
                Key25 kk(k);
                art_iterator_t it;
                M::iterator e;
                u64 how = c.t.draw(3);
                if (how == 0) { it = art_init_iterator(&a, true); e = m.begin(); }
                else if (how == 1) { it = art_lower_bound(&a, kk.b); e = m.lower_bound(k); }
                else { it = art_init_iterator(&a, false); e = m.empty() ? m.end() : std::prev(m.end()); }
                at(it, e, "cursor");
                u64 n = c.t.draw(4) ? c.t.draw(8) : c.t.draw(400);
                c.log("cursor from %llx, %llu steps", (ull)k, (ull)n);
                for (u64 i = 0; i < n && it.value; i++) {
                    u64 r = c.t.draw(6);
                    if (r < 3) {
                        art_val_t v = 5;
                        bool want = c.t.draw(3) != 0;
                        bool ok = art_iterator_erase(&it, want ? &v : nullptr);
                        PCHECK(c, ok && (!want || v == e->second), "cursor erase at %llx gave %llu", (ull)e->first, (ull)v);
                        e = m.erase(e);
                        at(it, e, "after a cursor erase");
                        if (n < 10 && c.t.draw(4) == 0) all(&a, "after a cursor erase");
                        cursor++;
                    } else if (r < 4) {
                        bool ok = art_iterator_next(&it);
                        ++e;
                        at(it, e, "next");
                        PCHECK(c, ok == (e != m.end()), "next result");
                    } else if (r < 5) {
                        if (e == m.begin()) continue;
                        PCHECK(c, art_iterator_prev(&it), "prev result");
                        --e;
                        at(it, e, "prev");
                    } else {
                        u64 x = key();
                        if (m.count(x)) continue;
                        Key25 xx(x);
                        u64 v = val();
                        art_iterator_insert(&it, xx.b, v);
                        e = m.emplace(x, v).first;
                        at(it, e, "after a cursor insert");
                        cursor++;
                    }
                }
                if (!it.value) {
                    art_val_t v = 5;
                    PCHECK(c, !art_iterator_erase(&it, &v) , "erase on an exhausted cursor");
                    u64 to = key();
                    Key25 kk2(to);
                    bool res = art_iterator_lower_bound(&it, kk2.b);
                    auto w = m.lower_bound(to);
                    PCHECK(c, res == (w != m.end()), "lower_bound on an exhausted cursor after erasing: %d", res);
                    at(it, w, "lower bound on an exhausted cursor after erasing");
                    if (c.t.draw(2)) {
                        u64 x = key();
                        if (m.count(x)) break;
                        Key25 xx(x);
                        u64 v2 = val();
                        art_iterator_insert(&it, xx.b, v2);
                        auto p = m.emplace(x, v2).first;
                        at(it, p, "insert through an exhausted cursor");
                    }
                }
                break;
            }
            case 5: c.log("lookups"); lookups(&a, 1 + (int)c.t.draw(8), "lookups"); break;
            case 6: {
                bool was = art_is_shrunken(&a);
                size_t f = art_shrink_to_fit(&a);
                c.log("shrink_to_fit -> %zu", f);
                PCHECK(c, art_is_shrunken(&a) && (was ? f == 0 : f > 0), "shrink_to_fit frees %zu, was shrunken before: %d", f, was);
                shrunk++;
                break;
            }
            case 7: c.log("freeze"); freeze(false); break;
            default:
                if (c.t.draw(3)) break;
                c.log("clear");
                while (!m.empty()) erase(c.t.draw(2) ? m.begin()->first : m.rbegin()->first);
                break;
        }
    }
};

PROPERTY(C25, "one index under 10-90 generated steps over keys that share prefixes of every length (single insertions and erasures, fan-out of one byte to 3-256 children, thinning of subtrees, cursors that erase, insert and search, compaction, freezing into guarded read-only memory), compared with std::map: full traversal both ways plus the library's own validation after every step; "
              "non-trivial: a byte was fanned out, a cursor changed the index and at least 20 keys were present at some point") {
    Mach25 m(c);
    static const u32 B[] = {40, 300, 800, 2500};
    m.big = B[c.t.pick({3, 4, 2, 1})];
    for (auto &b : m.bases) b = c.t.draw(3) ? c.t.draw(TOP + 1) : (u64)c.t.draw(3) * 0x0000010000ffull;
    if (c.t.draw(2)) m.bases[1] = m.bases[0] ^ (u64)c.t.range(1, 255) << (8 * c.t.draw(6));
    u32 n = 10 + (u32)c.t.draw(c.thorough ? 160 : 80);
    size_t peak = 0;
    for (u32 k = 0; k < n; k++) {
        m.step();
        m.all(&m.a, "after the step");
        peak = std::max(peak, m.m.size());
    }
    m.lookups(&m.a, 10, "at the end");
    m.freeze(true);
    c.count("cursor_changes", m.cursor);
    c.count("fan_outs", m.grew);
    c.count("frozen", m.frozen);
    c.nontrivial = m.grew && m.cursor && peak >= 20;
}
