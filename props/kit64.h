// Building and observing 64-bit bitmaps next to the ISet model.
#pragma once
#include "kit32.h"
#include <roaring/roaring64.h>

typedef roaring64_bitmap_t RB64;
static const u64 MAX64 = UINT64_MAX;

namespace gen {
// 48-bit chunk keys whose tree has inner nodes of every width, long common
// prefixes, late and early branching.
inline Pool pool64(Ctx &c, u32 maxkeys = 6) {
    Pool p;
    std::vector<u64> k;
    const u64 M = (1ull << 48) - 1;
    u32 n = 1 + (u32)c.t.draw(maxkeys);
    switch (c.t.pick({4, 3, 2, 5, 3, 2})) {
        case 5: {  // neighbours but for one higher byte
            u64 b = c.t.draw(2) ? c.t.draw(1ull << 48) : c.t.draw(3);
            while (k.size() < n && b <= M) {
                k.push_back(b);
                u64 d = c.t.draw(3) ? (1 + c.t.draw(2)) << (8 * c.t.draw(6)) : 0;
                b += 1 + d;
                if (b > M) b -= d;
            }
            break;
        }
        case 0: for (u32 i = 0; i < n; i++) k.push_back(i); break;
        case 1: for (u32 i = 0; i < n; i++) k.push_back(M - i); break;
        case 2: for (u32 i = 0; i < n; i++) k.push_back(c.t.draw(1ull << 48)); break;
        case 3: {  // relatives of a base key: one byte changed at a generated depth
            u64 b = c.t.draw(2) ? c.t.draw(1ull << 48) : c.t.draw(2) ? 0 : M;
            k.push_back(b);
            while (k.size() < n) {
                u64 s = k[c.t.draw(k.size())];
                u32 byte = (u32)c.t.draw(6);
                static const u64 V[] = {0, 1, 2, 127, 128, 254, 255};
                u64 v = c.t.draw(2) ? V[c.t.draw(7)] : c.t.draw(256);
                s = (s & ~(0xffull << (8 * byte))) | (v << (8 * byte));
                k.push_back(s);
                if (c.t.chance(1, 12)) break;
            }
            break;
        }
        default: {  // around a 32-bit bucket edge
            u64 b = (c.t.draw(2) ? c.t.draw(1ull << 32) : c.t.draw(3)) << 16;
            for (u32 i = 0; i < n; i++) k.push_back((b + i - n / 2) & M);
        }
    }
    std::sort(k.begin(), k.end());
    k.erase(std::unique(k.begin(), k.end()), k.end());
    p.keys = k;
    return p;
}
// Many keys with few values: fan-outs that make nodes grow and shrink.
inline ISet bushy64(Ctx &c, Pool &p) {
    u32 n = 3 + (u32)c.t.draw(c.t.chance(1, 4) ? 700 : 60);
    u32 byte = (u32)c.t.draw(6), byte2 = (u32)c.t.draw(6);
    u64 base = c.t.draw(2) ? c.t.draw(1ull << 48) : 0;
    Rng r(c.t.seed());
    std::vector<u64> k;
    for (u32 i = 0; i < n; i++) {
        u64 s = base;
        s = (s & ~(0xffull << (8 * byte))) | (r.below(256) << (8 * byte));
        if (n > 250 || r.below(4) == 0) s = (s & ~(0xffull << (8 * byte2))) | (r.below(n > 250 ? 6 : 3) << (8 * byte2));
        k.push_back(s);
    }
    std::sort(k.begin(), k.end());
    k.erase(std::unique(k.begin(), k.end()), k.end());
    ISet out;
    for (u64 x : k) {
        u64 at = r.below(200), m = 1 + r.below(3);
        for (u64 j = 0; j < m && at < 65536; j++) {
            u64 hi = std::min<u64>(65535, at + r.below(4));
            out.append((x << 16) + at, (x << 16) + hi);
            at = hi + 2 + r.below(20000);
        }
    }
    for (u32 i = 0; i < 4 && !k.empty(); i++) p.keys.push_back(k[r.below(k.size())]);
    std::sort(p.keys.begin(), p.keys.end());
    p.keys.erase(std::unique(p.keys.begin(), p.keys.end()), p.keys.end());
    return out;
}
// An interval of 2^31 to 2^33 values: more chunks than 16 bits can count.
inline ISet wide64(Ctx &c, Pool &p) {
    ISet s;
    c.count("wide_sets");
    u64 len = (1ull << 31) + c.t.draw((1ull << 33) - (1ull << 31)), lo;
    if (c.t.chance(1, 4)) len = 1ull << 32;
    switch (c.t.draw(4)) {
        case 0: lo = c.t.draw(2) ? 0 : c.t.draw(1ull << 32); break;
        case 1: lo = UINT64_MAX - len + 1 - (c.t.draw(2) ? 0 : c.t.draw(1ull << 20)); break;
        case 2: lo = c.t.draw(1ull << 20) << 32; break;
        default: lo = c.t.draw(0) >> 1;
    }
    s.append(lo, lo + (len - 1));
    p.keys.push_back(lo >> 16);
    p.keys.push_back((lo + (len - 1)) >> 16);
    std::sort(p.keys.begin(), p.keys.end());
    p.keys.erase(std::unique(p.keys.begin(), p.keys.end()), p.keys.end());
    for (u32 i = 0, n = (u32)c.t.draw(4); i < n; i++) {
        u64 x = (p.keys[c.t.draw(p.keys.size())] << 16) + pos16(c);
        if (c.t.draw(2)) s.add(x, x); else s.remove(x, x);
    }
    return s;
}
inline ISet set64(Ctx &c, Pool &p) {
    switch (c.t.pick({1600, 400, 200, 100, c.wide ? 15u : 0u, 150})) {
        case 4: return wide64(c, p);
        case 5: return bridges(c, p);
        case 0: return set_of_pool(c, p);
        case 1: return bushy64(c, p);
        case 2: {
            ISet s = set_of_pool(c, p);
            u64 lo = (p.keys[c.t.draw(p.keys.size())] << 16) + pos16(c);
            u64 hi = lo + c.t.draw(12ull << 16);
            if (hi < lo) hi = MAX64;
            s.add(lo, hi);
            return s;
        }
        default: return ISet();
    }
}
inline ISet related64(Ctx &c, Pool &p, const ISet &a) {
    ISet b;
    switch (c.t.pick({6, 3, 2, 2, 1, 2, 2, 4, 3, 3})) {
        case 9: return woven(c, p, a);
        case 7: return balanced(c, p, a);
        case 8: return pebbles(c, p, a);
        case 0: return set64(c, p);
        case 1: {
            b = a;
            u32 n = 1 + (u32)c.t.draw(4);
            for (u32 i = 0; i < n; i++) {
                u64 x = (p.keys[c.t.draw(p.keys.size())] << 16) + pos16(c);
                u64 y = x + std::min<u64>((x | 0xffff) - x, c.t.draw(c.t.chance(1, 3) ? 5000 : 3));
                b.flip(x, y);
            }
            return b;
        }
        case 2: return sample_of(a, c.t.seed(), 1 + (u32)c.t.draw(15));
        case 3: return ISet::op(a, set64(c, p), 1);
        case 4: return a;
        case 5: {
            ISet all;
            for (u64 k : p.keys) all.append(k << 16, (k << 16) | 0xffff);
            return ISet::op(all, a, 2);
        }
        default: return ISet::op(set64(c, p), a, 2);
    }
}
}  // namespace gen

inline RB64 *from_model_portable64(Ctx &c, const ISet &s, const KindPolicy &pol) {
    fmt::Bytes b = fmt::encode64(s, pol);
    RB64 *r = roaring64_bitmap_portable_deserialize_safe((const char *)b.data(), b.size());
    PCHECK(c, r != nullptr, "64-bit portable_deserialize_safe rejected a valid stream of %s", s.str().c_str());
    return r;
}
inline RB64 *build64(Ctx &c, const ISet &s) {
    size_t route = c.t.pick({4, 4, 6, 2, 1});
    u64 card = s.card();
    if (route == 0 && card > 200000) route = 1;
    if (route == 3 && card > 3000) route = 2;
    bool huge = card > (1u << 25);
    RB64 *r = nullptr;
    switch (route) {
        case 0: {
            auto v = s.values(card);
            r = roaring64_bitmap_of_ptr(v.size(), v.data());
            break;
        }
        case 1:
            r = roaring64_bitmap_create();
            for (auto &iv : s.v) roaring64_bitmap_add_range_closed(r, iv.lo, iv.hi);
            break;
        case 2: {
            KindPolicy pol{(int)c.t.draw(4), 0};
            if (huge) pol.mode = 1 + 2 * (pol.mode & 1);
            if (pol.mode == 2) pol.seed = c.t.seed();
            r = from_model_portable64(c, s, pol);
            break;
        }
        case 3: {
            auto v = s.values(card);
            Rng rg(c.t.seed());
            for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rg.below(i)]);
            r = roaring64_bitmap_create();
            for (u64 x : v) roaring64_bitmap_add(r, x);
            break;
        }
        default: {  // extra keys come and go
            r = roaring64_bitmap_create();
            Rng rg(c.t.seed());
            std::vector<u64> extra;
            u64 base = s.empty() ? 0 : s.v[0].lo;
            for (int i = 0; i < 40; i++) extra.push_back(base ^ (rg.below(256) << (8 * rg.below(8))));
            for (u64 x : extra) roaring64_bitmap_add(r, x);
            for (auto &iv : s.v) roaring64_bitmap_add_range_closed(r, iv.lo, iv.hi);
            for (u64 x : extra) if (!s.contains(x)) roaring64_bitmap_remove(r, x);
        }
    }
    switch (c.t.pick({6, 3, 1, 1})) {
        case 1: roaring64_bitmap_run_optimize(r); break;
        case 2: roaring64_bitmap_shrink_to_fit(r); break;
        case 3: roaring64_bitmap_run_optimize(r); roaring64_bitmap_shrink_to_fit(r); break;
        default: break;
    }
    return r;
}
inline std::string bytes_of64(const RB64 *r) {
    std::string b(roaring64_bitmap_portable_size_in_bytes(r), '\0');
    size_t n = roaring64_bitmap_portable_serialize(r, &b[0]);
    if (n != b.size()) b = "wrong length";
    return b;
}
inline void expect64(Ctx &c, const RB64 *r, const ISet &m, const char *what) {
    if (c.notes) c.note(what, bytes_of64(r));
    u64 card = m.card(), got = roaring64_bitmap_get_cardinality(r);
    PCHECK(c, got == card, "%s: cardinality %llu, expected %llu of %s", what, (unsigned long long)got, (unsigned long long)card, m.str().c_str());
    PCHECK(c, roaring64_bitmap_is_empty(r) == (card == 0), "%s: is_empty wrong", what);
    if (card <= 20000) {
        std::unique_ptr<u64[]> a(new u64[card + 1]);
        a[card] = 0xDEADBEEF;
        roaring64_bitmap_to_uint64_array(r, a.get());
        PCHECK(c, a[card] == 0xDEADBEEF, "%s: to_uint64_array wrote too much", what);
        size_t i = 0;
        for (auto &iv : m.v)
            for (u64 x = iv.lo;; x++) {
                PCHECK(c, a[i] == x, "%s: value #%zu is %llu, expected %llu of %s", what, i, (unsigned long long)a[i], (unsigned long long)x, m.str().c_str());
                i++;
                if (x == iv.hi) break;
            }
        return;
    }
    roaring64_iterator_t *it = roaring64_iterator_create(r);
    std::unique_ptr<u64[]> buf(new u64[4096]);
    if (card <= 600000) {
        size_t at = 0;
        u64 x = m.v[0].lo, seen = 0;
        for (;;) {
            u64 k = roaring64_iterator_read(it, buf.get(), 4096);
            for (u64 j = 0; j < k; j++) {
                PCHECK(c, at < m.v.size() && buf[j] == x, "%s: enumerates %llu, expected %llu of %s", what, (unsigned long long)buf[j], (unsigned long long)x, m.str().c_str());
                seen++;
                if (x == m.v[at].hi) { at++; if (at < m.v.size()) x = m.v[at].lo; } else x++;
            }
            if (k < 4096) break;
        }
        PCHECK(c, seen == card, "%s: enumerates %llu values, expected %llu", what, (unsigned long long)seen, (unsigned long long)card);
    } else {
        for (auto &iv : m.v) {
            PCHECK(c, roaring64_bitmap_contains(r, iv.lo) && roaring64_bitmap_contains(r, iv.hi), "%s: lacks %llu or %llu", what, (unsigned long long)iv.lo, (unsigned long long)iv.hi);
            if (iv.hi < MAX64) PCHECK(c, roaring64_bitmap_contains_range(r, iv.lo, iv.hi + 1), "%s: lacks part of %llu-%llu", what, (unsigned long long)iv.lo, (unsigned long long)iv.hi);
        }
    }
    roaring64_iterator_free(it);
}
inline void expect_valid64(Ctx &c, const RB64 *r, const char *what) {
    const char *why = nullptr;
    PCHECK(c, roaring64_bitmap_internal_validate(r, &why), "%s: internal_validate says: %s", what, why ? why : "?");
}
struct Mix64 { u64 a, r, b; };
inline Mix64 mix_of64(const RB64 *r) {
    roaring64_statistics_t st;
    roaring64_bitmap_statistics(r, &st);
    return {st.n_array_containers, st.n_run_containers, st.n_bitset_containers};
}
