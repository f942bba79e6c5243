// Generators of sets shared by the 32-bit, 64-bit, C++ and bitset properties.
#pragma once
#include "fmt.h"
#include "iset.h"
#include "pbt.h"

using namespace pbt;

namespace gen {

static const u32 kEdge16[] = {0,    1,    2,    31,    32,    62,    63,    64,    65,    127,   128,  255,  256, 511, 512,
                              4094, 4095, 4096, 4097,  8191,  32767, 32768, 65470, 65471, 65472, 65533, 65534, 65535};
static const size_t kNEdge16 = sizeof(kEdge16) / sizeof(kEdge16[0]);

inline u32 pos16(Ctx &c) {
    switch (c.t.pick({4, 3, 2})) {
        case 0: return kEdge16[c.t.draw(kNEdge16)];
        case 1: return (u32)c.t.draw(65536);
        default: {
            u32 w = (u32)c.t.draw(1024) * 64;
            int d = (int)c.t.draw(3) - 1;
            return (u32)(w + d) & 0xffff;
        }
    }
}
inline u32 len16(Ctx &c) {  // length of a run, 1..65536
    switch (c.t.pick({3, 3, 2, 2, 1})) {
        case 0: return 1 + (u32)c.t.draw(4);
        case 1: return 1 + (u32)c.t.draw(200);
        case 2: return 1 + (u32)c.t.draw(5000);
        case 3: {
            static const u32 L[] = {63, 64, 65, 128, 4095, 4096, 4097, 8192, 32768, 65535, 65536};
            return L[c.t.draw(11)];
        }
        default: return 1 + (u32)c.t.draw(65536);
    }
}

// runs: count of intervals with gaps and lengths bounded so that they fit
inline ISet runs_with(u64 seed, u32 count, u32 maxlen, u32 maxgap) {
    Rng r(seed);
    ISet s;
    u32 at = (u32)r.below(3);
    if (r.below(4) == 0) at = (u32)r.below(maxgap + 1);
    for (u32 i = 0; i < count && at <= 65535; i++) {
        u32 l = 1 + (u32)r.below(maxlen);
        u32 hi = std::min<u32>(65535, at + l - 1);
        s.append(at, hi);
        at = hi + 2 + (u32)r.below(maxgap);
    }
    return s;
}
// k distinct random values
inline ISet random_values(u64 seed, u32 k) {
    Rng r(seed);
    if (k > 65536) k = 65536;
    bool inv = k > 32768;
    u32 want = inv ? 65536 - k : k, have = 0;
    std::vector<bool> bit(65536, false);
    while (have < want) {
        u32 x = (u32)r.below(65536);
        if (!bit[x]) { bit[x] = true; have++; }
    }
    ISet s;
    for (u32 x = 0; x < 65536; x++)
        if (bit[x] != inv) s.append(x, x);
    return s;
}

// A set of values of one 2^16-wide chunk; never empty.
inline ISet chunk(Ctx &c) {
    ISet s;
    switch (c.t.pick({8, 6, 4, 5, 4, 4, 4, 3, 5, 3, 3, 3})) {
        case 0: {  // few explicit values
            u32 n = 1 + (u32)c.t.draw(6);
            for (u32 i = 0; i < n; i++) { u32 x = pos16(c); s.add(x, x); }
            break;
        }
        case 1: {  // few explicit runs
            u32 n = 1 + (u32)c.t.draw(5);
            for (u32 i = 0; i < n; i++) {
                u32 x = pos16(c), l = len16(c);
                s.add(x, std::min<u32>(65535, x + l - 1));
            }
            break;
        }
        case 2: s = random_values(c.t.seed(), 5 + (u32)c.t.draw(c.t.chance(1, 2) ? 40 : 3000)); break;
        case 3: {  // near the array/bitset threshold
            u32 k = 4088 + (u32)c.t.draw(17);
            if (c.t.chance(1, 2)) {
                s = random_values(c.t.seed(), k);
            } else {
                u32 step = 1 + (u32)c.t.draw(15), x = (u32)c.t.draw(16);
                for (u32 i = 0; i < k && x <= 65535; i++, x += step) s.append(x, x);
            }
            break;
        }
        case 4: {  // strided
            u32 step = 2 + (u32)c.t.draw(c.t.chance(1, 3) ? 3 : 100), x = (u32)c.t.draw(64);
            for (; x <= 65535; x += step) s.append(x, x);
            break;
        }
        case 5: s = random_values(c.t.seed(), 4097 + (u32)c.t.draw(61439)); break;
        case 6: {  // full minus a few
            s.append(0, 65535);
            u32 n = 1 + (u32)c.t.draw(5);
            for (u32 i = 0; i < n; i++) { u32 x = pos16(c); s.remove(x, x); }
            break;
        }
        case 7: s.append(0, 65535); break;
        case 8: {  // many runs, around the sizes where a run container stops paying
            static const u32 N[] = {10, 100, 500, 1022, 1023, 1024, 1025, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 4095, 16385, 32767, 32768};
            u32 n = N[c.t.draw(18)];
            u32 room = 65536 / n;
            u32 ml = 1 + (u32)c.t.draw(std::max<u32>(1, room / 2)), mg = std::max<u32>(1, (u32)c.t.draw(std::max<u32>(1, room / 2 + 1)));
            s = runs_with(c.t.seed(), n, ml, mg);
            break;
        }
        case 9: {  // prefix or suffix
            u32 x = pos16(c);
            if (c.t.chance(1, 2)) s.append(0, x); else s.append(x, 65535);
            break;
        }
        case 10: {  // short runs: near the array/run size break-even
            u32 n = 1 + (u32)c.t.draw(1500);
            s = runs_with(c.t.seed(), n, 1 + (u32)c.t.draw(4), 1 + (u32)c.t.draw(30));
            break;
        }
        default: {  // runs of whole words, dense at the word edges
            u32 n = 1 + (u32)c.t.draw(20);
            Rng r(c.t.seed());
            for (u32 i = 0; i < n; i++) {
                u32 a = (u32)r.below(1024) * 64, l = (u32)(1 + r.below(8)) * 64;
                u32 lo = a - (u32)r.below(2) * (a > 0), hi = std::min<u32>(65535, a + l - 1 + (u32)r.below(2));
                s.add(lo, hi);
            }
        }
    }
    if (s.empty()) s.append(0, 0);
    return s;
}

struct Pool { std::vector<u64> keys; };  // chunk keys (value >> 16)

inline void append_chunk(ISet &s, u64 key, const ISet &ch) {
    u64 b = key << 16;
    for (auto &iv : ch.v) s.append(b + iv.lo, b + iv.hi);
}

inline Pool pool32(Ctx &c, u32 maxkeys = 4) {
    Pool p;
    u32 n = 1 + (u32)c.t.draw(maxkeys);
    std::vector<u64> k;
    switch (c.t.pick({16, 12, 8, 8, 3})) {
        case 4: {  // neighbours but for a multiple of 256
            u32 b = (u32)c.t.draw(c.t.draw(2) ? 3 : 50000);
            for (u32 i = 0; i < n && b < 65536; i++) { k.push_back(b); b += 1 + 256 * (u32)c.t.draw(3) * (c.t.draw(4) ? 1 : 16); }
            break;
        }
        case 0: for (u32 i = 0; i < n; i++) k.push_back(i); break;
        case 1: for (u32 i = 0; i < n; i++) k.push_back(65535 - i); break;
        case 2: for (u32 i = 0; i < n; i++) k.push_back(c.t.draw(65536)); break;
        default: {
            u32 b = (u32)c.t.draw(65000);
            for (u32 i = 0; i < n; i++) { k.push_back(b); b += 1 + (u32)c.t.draw(3); }
        }
    }
    std::sort(k.begin(), k.end());
    k.erase(std::unique(k.begin(), k.end()), k.end());
    p.keys = k;
    return p;
}

inline ISet set_of_pool(Ctx &c, const Pool &p) {
    ISet s;
    for (u64 k : p.keys)
        if (c.t.draw(4) != 3) append_chunk(s, k, chunk(c));
    return s;
}
// Every block filled up to the next one of the pool, and from its start: what
// reads as one interval if the distance of the blocks is mistaken.
inline ISet bridges(Ctx &c, const Pool &p) {
    ISet s;
    c.count("bridges");
    for (size_t i = 0; i < p.keys.size(); i++) {
        u64 b = p.keys[i] << 16, lo = b, hi = b + 65535;
        bool first = i == 0, last = i + 1 == p.keys.size();
        if (first || c.t.chance(1, 4)) lo = b + pos16(c);
        if (last || c.t.chance(1, 4)) hi = b + pos16(c);
        if (lo > hi) std::swap(lo, hi);
        if (!first && c.t.chance(3, 4)) lo = b;
        if (!last && c.t.chance(3, 4)) hi = b + 65535;
        s.append(lo, hi);
        if (c.t.chance(1, 6) && hi - lo > 2) { u64 x = lo + c.t.draw(hi - lo); s.remove(x, x); }
        if (c.t.chance(1, 10) && hi > lo) s.remove(hi, hi);
    }
    return s;
}
// Many keys with few values each: long key arrays, galloping searches.
inline ISet sparse_many_keys(Ctx &c) {
    ISet s;
    u32 n = 5 + (u32)c.t.draw(c.t.chance(1, 8) ? 3000 : 90);
    Rng r(c.t.seed());
    u64 key = r.below(5);
    u32 gap = 1 + (u32)c.t.draw(c.t.chance(1, 2) ? 3 : 40);
    for (u32 i = 0; i < n && key <= 65535; i++) {
        u32 k = 1 + (u32)r.below(3);
        u64 at = r.below(100);
        for (u32 j = 0; j < k && at <= 65535; j++) {
            u64 hi = std::min<u64>(65535, at + r.below(4));
            s.append((key << 16) + at, (key << 16) + hi);
            at = hi + 2 + r.below(30000);
        }
        key += 1 + r.below(gap);
    }
    return s;
}
// Sets over (nearly) all chunks: large counts, long key arrays.
inline ISet wide32(Ctx &c, const Pool &p) {
    ISet s;
    c.count("wide_sets");
    switch (c.t.draw(3)) {
        case 0: {  // nearly everything
            s.append(0, 0xffffffffu);
            u32 n = (u32)c.t.draw(4);
            for (u32 i = 0; i < n; i++) {
                u64 x = c.t.draw(2) ? (p.keys[c.t.draw(p.keys.size())] << 16) + pos16(c) : c.t.draw(1ull << 32);
                s.remove(x, std::min<u64>(0xffffffffu, x + c.t.draw(c.t.chance(1, 2) ? 3 : 5ull << 16)));
            }
            return s;
        }
        case 1: {  // an interval of more than 2^31 values and a few others
            u64 lo = c.t.draw(1ull << 31), hi = lo + (1ull << 31) - 1 + c.t.draw((1ull << 32) - lo - (1ull << 31) + 1);
            s.append(lo, hi);
            u32 n = (u32)c.t.draw(3);
            for (u32 i = 0; i < n; i++) { u64 x = c.t.draw(1ull << 32); s.add(x, x); }
            return s;
        }
        default: {  // something in every chunk, or in every chunk but a few
            Rng r(c.t.seed());
            u32 gaps = (u32)c.t.draw(3), spread = c.t.draw(2) ? 65536 : 3;
            std::vector<u64> skip;
            for (u32 i = 0; i < gaps; i++) skip.push_back(c.t.draw(65536));
            for (u64 k = 0; k < 65536; k++) {
                if (std::find(skip.begin(), skip.end(), k) != skip.end()) continue;
                u64 x = (k << 16) + r.below(spread);
                s.append(x, x);
            }
            return s;
        }
    }
}
inline ISet set32(Ctx &c, const Pool &p) {
    switch (c.t.pick({2000, 200, 200, 100, c.wide ? 25u : 0u, 100})) {
        case 4: return wide32(c, p);
        case 5: return bridges(c, p);
        case 0: return set_of_pool(c, p);
        case 1: return sparse_many_keys(c);
        case 2: {  // a long interval over several chunks
            ISet s = set_of_pool(c, p);
            u64 lo = (p.keys[0] << 16) + pos16(c);
            u64 hi = std::min<u64>(0xffffffffu, lo + c.t.draw(20ull << 16));
            s.add(lo, hi);
            return s;
        }
        default: return ISet();
    }
}

inline ISet sample_of(const ISet &a, u64 seed, u32 keep_in_16) {  // per interval
    Rng r(seed);
    ISet o;
    for (auto &iv : a.v) {
        u64 k = r.below(16);
        if (k < keep_in_16) {
            o.append(iv.lo, iv.hi);
        } else if (iv.hi > iv.lo && k == 15) {
            u64 m = iv.lo + r.below(iv.hi - iv.lo);
            o.append(iv.lo, m);
        }
    }
    return o;
}

inline ISet window(const ISet &m, u64 lo, u64 hi) {
    ISet w;
    for (size_t i = m.at(lo); i < m.v.size() && m.v[i].lo <= hi; i++) w.append(std::max(lo, m.v[i].lo), std::min(hi, m.v[i].hi));
    return w;
}
inline ISet outside(const ISet &w, u64 lo, u64 hi) {  // complement within [lo,hi]
    ISet o;
    u64 at = lo;
    for (auto &iv : w.v) {
        if (iv.lo > at) o.append(at, iv.lo - 1);
        at = iv.hi + 1;
        if (iv.hi == hi) return o;
    }
    o.append(at, hi);
    return o;
}
// Sizes of a block at which its storage changes shape.
inline u32 threshold(Ctx &c) {
    static const u32 T[] = {4096, 4097, 4096, 4097, 4095, 4096, 65536, 65535, 1, 2, 0, 4098};
    return T[c.t.draw(12)];
}
// A closed range inside one block of m such that adding (kind 0), removing (1)
// or flipping (2) it leaves exactly a threshold number of values in the block.
inline bool steer(Ctx &c, const ISet &m, const Pool &p, int kind, u64 &lo, u64 &hi) {
    u64 b = p.keys[c.t.draw(p.keys.size())] << 16, e = b + 65535;
    int64_t T = threshold(c);
    ISet w = window(m, b, e);
    int64_t card = (int64_t)w.card();
    if (kind == 2) {
        int64_t need = T - card, net = 0;  // absent minus present over the range
        ISet x = outside(w, b, e);
        lo = b + pos16(c);
        if (c.t.chance(1, 3) && !w.v.empty()) lo = w.v[c.t.draw(w.v.size())].lo;
        for (u64 at = lo; at <= e;) {
            bool in = w.contains(at);
            const ISet &q = in ? w : x;
            u64 end = q.v[q.at(at)].hi;
            int64_t len = (int64_t)(end - at + 1);
            int64_t k = in ? net - need : need - net;  // steps until the goal
            if (k >= 1 && k <= len) { hi = at + (u64)k - 1; return true; }
            if (end == e) break;
            net += in ? -len : len;
            at = end + 1;
        }
        return false;
    }
    ISet src = kind == 0 ? outside(w, b, e) : w;
    int64_t n = (int64_t)src.card(), need = kind == 0 ? T - card : card - T;
    if (need <= 0 || need > n) return false;
    u64 s = c.t.draw((u64)(n - need + 1)), x = 0;
    if (c.t.chance(1, 4)) s = 0;
    else if (c.t.chance(1, 4)) s = (u64)(n - need);
    src.select(s, &lo);
    src.select(s + (u64)need - 1, &hi);
    // the range may as well take in values it does not change
    u64 a0 = b, b0 = e;
    if (s) { src.select(s - 1, &x); a0 = x + 1; }
    if (s + (u64)need < (u64)n) { src.select(s + (u64)need, &x); b0 = x - 1; }
    switch (c.t.draw(4)) { case 0: break; case 1: lo = a0; break; case 2: hi = b0; break; default: lo -= c.t.draw(lo - a0 + 1); hi += c.t.draw(b0 - hi + 1); }
    if (kind == 1 && lo == b && b && c.t.chance(1, 4)) lo -= 1 + c.t.draw(70000 < b ? 70000 : b);
    if (hi == e && e != UINT64_MAX && c.t.chance(1, 4)) hi += 1 + c.t.draw(std::min<u64>(70000, UINT64_MAX - hi));
    return true;
}
// n values of s: consecutive ones, or spread
inline ISet choose(Ctx &c, const ISet &s, u64 n) {
    ISet o;
    u64 tot = s.card();
    if (n >= tot) return s;
    if (!n) return o;
    if (c.t.chance(1, 2)) {
        u64 from = c.t.draw(tot - n + 1), a = 0, b = 0;
        s.select(from, &a);
        s.select(from + n - 1, &b);
        return window(s, a, b);
    }
    Rng r(c.t.seed());
    u64 left = tot, want = n;
    for (auto &iv : s.v)
        for (u64 x = iv.lo;; x++) {
            if (r.below(left) < want) { o.append(x, x); want--; }
            left--;
            if (x == iv.hi) break;
        }
    return o;
}
// A second operand such that in one block the intersection, union, difference
// (either way) or symmetric difference has exactly a threshold size.
inline ISet balanced(Ctx &c, const Pool &p, const ISet &a) {
    ISet o;
    u64 pickd = c.t.draw(p.keys.size());
    for (size_t ki = 0; ki < p.keys.size(); ki++) {
        if (ki != pickd && c.t.draw(3)) continue;
        u64 b = p.keys[ki] << 16, e = b + 65535;
        ISet w = window(a, b, e), x = outside(w, b, e);
        int64_t A = (int64_t)w.card(), X = 65536 - A, T = threshold(c), i, j;
        switch (c.t.draw(5)) {
            case 0: i = T; j = (int64_t)c.t.draw((u64)X + 1); break;                  // and
            case 1: j = T - A; i = (int64_t)c.t.draw((u64)A + 1); break;              // or
            case 2: i = A - T; j = (int64_t)c.t.draw((u64)X + 1); break;              // a - b
            case 3: j = T; i = (int64_t)c.t.draw((u64)A + 1); break;                  // b - a
            default: i = (int64_t)c.t.draw((u64)A + 1); j = T - A + i;                // xor
        }
        if (c.t.chance(1, 3)) j = std::min<int64_t>(j, 3);
        i = std::max<int64_t>(0, std::min(i, A));
        j = std::max<int64_t>(0, std::min(j, X));
        ISet q = ISet::op(choose(c, w, (u64)i), choose(c, x, (u64)j), 1);
        for (auto &iv : q.v) o.append(iv.lo, iv.hi);
    }
    return o;
}

// A second operand with a few values per block (so a much shorter array than
// the first), next to each other in rank: members, and the places beside them.
inline ISet pebbles(Ctx &c, const Pool &p, const ISet &a) {
    static const u32 J[] = {0, 0, 1, 1, 1, 2, 3, 8, 64, 512};
    ISet o;
    for (u64 key : p.keys) {
        u64 b = key << 16, e = b + 65535, at = b;
        ISet w = window(a, b, e);
        u64 tot = w.card();
        if (!tot || c.t.chance(1, 6)) continue;
        u32 n = 1 + (u32)c.t.draw(c.t.draw(3) ? 9 : 70);
        u64 r = c.t.draw(c.t.draw(3) ? std::min<u64>(tot, 40) : tot);
        bool tail = c.t.chance(1, 4);
        if (tail && tot > n) r = tot - 1 - c.t.draw(n);
        Rng g(c.t.seed());
        int style = (int)c.t.draw(3);  // all members, mixed, mostly beside
        for (u32 i = 0; i < n && r < tot; i++) {
            u64 x = 0;
            w.select(r, &x);
            u32 d = !style ? 0 : (u32)g.below(style == 1 ? 6 : 3);  // beside: 1 after, 2 before
            if (d == 1 && x < e) x++;
            if (d == 2 && x > b && x > at) x--;
            if (x >= at) { o.append(x, x); at = x + 1; }
            if (x == e) break;
            r += J[g.below(tail ? 5 : 10)];
        }
    }
    return o;
}

// Per chunk, stretches that follow a, leave it out, lie in its gaps or mix
// these, sometimes cut to whole groups of 8 (the width of vector code).
inline ISet woven(Ctx &c, const Pool &p, const ISet &a) {
    static const u32 P[] = {0, 0, 16, 16, 1, 4, 8, 14};
    ISet o;
    for (u64 key : p.keys) {
        u64 b = key << 16, e = b + 65535;
        ISet w = window(a, b, e);
        u64 tot = w.card();
        if (!tot || c.t.chance(1, 6)) continue;
        u32 len = c.t.chance(1, 2) ? 24 : 6 + (u32)c.t.draw(400);
        u64 cap = c.t.chance(1, 2) ? 4096 : 8 + c.t.draw(200);
        size_t cut = c.t.draw(3);
        Rng g(c.t.seed());
        std::vector<u64> out;
        u32 left = 0, take = 0, gap = 0;
        u64 at = b, done = 0;
        for (auto &iv : w.v) {
            for (u64 x = iv.lo; x <= iv.hi && done < 20000; x++, done++) {
                if (!left--) {
                    left = (u32)g.below(len);
                    take = P[g.below(8)];
                    gap = g.below(2) ? 0 : P[g.below(8)];
                }
                if (gap && x > at) {
                    u64 n = std::min<u64>(x - at, 1 + g.below(3));
                    for (u64 k = 0; k < n; k++) if (g.below(16) < gap) out.push_back(x - n + k);
                }
                if (g.below(16) < take) out.push_back(x);
                at = x + 1;
                if (x == e) break;
            }
        }
        if (at > b && c.t.chance(1, 3)) for (u64 k = 0, n = c.t.draw(40); k < n && at <= e && at > b; k++) { out.push_back(at); at += 1 + g.below(3); }
        if (out.size() > cap) out.resize(cap);
        if (cut) while (out.size() % (cut == 1 ? 8 : 16)) out.pop_back();
        for (u64 x : out) o.append(x, x);
    }
    return o;
}

// A second operand: unrelated, or a close relative of a.
inline ISet related(Ctx &c, const Pool &p, const ISet &a) {
    ISet b;
    switch (c.t.pick({6, 3, 2, 2, 1, 2, 2, 2, 4, 3, 4})) {
        case 10: return woven(c, p, a);
        case 8: return balanced(c, p, a);
        case 9: return pebbles(c, p, a);
        case 0: return set32(c, p);
        case 1: {  // a with a few values toggled
            b = a;
            u32 n = 1 + (u32)c.t.draw(4);
            for (u32 i = 0; i < n; i++) {
                u64 x = (p.keys[c.t.draw(p.keys.size())] << 16) + pos16(c);
                u64 y = std::min<u64>((x | 0xffff), x + c.t.draw(c.t.chance(1, 3) ? 5000 : 3));
                b.flip(x, y);
            }
            return b;
        }
        case 2: return sample_of(a, c.t.seed(), 1 + (u32)c.t.draw(15));
        case 3: return ISet::op(a, set32(c, p), 1);  // superset
        case 4: return a;
        case 5: {  // complement inside the chunks
            ISet all;
            for (u64 k : p.keys) all.append(k << 16, (k << 16) | 0xffff);
            return ISet::op(all, a, 2);
        }
        case 6: return ISet::op(set32(c, p), a, 2);  // disjoint
        default: {
            __int128 off = (__int128)(c.t.draw(2) ? 1 : -1) * (__int128)(1 + c.t.draw(70));
            return a.shifted(off, 0xffffffffu);
        }
    }
}

// A probe value: next to an edge of the model, at a chunk edge, or anywhere.
inline u64 near(Ctx &c, const ISet &s, const Pool &p, u64 dom) {
    size_t k = c.t.pick({5, 4, 1, 1});
    if (k == 0 && s.v.empty()) k = 1;
    switch (k) {
        case 0: {
            auto &iv = s.v[c.t.draw(s.v.size())];
            u64 x = c.t.draw(2) ? iv.hi : iv.lo;
            u64 d = c.t.draw(3);
            if (d == 1 && x < dom) x++;
            if (d == 2 && x > 0) x--;
            return x;
        }
        case 1: return (p.keys[c.t.draw(p.keys.size())] << 16) + pos16(c);
        case 2: return c.t.draw(2) ? dom : 0;
        default: return dom == UINT64_MAX ? c.t.draw(0) : c.t.draw(dom + 1);
    }
}

}  // namespace gen
