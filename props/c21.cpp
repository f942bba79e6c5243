#include "kit32.h"
#include "text.h"
#include <roaring/bitset/bitset.h>
typedef unsigned long long ull;

static const u64 NONE = SIZE_MAX;
struct Walk21 { std::vector<size_t> v; size_t stop; };
static bool walk21(size_t x, void *p) {
    Walk21 &w = *(Walk21 *)p;
    w.v.push_back(x);
    return w.v.size() < w.stop;
}

struct Mach21 {
    Ctx &c;
    struct Slot { bitset_t *b; ISet m; };
    std::vector<Slot> s;
    u64 changed = 0, uneven = 0, empties = 0;
    u32 maxbits;
    std::string last;
    explicit Mach21(Ctx &c_) : c(c_) {}
    ~Mach21() { for (auto &x : s) bitset_free(x.b); }

    size_t index(const ISet &m, size_t bits) {
        switch (c.t.pick({4, 4, 2, 1})) {
            case 0: return c.t.draw(maxbits);
            case 1: {
                if (m.empty()) return c.t.draw(130);
                auto &iv = m.v[c.t.draw(m.v.size())];
                size_t x = c.t.draw(2) ? iv.hi : iv.lo, d = c.t.draw(3);
                return d == 1 ? x + 1 : d == 2 && x ? x - 1 : x;
            }
            case 2: return (bits + c.t.draw(4)) - (bits ? std::min<size_t>(bits, 2) : 0);
            default: return 64 * c.t.draw(1 + maxbits / 64) + (c.t.draw(2) ? 63 : 0);
        }
    }
    size_t shift(size_t bits) {
        switch (c.t.pick({3, 3, 2, 2})) {
            case 0: return c.t.draw(130);
            case 1: return 64 * c.t.draw(bits / 64 + 3);
            case 2: return c.t.draw(2 * bits + 200);
            default: return bits + c.t.draw(4) - std::min<size_t>(bits, 2);
        }
    }
    void put(bitset_t *b, const ISet &m) {
        if (s.size() < 3) { s.push_back({b, m}); return; }
        size_t i = c.t.draw(3);
        bitset_free(s[i].b);
        s[i] = {b, m};
    }
    void cut(ISet &m, size_t bits) {  // what lies beyond the end is gone
        if (bits == 0) m.clear(); else m.remove(bits, UINT64_MAX);
    }
    void fresh() {
        bitset_t *b;
        ISet m;
        u64 r = c.t.draw(3);
        if (r == 0) {
            b = bitset_create();
            PCHECK(c, b && bitset_size_in_bits(b) == 0 && bitset_empty(b), "bitset_create");
            c.log("create");
        } else {
            size_t n = c.t.chance(1, 4) ? c.t.draw(3) * 64 : c.t.draw(maxbits);
            b = bitset_create_with_capacity(n);
            PCHECK(c, b && bitset_size_in_bits(b) >= n && bitset_empty(b), "bitset_create_with_capacity(%zu)", n);
            c.log("create_with_capacity %zu", n);
        }
        if (r == 2) {
            u32 k = (u32)c.t.draw(40);
            Rng rg(c.t.seed());
            for (u32 i = 0; i < k; i++) {
                size_t lo = rg.below(maxbits), n = 1 + rg.below(rg.below(3) ? 3 : 150);
                for (size_t x = lo; x < lo + n; x++) bitset_set(b, x);
                m.add(lo, lo + n - 1);
            }
            c.log("with %s", m.str(3).c_str());
        }
        put(b, m);
    }
    void expect(size_t i, const char *what) {
        bitset_t *b = s[i].b;
        const ISet &m = s[i].m;
        size_t w = bitset_size_in_words(b);
        PCHECK(c, bitset_size_in_bits(b) == 64 * w && bitset_size_in_bytes(b) == 8 * w, "%s: sizes disagree", what);
        PCHECK(c, m.empty() || m.max() < 64 * w, "%s: the largest bit %llu lies outside of %zu bits", what, m.empty() ? 0 : (ull)m.max(), 64 * w);
        u64 card = m.card();
        PCHECK(c, bitset_count(b) == card, "%s: count %zu, expected %llu of %s", what, bitset_count(b), (ull)card, m.str().c_str());
        Walk21 k = {{}, SIZE_MAX};
        PCHECK(c, bitset_for_each(b, walk21, &k), "%s: for_each was interrupted", what);
        size_t n = 0;
        for (auto &iv : m.v)
            for (u64 x = iv.lo; x <= iv.hi; x++, n++)
                PCHECK(c, n < k.v.size() && k.v[n] == x, "%s: bit #%zu is %lld, expected %llu of %s", what, n, n < k.v.size() ? (long long)k.v[n] : -1, (ull)x, m.str().c_str());
        PCHECK(c, n == k.v.size(), "%s: %zu bits, expected %zu", what, k.v.size(), n);
        PCHECK(c, bitset_empty(b) == m.empty(), "%s: bitset_empty", what);
        PCHECK(c, bitset_minimum(b) == (m.empty() ? NONE : m.min()), "%s: minimum", what);
        PCHECK(c, bitset_maximum(b) == (m.empty() ? 0 : m.max()), "%s: maximum", what);
    }
    void step() {
        size_t i = c.t.draw(s.size()), j = c.t.draw(s.size());
        bitset_t *b = s[i].b;
        ISet &m = s[i].m;
        size_t bits = bitset_size_in_bits(b), w = bits / 64;
        static const char *nm[] = {"set", "set_to_value", "clear", "fill", "resize", "grow", "trim", "shift_left", "shift_right", "copy", "inplace_union", "inplace_intersection", "inplace_difference", "inplace_symmetric_difference", "fresh", "free", "huge_index"};
        size_t o = c.t.pick({5, 5, 1, 1, 3, 3, 4, 5, 5, 2, 4, 3, 3, 4, 2, 1, 1});
        last = nm[o];
        c.count(nm[o]);
        ISet before = m;
        switch (o) {
            case 0: { size_t x = index(m, bits); c.log("set %zu %zu", i, x); bitset_set(b, x); m.add(x); break; }
            case 1: {
                size_t x = index(m, bits);
                bool v = c.t.draw(2);
                c.log("set_to_value %zu %zu %d", i, x, v);
                bitset_set_to_value(b, x, v);
                if (v) m.add(x); else m.remove(x);
                break;
            }
            case 2: c.log("clear %zu", i); if (w) bitset_clear(b); m.clear(); break;
            case 3: c.log("fill %zu", i); if (w) { bitset_fill(b); m.clear(); m.add(0, bits - 1); } break;
            case 4: {
                size_t n = c.t.draw(3) ? c.t.draw(maxbits / 64 + 1) : w + c.t.draw(3) - std::min<size_t>(w, 1);
                bool pad = c.t.draw(2);
                c.log("resize %zu %zu pad=%d", i, n, pad);
                PCHECK(c, bitset_resize(b, n, pad), "resize failed");
                PCHECK(c, bitset_size_in_words(b) == n, "resize(%zu) leaves %zu words", n, bitset_size_in_words(b));
                cut(m, 64 * n);
                if (!pad) for (size_t x = 64 * w; x < 64 * n; x++) bitset_set_to_value(b, x, false);  // unspecified until written
                break;
            }
            case 5: {
                size_t n = c.t.draw(3) ? w + c.t.draw(20) : c.t.draw(maxbits / 64 + 1);
                c.log("grow %zu %zu", i, n);
                bool ok = bitset_grow(b, n);
                PCHECK(c, ok == (n >= w), "grow(%zu) of %zu words reports %d", n, w, ok);
                PCHECK(c, bitset_size_in_words(b) == (ok ? n : w), "grow(%zu) leaves %zu words", n, bitset_size_in_words(b));
                break;
            }
            case 6:
                c.log("trim %zu", i);
                PCHECK(c, bitset_trim(b), "trim failed");
                break;
            case 7: {
                size_t k = shift(bits);
                if (k + (m.empty() ? 0 : m.max()) > 40 * maxbits) k %= 200;
                c.log("shift_left %zu %zu", i, k);
                bitset_shift_left(b, k);
                m = m.shifted((__int128)k, UINT64_MAX);
                break;
            }
            case 8: {
                size_t k = shift(bits);
                if (c.t.chance(1, 30)) k = SIZE_MAX - c.t.draw(70);
                c.log("shift_right %zu %zu", i, k);
                bitset_shift_right(b, k);
                m = m.shifted(-(__int128)k, UINT64_MAX);
                break;
            }
            case 9: {
                c.log("copy %zu", i);
                bitset_t *q = bitset_copy(b);
                PCHECK(c, q, "copy failed");
                ISet k = m;
                put(q, k);
                return;
            }
            case 10: case 11: case 12: case 13: {
                if (i == j) break;
                const bitset_t *q = s[j].b;
                c.log("%s %zu %zu", nm[o], i, j);
                if (bitset_size_in_words(q) != w) uneven++;
                static const int K[] = {1, 0, 2, 3};
                ISet r = ISet::op(m, s[j].m, K[o - 10]);
                if (o == 10) PCHECK(c, bitset_inplace_union(b, q), "union failed");
                else if (o == 11) bitset_inplace_intersection(b, q);
                else if (o == 12) bitset_inplace_difference(b, q);
                else PCHECK(c, bitset_inplace_symmetric_difference(b, q), "symmetric difference failed");
                m = r;
                expect(j, "the operand");
                break;
            }
            case 14: fresh(); return;
            case 15: if (s.size() > 1) { c.log("free %zu", i); bitset_free(b); s.erase(s.begin() + i); return; } break;
            default: {  // cannot be stored: the set stays as it is
                size_t x = SIZE_MAX - c.t.draw(200);
                c.log("set %zu %zu", i, x);
                if (c.t.draw(2)) bitset_set(b, x); else bitset_set_to_value(b, x, true);
                PCHECK(c, !bitset_get(b, x), "get(%zu)", x);
            }
        }
        if (!(before == m)) changed++;
        if (bitset_size_in_words(b) == 0) empties++;
    }
    void ask() {
        size_t i = c.t.draw(s.size()), j = c.t.draw(s.size());
        const bitset_t *a = s[i].b, *b = s[j].b;
        const ISet &m = s[i].m, &n = s[j].m;
        c.log("ask %zu %zu", i, j);
        for (int k = 0; k < 4; k++) {
            size_t x = index(m, bitset_size_in_bits(a));
            PCHECK(c, bitset_get(a, x) == m.contains(x), "get(%zu) should be %d", x, m.contains(x));
            size_t at = x;
            u64 e = 0;
            bool ok = m.next(x, &e);
            PCHECK(c, bitset_next_set_bit(a, &at) == ok && (!ok || at == e), "next_set_bit(%zu)", x);
        }
        // block iteration
        size_t cap = c.t.draw(5) ? 1 + c.t.draw(70) : 1 + c.t.draw(3), from = c.t.draw(3) ? 0 : index(m, bitset_size_in_bits(a));
        std::vector<size_t> buf(cap + 1, 0x5555), got;
        size_t st = from, k;
        while ((k = bitset_next_set_bits(a, buf.data(), cap, &st)) > 0) {
            PCHECK(c, k <= cap && buf[cap] == 0x5555, "next_set_bits wrote too much");
            got.insert(got.end(), buf.begin(), buf.begin() + k);
            PCHECK(c, st == got.back(), "next_set_bits leaves %zu, the last bit was %zu", st, got.back());
            st++;
            if (got.size() > 100000) break;
        }
        ISet tail = m;
        if (from) tail.remove(0, from - 1);
        auto want = tail.values(got.size() + (got.size() <= 100000));
        PCHECK(c, got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin()), "next_set_bits(capacity %zu) from %zu", cap, from);
        size_t z = 0;
        PCHECK(c, bitset_next_set_bits(a, buf.data(), 0, &z) == 0, "next_set_bits with capacity 0");
        if (!m.empty()) {
            Walk21 q = {{}, 1 + c.t.draw(std::min<u64>(m.card(), 300))};
            bool full = bitset_for_each(a, walk21, &q);
            PCHECK(c, !full && q.v.size() == q.stop, "for_each did not stop");
        }
        ISet r[4];
        for (int o = 0; o < 4; o++) r[o] = ISet::op(m, n, o);
        PCHECK(c, bitset_intersection_count(a, b) == r[0].card(), "intersection_count");
        PCHECK(c, bitset_union_count(a, b) == r[1].card(), "union_count");
        PCHECK(c, bitset_difference_count(a, b) == r[2].card(), "difference_count");
        PCHECK(c, bitset_symmetric_difference_count(a, b) == r[3].card(), "symmetric_difference_count");
        PCHECK(c, bitsets_disjoint(a, b) == r[0].empty() && bitsets_intersect(a, b) == !r[0].empty(), "disjoint/intersect");
        PCHECK(c, bitset_contains_all(b, a) == r[2].empty(), "contains_all should be %d", r[2].empty());
        if (m.card() < 3000 && c.t.chance(1, 8)) {
            std::string s = text::captured([&] { bitset_print(a); });
            PCHECK(c, s.size() >= 2 && s[0] == '{' && s.back() == '}', "print is not bracketed");
            const char *p = s.c_str() + 1;
            for (size_t x : m.values(3000)) {
                char *end;
                unsigned long long y = strtoull(p, &end, 10);
                PCHECK(c, end != p && y == x, "print lacks %zu at '%.20s'", x, p);
                p = end + strspn(end, ", ");
            }
            PCHECK(c, !strcmp(p, "}"), "print goes on with '%.20s'", p);
        }
        if (bitset_size_in_words(a) != bitset_size_in_words(b)) uneven++;
    }
};

PROPERTY(C21, "up to 3 bitsets of 0-40000 bits undergo 5-60 generated operations (shifts by any distance, resizes, growth, trims, set operations between different lengths); after every step the touched bitsets are compared bit by bit with a set model, queries and block iteration along the way; "
              "non-trivial: at least 3 steps changed the bits, and operands of different lengths met or a bitset had no words") {
    Mach21 m(c);
    static const u32 B[] = {70, 200, 600, 3000, 40000};
    m.maxbits = B[c.t.draw(5)];
    for (u64 k = 0, n = 1 + c.t.draw(3); k < n; k++) m.fresh();
    u32 n = 5 + (u32)c.t.draw(c.thorough ? 110 : 55);
    for (u32 k = 0; k < n; k++) {
        m.step();
        for (size_t i = 0; i < m.s.size(); i++) m.expect(i, m.last.c_str());
        if (c.t.chance(1, 4)) m.ask();
    }
    c.count("operands_of_different_length", m.uneven);
    c.count("without_words", m.empties);
    c.nontrivial = m.changed >= 3 && (m.uneven || m.empties);
}
