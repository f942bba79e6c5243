// Every read query of a 64-bit bitmap against the model.
#pragma once
#include "kit64.h"

struct Queries64 {
    Ctx &c;
    const RB64 *r;
    const ISet &m;
    const gen::Pool &p;
    u64 card;
    bool inside = false, before = false, beyond = false;
    Queries64(Ctx &c_, const RB64 *r_, const ISet &m_, const gen::Pool &p_) : c(c_), r(r_), m(m_), p(p_), card(m_.card()) {}
    u64 val() {
        u64 x = gen::near(c, m, p, MAX64);
        if (c.t.chance(1, 8)) x ^= 1ull << (8 * c.t.draw(8) + c.t.draw(8));  // leaves a tree path at a generated depth
        if (!m.empty()) {
            if (x < m.min()) before = true;
            else if (x > m.max()) beyond = true;
            else inside = true;
        }
        return x;
    }
    void pick_in(u64 &lo, u64 &hi) {  // closed, at or one off a stored interval
        auto &iv = m.v[c.t.draw(m.v.size())];
        lo = iv.lo;
        hi = iv.hi;
        switch (c.t.draw(5)) {
            case 1: if (lo) lo--; break;
            case 2: if (hi < MAX64) hi++; break;
            case 3: lo += c.t.draw(hi - lo + 1 ? hi - lo + 1 : 1); break;
            case 4: hi -= c.t.draw(hi - lo + 1 ? hi - lo + 1 : 1); break;
        }
    }
    void pick_gap(u64 &lo, u64 &hi) {
        size_t i = c.t.draw(m.v.size());
        lo = m.v[i].hi == MAX64 ? MAX64 : m.v[i].hi + 1;
        hi = i + 1 < m.v.size() ? m.v[i + 1].lo - 1 : MAX64;
        switch (c.t.draw(4)) {
            case 1: if (lo) lo--; break;
            case 2: if (hi < MAX64) hi++; break;
            case 3: if (hi > lo) lo += c.t.draw(hi - lo); break;
        }
    }
    void range(u64 &lo, u64 &hi) {  // any two values
        if (!m.empty() && c.t.chance(1, 4)) return pick_in(lo, hi);
        if (!m.empty() && c.t.chance(1, 4)) return pick_gap(lo, hi);
        lo = val();
        switch (c.t.pick({4, 3, 1, 1, 1})) {
            case 0: hi = val(); break;
            case 1: hi = lo + gen::len16(c); break;
            case 2: hi = lo; break;
            case 3: hi = MAX64; break;
            default: hi = lo + c.t.draw(5ull << 16);
        }
    }
    void one() {
        typedef unsigned long long ull;
        static const char *nm[] = {"contains", "rank", "select", "get_index", "minmax", "range_cardinality", "range_closed_cardinality", "contains_range", "intersect_with_range", "contains_bulk", "statistics"};
        size_t k = c.t.pick({5, 5, 5, 5, 1, 5, 5, 5, 5, 4, 1});
        c.count(nm[k]);
        switch (k) {
            case 0: {
                u64 x = val();
                c.log("contains %llu", (ull)x);
                PCHECK(c, roaring64_bitmap_contains(r, x) == m.contains(x), "contains(%llu) should be %d", (ull)x, m.contains(x));
                break;
            }
            case 1: {
                u64 x = val();
                c.log("rank %llu", (ull)x);
                u64 g = roaring64_bitmap_rank(r, x), e = m.rank(x);
                PCHECK(c, g == e, "rank(%llu) = %llu, expected %llu", (ull)x, (ull)g, (ull)e);
                break;
            }
            case 2: {
                u64 i;
                switch (c.t.pick({4, 3, 1, 1})) {
                    case 0: i = card ? c.t.draw(card) : 0; break;
                    case 1: i = m.rank(val()); i -= c.t.draw(2) && i; break;
                    case 2: i = card + c.t.draw(3); break;
                    default: i = c.t.draw(0) | (1ull << c.t.draw(64));
                }
                c.log("select %llu", (ull)i);
                u64 g = 0x123456789abcdefull, e = 0;
                bool ok = m.select(i, &e), got = roaring64_bitmap_select(r, i, &g);
                PCHECK(c, ok == got, "select(%llu) should %s", (ull)i, ok ? "succeed" : "fail");
                if (ok) PCHECK(c, g == e, "select(%llu) = %llu, expected %llu", (ull)i, (ull)g, (ull)e);
                break;
            }
            case 3: {
                u64 x = val(), g = 0;
                c.log("get_index %llu", (ull)x);
                bool e = m.contains(x), got = roaring64_bitmap_get_index(r, x, &g);
                PCHECK(c, e == got, "get_index(%llu) should return %d", (ull)x, e);
                if (e) PCHECK(c, g == m.rank(x) - 1, "get_index(%llu) = %llu, expected %llu", (ull)x, (ull)g, (ull)(m.rank(x) - 1));
                break;
            }
            case 4: {
                u64 e = m.empty() ? MAX64 : m.min(), f = m.empty() ? 0 : m.max();
                PCHECK(c, roaring64_bitmap_minimum(r) == e, "minimum %llu, expected %llu", (ull)roaring64_bitmap_minimum(r), (ull)e);
                PCHECK(c, roaring64_bitmap_maximum(r) == f, "maximum %llu, expected %llu", (ull)roaring64_bitmap_maximum(r), (ull)f);
                PCHECK(c, roaring64_bitmap_is_empty(r) == m.empty(), "is_empty");
                PCHECK(c, roaring64_bitmap_get_cardinality(r) == card, "get_cardinality");
                break;
            }
            case 5: {
                u64 lo, hi;
                range(lo, hi);
                c.log("range_cardinality %llu %llu", (ull)lo, (ull)hi);
                u64 e = hi > lo ? m.range_card(lo, hi - 1) : 0, g = roaring64_bitmap_range_cardinality(r, lo, hi);
                PCHECK(c, g == e, "range_cardinality(%llu,%llu) = %llu, expected %llu", (ull)lo, (ull)hi, (ull)g, (ull)e);
                break;
            }
            case 6: {
                u64 lo, hi;
                range(lo, hi);
                c.log("range_closed_cardinality %llu %llu", (ull)lo, (ull)hi);
                u64 e = hi >= lo ? m.range_card(lo, hi) : 0, g = roaring64_bitmap_range_closed_cardinality(r, lo, hi);
                PCHECK(c, g == e, "range_closed_cardinality(%llu,%llu) = %llu, expected %llu", (ull)lo, (ull)hi, (ull)g, (ull)e);
                break;
            }
            case 7: {
                u64 lo, hi;
                range(lo, hi);
                if (c.t.draw(2) && hi < MAX64) hi++;
                c.log("contains_range %llu %llu", (ull)lo, (ull)hi);
                bool e = hi > lo ? m.contains_range(lo, hi - 1) : true, g = roaring64_bitmap_contains_range(r, lo, hi);
                PCHECK(c, g == e, "contains_range(%llu,%llu) should be %d", (ull)lo, (ull)hi, e);
                break;
            }
            case 8: {
                u64 lo, hi;
                range(lo, hi);
                if (c.t.draw(2) && hi < MAX64) hi++;
                c.log("intersect_with_range %llu %llu", (ull)lo, (ull)hi);
                bool e = hi > lo ? m.intersects(lo, hi - 1) : false, g = roaring64_bitmap_intersect_with_range(r, lo, hi);
                PCHECK(c, g == e, "intersect_with_range(%llu,%llu) should be %d", (ull)lo, (ull)hi, e);
                break;
            }
            case 9: {
                roaring64_bulk_context_t ctx = {};
                u32 n = 1 + (u32)c.t.draw(12);
                u64 x = val();
                c.log("contains_bulk n=%u", n);
                for (u32 i = 0; i < n; i++) {
                    PCHECK(c, roaring64_bitmap_contains_bulk(r, &ctx, x) == m.contains(x), "contains_bulk(%llu) should be %d", (ull)x, m.contains(x));
                    x = c.t.draw(3) ? val() : (x & ~0xffffull) | gen::pos16(c);
                }
                break;
            }
            default: {
                roaring64_statistics_t st;
                roaring64_bitmap_statistics(r, &st);
                PCHECK(c, st.cardinality == card, "statistics.cardinality %llu, expected %llu", (ull)st.cardinality, (ull)card);
                PCHECK(c, st.n_containers == st.n_array_containers + st.n_run_containers + st.n_bitset_containers, "statistics: container counts do not add up");
                PCHECK(c, st.n_values_array_containers + st.n_values_run_containers + st.n_values_bitset_containers == card, "statistics: value counts do not add up");
                u64 chunks = 0, prev = MAX64;
                for (auto &iv : m.v) {
                    u64 a = iv.lo >> 16, b = iv.hi >> 16;
                    chunks += b - a + (a != prev);
                    prev = b;
                }
                PCHECK(c, st.n_containers == chunks, "statistics: %llu containers for %llu chunks", (ull)st.n_containers, (ull)chunks);
                if (card) PCHECK(c, st.min_value == m.min() && st.max_value == m.max(), "statistics: min/max %llu/%llu", (ull)st.min_value, (ull)st.max_value);
            }
        }
    }
};
