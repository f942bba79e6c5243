// Every read query of a 32-bit bitmap against the model.
#pragma once
#include "mach32.h"

struct Queries32 {
    Ctx &c;
    const RB *r;
    const ISet &m;
    const gen::Pool &p;
    u64 card;
    bool inside = false, before = false, beyond = false;
    std::vector<u32> flat;  // all values when few enough
    bool has_flat = false;
    Queries32(Ctx &c_, const RB *r_, const ISet &m_, const gen::Pool &p_) : c(c_), r(r_), m(m_), p(p_), card(m_.card()) {}

    u32 val() {
        u32 x = (u32)gen::near(c, m, p, MAX32);
        if (!m.empty()) {
            if (x < m.min()) before = true;
            else if (x > m.max()) beyond = true;
            else inside = true;
        }
        return x;
    }
    void range(u64 &lo, u64 &hi) {  // half-open, in [0, 2^32]; may be empty or inverted
        lo = c.t.chance(1, 20) ? MAX32 + 1 : val();
        switch (c.t.pick({4, 3, 1, 1, 1, 1})) {
            case 0: hi = val(); break;
            case 1: hi = lo + gen::len16(c); break;
            case 2: hi = lo; break;
            case 3: hi = lo + 1; break;
            case 4: hi = MAX32 + 1; break;
            default: hi = lo + c.t.draw(5ull << 16);
        }
        if (hi > MAX32 + 1) hi = MAX32 + 1;
    }
    void one() {
        static const char *nm[] = {"contains", "rank", "rank_many", "select", "get_index", "minmax", "range_cardinality", "contains_range", "intersect_with_range",
                                   "contains_bulk", "range_uint32_array", "to_uint32_array", "to_bitset", "statistics", "range_closed_forms"};
        size_t k = c.t.pick({4, 4, 4, 4, 4, 1, 5, 5, 4, 2, 3, 1, 1, 1, 4});
        c.count(nm[k]);
        switch (k) {
            case 0: {
                u32 x = val();
                c.log("contains %u", x);
                PCHECK(c, roaring_bitmap_contains(r, x) == m.contains(x), "contains(%u) should be %d", x, m.contains(x));
                break;
            }
            case 1: {
                u32 x = val();
                c.log("rank %u", x);
                u64 g = roaring_bitmap_rank(r, x), e = m.rank(x);
                PCHECK(c, g == e, "rank(%u) = %llu, expected %llu", x, (unsigned long long)g, (unsigned long long)e);
                break;
            }
            case 2: {
                std::vector<u32> v;
                u32 n = (u32)c.t.draw(c.t.chance(1, 10) ? 200 : 14);
                if (n > 20) {
                    Rng rg(c.t.seed());
                    for (u32 i = 0; i < n; i++) v.push_back((u32)((p.keys[rg.below(p.keys.size())] << 16) + rg.below(65536)));
                } else {
                    for (u32 i = 0; i < n; i++) v.push_back(val());
                }
                std::sort(v.begin(), v.end());  // duplicates stay
                c.log("rank_many n=%u", n);
                std::vector<u64> a(n + 1, 0x5555555555555555ull);
                roaring_bitmap_rank_many(r, v.data(), v.data() + n, a.data());
                for (u32 i = 0; i < n; i++)
                    PCHECK(c, a[i] == m.rank(v[i]), "rank_many[%u] of %u = %llu, expected %llu", i, v[i], (unsigned long long)a[i], (unsigned long long)m.rank(v[i]));
                PCHECK(c, a[n] == 0x5555555555555555ull, "rank_many wrote past the answers");
                break;
            }
            case 3: {
                u64 i;
                switch (c.t.pick({4, 2, 1})) {
                    case 0: i = card ? c.t.draw(card) : 0; break;
                    case 1: { u32 x = val(); i = m.rank(x); i -= c.t.draw(2) && i; break; }
                    default: i = card + c.t.draw(3);
                }
                if (i > MAX32) i = MAX32;
                c.log("select %llu", (unsigned long long)i);
                u32 g = 0x12345678;
                u64 e = 0;
                bool ok = m.select(i, &e), got = roaring_bitmap_select(r, (u32)i, &g);
                PCHECK(c, ok == got, "select(%llu) should %s", (unsigned long long)i, ok ? "succeed" : "fail");
                if (ok) PCHECK(c, g == e, "select(%llu) = %u, expected %llu", (unsigned long long)i, g, (unsigned long long)e);
                break;
            }
            case 4: {
                u32 x = val();
                c.log("get_index %u", x);
                int64_t e = m.contains(x) ? (int64_t)m.rank(x) - 1 : -1, g = roaring_bitmap_get_index(r, x);
                PCHECK(c, g == e, "get_index(%u) = %lld, expected %lld", x, (long long)g, (long long)e);
                break;
            }
            case 5: {
                u32 e = m.empty() ? 0xffffffffu : (u32)m.min(), f = m.empty() ? 0 : (u32)m.max();
                PCHECK(c, roaring_bitmap_minimum(r) == e, "minimum %u, expected %u", roaring_bitmap_minimum(r), e);
                PCHECK(c, roaring_bitmap_maximum(r) == f, "maximum %u, expected %u", roaring_bitmap_maximum(r), f);
                PCHECK(c, roaring_bitmap_is_empty(r) == m.empty(), "is_empty");
                PCHECK(c, roaring_bitmap_get_cardinality(r) == card, "get_cardinality");
                break;
            }
            case 6: {
                u64 lo, hi;
                range(lo, hi);
                c.log("range_cardinality %llu %llu", (unsigned long long)lo, (unsigned long long)hi);
                u64 e = hi > lo ? m.range_card(lo, hi - 1) : 0, g = roaring_bitmap_range_cardinality(r, lo, hi);
                PCHECK(c, g == e, "range_cardinality(%llu,%llu) = %llu, expected %llu", (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)g, (unsigned long long)e);
                break;
            }
            case 7: {
                u64 lo, hi;
                range(lo, hi);
                if (c.t.chance(1, 2) && !m.empty()) pick_in(lo, hi);
                c.log("contains_range %llu %llu", (unsigned long long)lo, (unsigned long long)hi);
                bool e = hi > lo ? m.contains_range(lo, hi - 1) : true, g = roaring_bitmap_contains_range(r, lo, hi);
                PCHECK(c, g == e, "contains_range(%llu,%llu) should be %d", (unsigned long long)lo, (unsigned long long)hi, e);
                break;
            }
            case 8: {
                u64 lo, hi;
                range(lo, hi);
                if (c.t.chance(1, 2) && !m.empty()) pick_gap(lo, hi);
                if (lo > MAX32) break;
                c.log("intersect_with_range %llu %llu", (unsigned long long)lo, (unsigned long long)hi);
                bool e = hi > lo ? m.intersects(lo, hi - 1) : false, g = roaring_bitmap_intersect_with_range(r, lo, hi);
                PCHECK(c, g == e, "intersect_with_range(%llu,%llu) should be %d", (unsigned long long)lo, (unsigned long long)hi, e);
                break;
            }
            case 9: {
                roaring_bulk_context_t ctx = {};
                u32 n = 1 + (u32)c.t.draw(10);
                c.log("contains_bulk n=%u", n);
                for (u32 i = 0; i < n; i++) {
                    u32 x = val();
                    PCHECK(c, roaring_bitmap_contains_bulk(r, &ctx, x) == m.contains(x), "contains_bulk(%u) should be %d", x, m.contains(x));
                }
                break;
            }
            case 10: {
                u64 off = card ? (c.t.chance(1, 3) ? m.rank(val()) : c.t.draw(card + 2)) : c.t.draw(3);
                u64 lim = c.t.chance(1, 4) ? c.t.draw(200000) : c.t.draw(40);
                if (c.t.chance(1, 6) && card > off) lim = card - off;
                if (lim > 300000) lim = 300000;
                c.log("range_uint32_array %llu %llu", (unsigned long long)off, (unsigned long long)lim);
                std::unique_ptr<u32[]> a(new u32[lim + 1]);
                for (u64 i = 0; i <= lim; i++) a[i] = 0x77777777;
                PCHECK(c, roaring_bitmap_range_uint32_array(r, off, lim, a.get()), "range_uint32_array failed");
                u64 have = card > off ? std::min(lim, card - off) : 0, x = 0;
                size_t at = 0;
                if (have) {
                    m.select(off, &x);
                    at = m.at(x);
                }
                for (u64 i = 0; i < have; i++) {
                    PCHECK(c, a[i] == x, "range_uint32_array(%llu,%llu)[%llu] = %u, expected %llu", (unsigned long long)off, (unsigned long long)lim, (unsigned long long)i, a[i], (unsigned long long)x);
                    if (x == m.v[at].hi) { at++; x = at < m.v.size() ? m.v[at].lo : 0; } else x++;
                }
                PCHECK(c, a[lim] == 0x77777777, "range_uint32_array wrote past its limit");
                break;
            }
            case 11:
                if (card > 300000) break;
                {
                    std::unique_ptr<u32[]> a(new u32[card + 1]);
                    a[card] = 0x77777777;
                    roaring_bitmap_to_uint32_array(r, a.get());
                    u64 i = 0;
                    for (auto &iv : m.v)
                        for (u64 x = iv.lo; x <= iv.hi; x++, i++) PCHECK(c, a[i] == x, "to_uint32_array[%llu] = %u, expected %llu", (unsigned long long)i, a[i], (unsigned long long)x);
                    PCHECK(c, a[card] == 0x77777777, "to_uint32_array wrote too much");
                }
                break;
            case 12: {
                if (!m.empty() && m.max() > (1u << 26)) break;
                bitset_t *b = bitset_create();
                PCHECK(c, roaring_bitmap_to_bitset(r, b), "to_bitset failed");
                PCHECK(c, bitset_count(b) == card, "to_bitset: count %zu, expected %llu", bitset_count(b), (unsigned long long)card);
                size_t pos = 0;
                for (auto &iv : m.v) {
                    PCHECK(c, bitset_get(b, iv.lo) && bitset_get(b, iv.hi), "to_bitset lacks %llu", (unsigned long long)iv.lo);
                    PCHECK(c, bitset_next_set_bit(b, &pos) && pos == iv.lo, "to_bitset: next set bit %zu, expected %llu", pos, (unsigned long long)iv.lo);
                    for (u64 x = iv.lo; x <= iv.hi; x += 1 + (iv.hi - iv.lo) / 64) PCHECK(c, bitset_get(b, x), "to_bitset lacks %llu", (unsigned long long)x);
                    pos = iv.hi + 1;
                }
                bitset_free(b);
                break;
            }
            case 13: {
                roaring_statistics_t st;
                roaring_bitmap_statistics(r, &st);
                PCHECK(c, st.cardinality == card, "statistics.cardinality %llu, expected %llu", (unsigned long long)st.cardinality, (unsigned long long)card);
                PCHECK(c, st.n_containers == st.n_array_containers + st.n_run_containers + st.n_bitset_containers, "statistics: container counts do not add up");
                PCHECK(c, st.n_values_array_containers + (u64)st.n_values_run_containers + st.n_values_bitset_containers == card || card > MAX32, "statistics: value counts do not add up");
                auto parts = fmt::split(m);
                PCHECK(c, st.n_containers == parts.size(), "statistics: %u containers for %zu chunks", st.n_containers, parts.size());
                if (card) PCHECK(c, st.min_value == m.min() && st.max_value == m.max(), "statistics: min/max %u/%u", st.min_value, st.max_value);
                break;
            }
            default: {  // closed forms
                u64 lo, hi;
                range(lo, hi);
                if (lo > MAX32) lo = MAX32;
                if (hi > MAX32) hi = MAX32;
                if (c.t.chance(1, 3) && !m.empty()) { pick_in(lo, hi); hi--; }
                c.log("closed range %llu %llu", (unsigned long long)lo, (unsigned long long)hi);
                u64 e = hi >= lo ? m.range_card(lo, hi) : 0, g = roaring_bitmap_range_cardinality_closed(r, (u32)lo, (u32)hi);
                PCHECK(c, g == e, "range_cardinality_closed(%llu,%llu) = %llu, expected %llu", (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)g, (unsigned long long)e);
                bool f = hi >= lo ? m.contains_range(lo, hi) : true;
                PCHECK(c, roaring_bitmap_contains_range_closed(r, (u32)lo, (u32)hi) == f, "contains_range_closed(%llu,%llu) should be %d", (unsigned long long)lo, (unsigned long long)hi, f);
            }
        }
    }
    // a range at, or one off, the bounds of a stored interval
    void pick_in(u64 &lo, u64 &hi) {
        auto &iv = m.v[c.t.draw(m.v.size())];
        lo = iv.lo;
        hi = iv.hi + 1;
        switch (c.t.draw(5)) {
            case 1: if (lo) lo--; break;
            case 2: if (hi <= MAX32) hi++; break;
            case 3: lo += c.t.draw(hi - lo); break;
            case 4: hi -= c.t.draw(hi - lo); break;
        }
    }
    void pick_gap(u64 &lo, u64 &hi) {
        size_t i = c.t.draw(m.v.size());
        lo = m.v[i].hi == MAX32 ? MAX32 : m.v[i].hi + 1;
        hi = i + 1 < m.v.size() ? m.v[i + 1].lo : MAX32 + 1;
        switch (c.t.draw(4)) {
            case 1: if (lo) lo--; break;
            case 2: if (hi <= MAX32) hi++; break;
            case 3: if (hi > lo) lo += c.t.draw(hi - lo); break;
        }
    }
};
