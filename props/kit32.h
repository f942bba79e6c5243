// Building, observing and mutating 32-bit bitmaps next to the ISet model.
#pragma once
#include <memory>
#include "gen.h"

#include <roaring/roaring.h>
#if defined(__cplusplus) && !defined(KIT_NO_NS)
using namespace roaring::api;
#endif

typedef roaring_bitmap_t RB;
static const u64 MAX32 = 0xffffffffull;

// fmt::Chooser: kind by policy
struct KindPolicy {
    int mode;  // 0 all natural, 1 all runs, 2 mixed by hash, 3 smallest
    u64 seed;
    int operator()(u32 key, u32 card, u32 runs) const {
        int nat = card <= 4096 ? fmt::ARRAY : fmt::BITSET;
        if (mode == 0) return nat;
        if (mode == 1) return fmt::RUN;
        if (mode == 2) { Rng r(seed + key * 977); return r.below(2) ? fmt::RUN : nat; }
        u32 other = card <= 4096 ? 2 * card : 8192;
        return 2 + 4 * runs < other ? fmt::RUN : nat;
    }
};

inline RB *from_model_portable(Ctx &c, const ISet &s, const KindPolicy &pol) {
    fmt::Bytes b = fmt::encode32(s, pol);
    RB *r = roaring_bitmap_portable_deserialize_safe((const char *)b.data(), b.size());
    PCHECK(c, r != nullptr, "portable_deserialize_safe rejected a valid stream of %s", s.str().c_str());
    return r;
}

inline std::vector<u32> values32(const ISet &s, u64 limit = 1u << 22) {
    std::vector<u32> v;
    for (u64 x : s.values(limit)) v.push_back((u32)x);
    return v;
}

// Builds a bitmap holding s along a generated route.
inline RB *build32(Ctx &c, const ISet &s, bool cow = false, std::vector<RB *> *keep = nullptr) {
    size_t route = c.t.pick({4, 3, 3, 5, 2, 1});
    u64 card = s.card();
    if ((route == 0 || route == 3) && card > 200000) route = 1;
    if (route == 4 && card > 3000) route = 2;
    if (route == 5 && s.v.size() > 2000) route = 1;
    bool huge = card > (1u << 25);  // only as runs
    if (huge && route != 1) route = 2;
    RB *r = nullptr;
    switch (route) {
        case 0: {
            auto v = values32(s);
            r = roaring_bitmap_of_ptr(v.size(), v.data());
            break;
        }
        case 1:
            r = roaring_bitmap_create();
            for (auto &iv : s.v) roaring_bitmap_add_range_closed(r, (u32)iv.lo, (u32)iv.hi);
            break;
        case 2: case 3: {
            KindPolicy pol{(int)c.t.draw(4), 0};
            if (huge) pol.mode = 1 + 2 * (pol.mode & 1);
            if (pol.mode == 2) pol.seed = c.t.seed();
            r = from_model_portable(c, s, pol);
            break;
        }
        case 4: {  // value by value, in a scrambled order
            auto v = values32(s);
            Rng rg(c.t.seed());
            for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rg.below(i)]);
            r = roaring_bitmap_create_with_capacity((u32)c.t.draw(4));
            for (u32 x : v) roaring_bitmap_add(r, x);
            break;
        }
        default:  // fill the hull, then cut the gaps out
            r = roaring_bitmap_create();
            if (!s.empty()) {
                roaring_bitmap_add_range_closed(r, (u32)s.min(), (u32)s.max());
                for (size_t i = 1; i < s.v.size(); i++)
                    roaring_bitmap_remove_range_closed(r, (u32)(s.v[i - 1].hi + 1), (u32)(s.v[i].lo - 1));
            }
    }
    if (cow) roaring_bitmap_set_copy_on_write(r, true);
    switch (c.t.pick({6, 3, 1, 1})) {
        case 1: roaring_bitmap_run_optimize(r); break;
        case 2: if (!huge) roaring_bitmap_remove_run_compression(r); break;
        case 3: roaring_bitmap_run_optimize(r); roaring_bitmap_shrink_to_fit(r); break;
        default: break;
    }
    if (cow && keep && c.t.chance(1, 2)) keep->push_back(roaring_bitmap_copy(r));
    return r;
}

inline std::string bytes_of(const RB *r) {
    std::string b(roaring_bitmap_portable_size_in_bytes(r), '\0');
    roaring_bitmap_portable_serialize(r, &b[0]);
    return b;
}

inline void expect_valid(Ctx &c, const RB *r, const char *what) {
    const char *why = nullptr;
    PCHECK(c, roaring_bitmap_internal_validate(r, &why), "%s: internal_validate: %s", what, why ? why : "?");
}

// Exact comparison of a bitmap with the model.
inline void expect32(Ctx &c, const RB *r, const ISet &m, const char *what) {
    if (c.notes) c.note(what, bytes_of(r));
    u64 card = m.card(), got = roaring_bitmap_get_cardinality(r);
    PCHECK(c, got == card, "%s: cardinality %llu, expected %llu of %s", what, (unsigned long long)got, (unsigned long long)card, m.str().c_str());
    PCHECK(c, roaring_bitmap_is_empty(r) == (card == 0), "%s: is_empty wrong", what);
    expect_valid(c, r, what);
    if (card <= 30000) {
        std::unique_ptr<u32[]> a(new u32[card + 1]);
        a[card] = 0xDEADBEEF;
        roaring_bitmap_to_uint32_array(r, a.get());
        PCHECK(c, a[card] == 0xDEADBEEF, "%s: to_uint32_array wrote too much", what);
        size_t i = 0;
        for (auto &iv : m.v)
            for (u64 x = iv.lo; x <= iv.hi; x++, i++)
                PCHECK(c, a[i] == x, "%s: value #%zu is %u, expected %llu of %s", what, i, a[i], (unsigned long long)x, m.str().c_str());
        return;
    }
    for (auto &iv : m.v) {
        PCHECK(c, roaring_bitmap_contains(r, (u32)iv.lo) && roaring_bitmap_contains(r, (u32)iv.hi), "%s: lacks %llu or %llu", what, (unsigned long long)iv.lo, (unsigned long long)iv.hi);
        if (iv.hi > iv.lo)
            PCHECK(c, roaring_bitmap_contains_range_closed(r, (u32)iv.lo, (u32)iv.hi), "%s: lacks part of %llu-%llu", what, (unsigned long long)iv.lo, (unsigned long long)iv.hi);
    }
    // enumeration, run by run, in case containment and cardinality agree by accident
    if (card <= 2000000 && m.v.size() < 40000) {
        roaring_uint32_iterator_t it;
        roaring_iterator_init(r, &it);
        std::vector<u32> buf(4096);
        size_t k = 0;
        u64 x = m.v[0].lo;
        for (;;) {
            u32 n = roaring_uint32_iterator_read(&it, buf.data(), 4096);
            for (u32 j = 0; j < n; j++) {
                PCHECK(c, k < m.v.size() && buf[j] == x, "%s: enumeration yields %u, expected %llu", what, buf[j], (unsigned long long)x);
                if (x == m.v[k].hi) { k++; if (k < m.v.size()) x = m.v[k].lo; } else x++;
            }
            if (n < 4096) break;
        }
        PCHECK(c, k == m.v.size(), "%s: enumeration ended early", what);
    }
}


struct Mix { u32 a, r, b; };
inline Mix mix_of(const RB *r) {
    roaring_statistics_t st;
    roaring_bitmap_statistics(r, &st);
    return {st.n_array_containers, st.n_run_containers, st.n_bitset_containers};
}
inline int mix_kinds(const Mix &m) { return (m.a > 0) + (m.r > 0) + (m.b > 0); }
inline bool mix_same(const Mix &x, const Mix &y) { return x.a == y.a && x.r == y.r && x.b == y.b; }
