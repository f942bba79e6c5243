// Every binary operation on one pair of 32-bit bitmaps.
#pragma once
#include "mach32.h"
#include <cmath>

inline void op2(Ctx &c, const RB *a, const ISet &ma, const RB *b, const ISet &mb, bool cow, const char *tag) {
    static const int K[4] = {0, 1, 2, 3};
    typedef RB *(*F)(const RB *, const RB *);
    typedef void (*FI)(RB *, const RB *);
    typedef u64 (*FC)(const RB *, const RB *);
    static const F f[4] = {roaring_bitmap_and, roaring_bitmap_or, roaring_bitmap_andnot, roaring_bitmap_xor};
    static const FI fi[4] = {roaring_bitmap_and_inplace, roaring_bitmap_or_inplace, roaring_bitmap_andnot_inplace, roaring_bitmap_xor_inplace};
    static const FC fc[4] = {roaring_bitmap_and_cardinality, roaring_bitmap_or_cardinality, roaring_bitmap_andnot_cardinality, roaring_bitmap_xor_cardinality};
    static const char *nm[4] = {"and", "or", "andnot", "xor"};
    u64 card[4];
    for (int k = 0; k < 4; k++) {
        ISet want = ISet::op(ma, mb, K[k]);
        card[k] = want.card();
        std::string w = std::string(tag) + " " + nm[k];
        u64 got = fc[k](a, b);
        PCHECK(c, got == card[k], "%s_cardinality = %llu, expected %llu", w.c_str(), (unsigned long long)got, (unsigned long long)card[k]);
        RB *r = f[k](a, b);
        expect32(c, r, want, w.c_str());
        // the result is an ordinary bitmap: it can be changed and used again
        if (c.t.chance(1, 4)) {
            u32 x = want.empty() ? 7 : (u32)want.min();
            bool had = want.contains(x);
            PCHECK(c, roaring_bitmap_remove_checked(r, x) == had, "%s: remove from the result", w.c_str());
            PCHECK(c, roaring_bitmap_add_checked(r, x), "%s: add to the result", w.c_str());
            if (!had) roaring_bitmap_remove(r, x);
        }
        RB *t = roaring_bitmap_copy(a);
        fi[k](t, b);
        w += "_inplace";
        expect32(c, t, want, w.c_str());
        PCHECK(c, roaring_bitmap_equals(r, t) && roaring_bitmap_equals(t, r), "%s: differs from the returning form", w.c_str());
        roaring_bitmap_free(t);
        roaring_bitmap_free(r);
    }
    bool inter = card[0] > 0;
    PCHECK(c, roaring_bitmap_intersect(a, b) == inter, "%s intersect should be %d", tag, inter);
    bool eq = card[3] == 0, sub = card[2] == 0, strict = sub && !eq;
    PCHECK(c, roaring_bitmap_equals(a, b) == eq, "%s equals should be %d", tag, eq);
    PCHECK(c, roaring_bitmap_is_subset(a, b) == sub, "%s is_subset should be %d", tag, sub);
    PCHECK(c, roaring_bitmap_is_strict_subset(a, b) == strict, "%s is_strict_subset should be %d", tag, strict);
    if (card[1]) {
        double j = roaring_bitmap_jaccard_index(a, b), e = (double)card[0] / (double)card[1];
        PCHECK(c, std::fabs(j - e) <= 1e-12, "%s jaccard %.17g expected %.17g", tag, j, e);
    }
}

// Copies of a in which one value moved to a neighbouring place: unequal, and
// neither contains the other, wherever in a container the value sits.
inline void twins2(Ctx &c, const RB *a, const ISet &m, u32 n) {
    if (m.empty()) return;
    RB *b = roaring_bitmap_copy(a);
    // the twin may hold the same values in other kinds of container
    u64 how = c.t.pick({2, 2, 1});
    if (how == 1) roaring_bitmap_remove_run_compression(b);
    if (how == 2) roaring_bitmap_run_optimize(b);
    PCHECK(c, roaring_bitmap_equals(a, b) && roaring_bitmap_equals(b, a), "a copy is not equal");
    u64 card = m.card();
    for (u32 k = 0; k < n; k++) {
        u64 x = 0;
        m.select(c.t.draw(card), &x);
        u64 y = x;
        int dir = c.t.draw(2) ? 1 : -1;
        for (int i = 0; i < 40 && m.contains(y); i++) {
            if ((y & 0xffff) == (dir > 0 ? 0xffff : 0)) { dir = -dir; y = x; }
            else y += dir;
        }
        if (m.contains(y)) continue;
        roaring_bitmap_remove(b, (u32)x);
        roaring_bitmap_add(b, (u32)y);
        PCHECK(c, !roaring_bitmap_equals(a, b) && !roaring_bitmap_equals(b, a), "equals although %u moved to %u", (u32)x, (u32)y);
        PCHECK(c, !roaring_bitmap_is_subset(a, b) && !roaring_bitmap_is_subset(b, a), "is_subset although %u moved to %u", (u32)x, (u32)y);
        PCHECK(c, roaring_bitmap_and_cardinality(a, b) == card - 1, "and_cardinality after %u moved to %u", (u32)x, (u32)y);
        roaring_bitmap_remove(b, (u32)y);
        roaring_bitmap_add(b, (u32)x);
        PCHECK(c, roaring_bitmap_equals(a, b) && roaring_bitmap_is_subset(a, b) && roaring_bitmap_is_subset(b, a), "not equal after %u moved back from %u", (u32)x, (u32)y);
        c.count("twins");
    }
    roaring_bitmap_free(b);
}
