#include "mach64.h"
#include <cmath>

static void op2(Ctx &c, const RB64 *a, const ISet &ma, const RB64 *b, const ISet &mb, const char *tag) {
    typedef RB64 *(*F)(const RB64 *, const RB64 *);
    typedef void (*FI)(RB64 *, const RB64 *);
    typedef u64 (*FC)(const RB64 *, const RB64 *);
    static const F f[4] = {roaring64_bitmap_and, roaring64_bitmap_or, roaring64_bitmap_andnot, roaring64_bitmap_xor};
    static const FI fi[4] = {roaring64_bitmap_and_inplace, roaring64_bitmap_or_inplace, roaring64_bitmap_andnot_inplace, roaring64_bitmap_xor_inplace};
    static const FC fc[4] = {roaring64_bitmap_and_cardinality, roaring64_bitmap_or_cardinality, roaring64_bitmap_andnot_cardinality, roaring64_bitmap_xor_cardinality};
    static const char *nm[4] = {"and", "or", "andnot", "xor"};
    u64 card[4];
    for (int k = 0; k < 4; k++) {
        ISet want = ISet::op(ma, mb, k);
        card[k] = want.card();
        std::string w = std::string(tag) + " " + nm[k];
        u64 got = fc[k](a, b);
        PCHECK(c, got == card[k], "%s_cardinality = %llu, expected %llu", w.c_str(), (unsigned long long)got, (unsigned long long)card[k]);
        RB64 *r = f[k](a, b);
        expect64(c, r, want, w.c_str());
        expect_valid64(c, r, w.c_str());
        if (c.t.chance(1, 4)) {  // the result is an ordinary bitmap
            u64 x = want.empty() ? 7 : c.t.draw(2) ? want.max() : want.min();
            bool had = want.contains(x);
            PCHECK(c, roaring64_bitmap_remove_checked(r, x) == had, "%s: remove from the result", w.c_str());
            PCHECK(c, roaring64_bitmap_add_checked(r, x), "%s: add to the result", w.c_str());
            if (!had) roaring64_bitmap_remove(r, x);
            expect64(c, r, want, w.c_str());
        }
        RB64 *t = roaring64_bitmap_copy(a);
        fi[k](t, b);
        w += "_inplace";
        expect64(c, t, want, w.c_str());
        expect_valid64(c, t, w.c_str());
        PCHECK(c, roaring64_bitmap_equals(r, t) && roaring64_bitmap_equals(t, r), "%s: differs from the returning form", w.c_str());
        if (c.t.chance(1, 4)) {  // a second operation on top, in place
            int j = (int)c.t.draw(4);
            ISet w2 = ISet::op(want, ma, j);
            fi[j](t, a);
            w += std::string(", then ") + nm[j] + "_inplace A";
            expect64(c, t, w2, w.c_str());
            expect_valid64(c, t, w.c_str());
        }
        roaring64_bitmap_free(t);
        roaring64_bitmap_free(r);
    }
    bool inter = card[0] > 0, eq = card[3] == 0, sub = card[2] == 0, strict = sub && !eq;
    PCHECK(c, roaring64_bitmap_intersect(a, b) == inter, "%s intersect should be %d", tag, inter);
    PCHECK(c, roaring64_bitmap_equals(a, b) == eq, "%s equals should be %d", tag, eq);
    PCHECK(c, roaring64_bitmap_is_subset(a, b) == sub, "%s is_subset should be %d", tag, sub);
    PCHECK(c, roaring64_bitmap_is_strict_subset(a, b) == strict, "%s is_strict_subset should be %d", tag, strict);
    if (card[1]) {
        double j = roaring64_bitmap_jaccard_index(a, b), e = (double)card[0] / (double)card[1];
        PCHECK(c, std::fabs(j - e) <= 1e-12, "%s jaccard %.17g expected %.17g", tag, j, e);
    }
}
// Copies of a in which one value moved to a neighbouring place: unequal, and
// neither contains the other, wherever in a container the value sits.
static void twins(Ctx &c, const RB64 *a, const ISet &m, u32 n) {
    if (m.empty()) return;
    RB64 *b = roaring64_bitmap_copy(a);
    PCHECK(c, roaring64_bitmap_equals(a, b) && roaring64_bitmap_equals(b, a), "a copy is not equal");
    u64 card = m.card();
    for (u32 k = 0; k < n; k++) {
        u64 x = 0;
        m.select(c.t.draw(card), &x);
        u64 y = x;
        int dir = c.t.draw(2) ? 1 : -1;
        for (int i = 0; i < 40 && m.contains(y); i++) {
            if ((y & 0xffff) == (dir > 0 ? 0xffff : 0)) { dir = -dir; y = x; }
            else y += dir;
        }
        if (m.contains(y)) continue;
        roaring64_bitmap_remove(b, x);
        roaring64_bitmap_add(b, y);
        PCHECK(c, !roaring64_bitmap_equals(a, b) && !roaring64_bitmap_equals(b, a), "equals although %llu moved to %llu", (unsigned long long)x, (unsigned long long)y);
        PCHECK(c, !roaring64_bitmap_is_subset(a, b) && !roaring64_bitmap_is_subset(b, a), "is_subset although %llu moved to %llu", (unsigned long long)x, (unsigned long long)y);
        PCHECK(c, roaring64_bitmap_and_cardinality(a, b) == card - 1, "and_cardinality after %llu moved to %llu", (unsigned long long)x, (unsigned long long)y);
        roaring64_bitmap_remove(b, y);
        roaring64_bitmap_add(b, x);
        PCHECK(c, roaring64_bitmap_equals(a, b) && roaring64_bitmap_is_subset(a, b) && roaring64_bitmap_is_subset(b, a), "not equal after %llu moved back from %llu", (unsigned long long)x, (unsigned long long)y);
        c.count("twins");
    }
    roaring64_bitmap_free(b);
}
static void flips(Ctx &c, Mach64 &m, const RB64 *a, const ISet &ma) {
    for (int rep = 0; rep < 2; rep++) {
        u64 lo, hi;
        m.range(ma, lo, hi, false, 2);
        ISet want = ma;
        if (hi >= lo) want.flip(lo, hi);
        c.log("flip %llu..%llu", (unsigned long long)lo, (unsigned long long)hi);
        RB64 *t = roaring64_bitmap_flip_closed(a, lo, hi);
        expect64(c, t, want, "flip_closed");
        expect_valid64(c, t, "flip_closed");
        RB64 *u = roaring64_bitmap_copy(a);
        roaring64_bitmap_flip_closed_inplace(u, lo, hi);
        expect64(c, u, want, "flip_closed_inplace");
        expect_valid64(c, u, "flip_closed_inplace");
        roaring64_bitmap_free(t);
        roaring64_bitmap_free(u);
        want = ma;
        if (hi > lo) want.flip(lo, hi - 1);
        t = roaring64_bitmap_flip(a, lo, hi);
        expect64(c, t, want, "flip");
        u = roaring64_bitmap_copy(a);
        roaring64_bitmap_flip_inplace(u, lo, hi);
        expect64(c, u, want, "flip_inplace");
        roaring64_bitmap_flip_inplace(u, lo, hi);
        expect64(c, u, ma, "flip_inplace twice");
        expect_valid64(c, u, "flip_inplace twice");
        roaring64_bitmap_free(t);
        roaring64_bitmap_free(u);
    }
}

PROPERTY(C14, "two generated 64-bit bitmaps (the second often a close relative of the first) through every binary operation, both ways, returning, in place, chained, plus range complements; "
              "non-trivial: they share a chunk and neither intersection nor symmetric difference is empty") {
    c.wide = true;
    Mach64 m(c);
    m.pool = gen::pool64(c, 8);
    ISet ma = gen::set64(c, m.pool), mb = gen::related64(c, m.pool, ma);
    RB64 *a = build64(c, ma), *b = build64(c, mb);
    c.log("A=%s B=%s", ma.str().c_str(), mb.str().c_str());
    op2(c, a, ma, b, mb, "A,B");
    op2(c, b, mb, a, ma, "B,A");
    flips(c, m, a, ma);
    twins(c, a, ma, 6);
    if (c.t.chance(1, 8)) {
        RB64 *t2 = roaring64_bitmap_copy(a);
        roaring64_bitmap_and_inplace(t2, t2);
        expect64(c, t2, ma, "and_inplace with itself");
        roaring64_bitmap_or_inplace(t2, t2);
        expect64(c, t2, ma, "or_inplace with itself");
        roaring64_bitmap_free(t2);
        RB64 *u = roaring64_bitmap_or(a, a), *v = roaring64_bitmap_xor(a, a), *w = roaring64_bitmap_andnot(a, a), *n = roaring64_bitmap_and(a, a);
        expect64(c, u, ma, "A or A");
        expect64(c, n, ma, "A and A");
        expect64(c, v, ISet(), "A xor A");
        expect64(c, w, ISet(), "A andnot A");
        roaring64_bitmap_free(u); roaring64_bitmap_free(v); roaring64_bitmap_free(w); roaring64_bitmap_free(n);
    }
    expect64(c, a, ma, "operand A afterwards");
    expect64(c, b, mb, "operand B afterwards");
    expect_valid64(c, a, "operand A afterwards");
    expect_valid64(c, b, "operand B afterwards");
    c.nontrivial = !ISet::op(ma, mb, 0).empty() && !ISet::op(ma, mb, 3).empty();
    roaring64_bitmap_free(a);
    roaring64_bitmap_free(b);
}
