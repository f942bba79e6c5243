#include "ops2.h"

PROPERTY(C02, "two generated 32-bit bitmaps (the second often a close relative of the first: toggled, subset, superset, complement, shifted) through every binary operation, both ways; "
              "non-trivial: they share a chunk key and neither intersection nor symmetric difference is empty") {
    c.wide = true;
    gen::Pool p = gen::pool32(c);
    ISet ma = gen::set32(c, p), mb = gen::related(c, p, ma);
    bool cow = c.t.chance(1, 6);
    std::vector<RB *> keep;
    RB *a = build32(c, ma, cow, &keep), *b = build32(c, mb, cow, &keep);
    c.log("A=%s B=%s cow=%d", ma.str().c_str(), mb.str().c_str(), cow);
    Mix x = mix_of(a), y = mix_of(b);
    char t[64];
    snprintf(t, sizeof t, "pair[%s%s%s|%s%s%s]", x.a ? "a" : "", x.r ? "r" : "", x.b ? "b" : "", y.a ? "a" : "", y.r ? "r" : "", y.b ? "b" : "");
    c.count(t);
    op2(c, a, ma, b, mb, cow, "A,B");
    op2(c, b, mb, a, ma, cow, "B,A");
    twins2(c, a, ma, 6);
    if (c.t.chance(1, 8)) {
        RB *t2 = roaring_bitmap_copy(a);
        roaring_bitmap_and_inplace(t2, t2);
        expect32(c, t2, ma, "and_inplace with itself");
        roaring_bitmap_or_inplace(t2, t2);
        expect32(c, t2, ma, "or_inplace with itself");
        roaring_bitmap_free(t2);
        u64 k = ma.card();
        PCHECK(c, roaring_bitmap_equals(a, a) && roaring_bitmap_is_subset(a, a) && !roaring_bitmap_is_strict_subset(a, a), "predicates of A and A");
        PCHECK(c, roaring_bitmap_intersect(a, a) == (k > 0) && roaring_bitmap_and_cardinality(a, a) == k && roaring_bitmap_or_cardinality(a, a) == k, "and/or of A and A");
        PCHECK(c, roaring_bitmap_xor_cardinality(a, a) == 0 && roaring_bitmap_andnot_cardinality(a, a) == 0, "xor/andnot of A and A");
        RB *u = roaring_bitmap_or(a, a), *v = roaring_bitmap_xor(a, a), *w = roaring_bitmap_andnot(a, a), *n = roaring_bitmap_and(a, a);
        expect32(c, u, ma, "A or A");
        expect32(c, n, ma, "A and A");
        expect32(c, v, ISet(), "A xor A");
        expect32(c, w, ISet(), "A andnot A");
        roaring_bitmap_free(u); roaring_bitmap_free(v); roaring_bitmap_free(w); roaring_bitmap_free(n);
    }
    expect32(c, a, ma, "operand A afterwards");
    expect32(c, b, mb, "operand B afterwards");
    c.nontrivial = !ISet::op(ma, mb, 0).empty() && !ISet::op(ma, mb, 3).empty();
    for (RB *k : keep) roaring_bitmap_free(k);
    roaring_bitmap_free(a);
    roaring_bitmap_free(b);
}
