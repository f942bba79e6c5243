#include "queries32.h"

// values of an equal bitmap along another route
static RB *rebuild(Ctx &c, const ISet &m, bool cow) { return build32(c, m, cow); }

static size_t runs_possible(const RB *r) {
    roaring_statistics_t st;
    roaring_bitmap_statistics(r, &st);
    return st.n_run_containers;
}

PROPERTY(C11, "histories of generated public operations on up to 4 bitmaps; after every step the touched bitmap must pass internal_validate; then each is re-optimised, shrunk, stripped of runs and rebuilt along other routes, "
              "and equal bitmaps must compare equal and answer generated queries identically; non-trivial: two equal bitmaps with different container mixes were compared") {
    Mach32 m(c);
    m.pool = gen::pool32(c);
    m.cow = c.t.chance(1, 5);
    m.max_slots = 4;
    m.start(1 + c.t.draw(2));
    Mach32::Weights w = Mach32::everything();
    u32 n = 1 + (u32)c.t.draw(c.thorough ? 50 : 20);
    for (size_t i = 0; i < m.s.size(); i++) expect_valid(c, m.s[i].r, "fresh bitmap");
    for (u32 k = 0; k < n; k++) {
        m.step(w);
        if (m.touched >= 0 && (size_t)m.touched < m.s.size()) expect_valid(c, m.s[m.touched].r, ("after " + m.last).c_str());
    }
    m.check_all("after the history");
    bool differ = false;
    for (size_t i = 0; i < m.s.size() && i < 3; i++) {
        RB *r = m.s[i].r;
        const ISet &s = m.s[i].m;
        RB *o = rebuild(c, s, m.cow);
        expect_valid(c, o, "rebuilt bitmap");
        Mix a = mix_of(r), b = mix_of(o);
        if (!mix_same(a, b)) differ = true;
        PCHECK(c, roaring_bitmap_equals(r, o) && roaring_bitmap_equals(o, r), "equal sets %s with containers a%u r%u b%u and a%u r%u b%u compare unequal", s.str().c_str(), a.a, a.r, a.b, b.a, b.r, b.b);
        PCHECK(c, roaring_bitmap_is_subset(r, o) && !roaring_bitmap_is_strict_subset(r, o), "equal sets are not mutual subsets");
        for (int q = 0; q < 2; q++) {
            RB *t = q ? o : r;
            std::string tag = q ? "rebuilt" : "original";
            for (u32 z = 0, nz = 1 + (u32)c.t.draw(3); z < nz; z++) {
                switch (c.t.draw(3)) {
                    case 0: {
                        bool res = roaring_bitmap_run_optimize(t);
                        size_t rc = runs_possible(t);
                        c.log("%s run_optimize=%d", tag.c_str(), res);
                        PCHECK(c, res == (rc > 0), "%s: run_optimize returned %d with %zu run containers", tag.c_str(), res, rc);
                        break;
                    }
                    case 1: {
                        size_t rc = runs_possible(t);
                        bool res = roaring_bitmap_remove_run_compression(t);
                        c.log("%s remove_run_compression=%d", tag.c_str(), res);
                        PCHECK(c, res == (rc > 0), "%s: remove_run_compression returned %d with %zu run containers", tag.c_str(), res, rc);
                        PCHECK(c, runs_possible(t) == 0, "%s: run containers remain", tag.c_str());
                        break;
                    }
                    default: {
                        size_t saved = roaring_bitmap_shrink_to_fit(t);
                        c.log("%s shrink=%zu", tag.c_str(), saved);
                        PCHECK(c, roaring_bitmap_shrink_to_fit(t) == 0, "%s: shrinking twice saves again", tag.c_str());
                    }
                }
                expect_valid(c, t, (tag + " after conversion").c_str());
                expect32(c, t, s, (tag + " after conversion").c_str());
            }
        }
        Mix a2 = mix_of(r), b2 = mix_of(o);
        if (!mix_same(a2, b2)) differ = true;
        PCHECK(c, roaring_bitmap_equals(r, o) && roaring_bitmap_equals(o, r), "equal sets compare unequal after conversions");
        Queries32 q1(c, r, s, m.pool), q2(c, o, s, m.pool);
        for (int k = 0; k < 6; k++) { q1.one(); q2.one(); }
        // a third operand sees no difference either
        const RB *t3 = m.s[c.t.draw(m.s.size())].r;
        PCHECK(c, roaring_bitmap_and_cardinality(r, t3) == roaring_bitmap_and_cardinality(o, t3), "and_cardinality depends on storage");
        PCHECK(c, roaring_bitmap_intersect(r, t3) == roaring_bitmap_intersect(t3, o), "intersect depends on storage");
        PCHECK(c, roaring_bitmap_is_subset(r, t3) == roaring_bitmap_is_subset(o, t3), "is_subset depends on storage");
        PCHECK(c, roaring_bitmap_is_subset(t3, r) == roaring_bitmap_is_subset(t3, o), "is_subset depends on storage");
        PCHECK(c, roaring_bitmap_equals(t3, r) == roaring_bitmap_equals(t3, o), "equals depends on storage");
        RB *x1 = roaring_bitmap_xor(r, t3), *x2 = roaring_bitmap_xor(t3, o);
        PCHECK(c, roaring_bitmap_equals(x1, x2), "xor depends on storage");
        expect_valid(c, x1, "xor");
        expect_valid(c, x2, "xor");
        roaring_bitmap_free(x1);
        roaring_bitmap_free(x2);
        roaring_bitmap_run_optimize(r);
        roaring_bitmap_run_optimize(o);
        roaring_bitmap_free(o);
    }
    c.nontrivial = differ;
    m.finish();
}
