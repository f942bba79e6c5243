#include "mach64.h"
#include "queries64.h"
#include "iter64.h"
#include "guard.h"

static void reads(Ctx &c, const RB64 *v, const RB64 *orig, const ISet &m, gen::Pool &p) {
    expect64(c, v, m, "view");
    expect_valid64(c, v, "view");
    PCHECK(c, roaring64_bitmap_equals(v, orig) && roaring64_bitmap_equals(orig, v), "the view does not equal the original");
    Queries64 q(c, v, m, p);
    for (u32 i = 0, n = 8 + (u32)c.t.draw(16); i < n; i++) q.one();
    Iter64 it(c, v, m, p);
    for (u32 i = 0, n = 5 + (u32)c.t.draw(25); i < n; i++) it.step();
    it.done();
    if (m.card() < 100000) walk64(c, v, m);
    PCHECK(c, bytes_of64(v) == bytes_of64(orig), "the view serialises differently");
    roaring64_statistics_t a, b;
    memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
    roaring64_bitmap_statistics(v, &a);
    roaring64_bitmap_statistics(orig, &b);
    PCHECK(c, a.cardinality == b.cardinality && a.n_containers == b.n_containers && a.n_array_containers == b.n_array_containers && a.n_run_containers == b.n_run_containers && a.min_value == b.min_value && a.max_value == b.max_value, "the view's statistics differ");
    // as read-only operand, either side
    ISet mb = gen::related64(c, p, m);
    RB64 *o = build64(c, mb), *t;
    ISet e[4];
    for (int k = 0; k < 4; k++) e[k] = ISet::op(m, mb, k);
    typedef RB64 *(*F)(const RB64 *, const RB64 *);
    typedef void (*FI)(RB64 *, const RB64 *);
    static const F f[4] = {roaring64_bitmap_and, roaring64_bitmap_or, roaring64_bitmap_andnot, roaring64_bitmap_xor};
    static const FI fi[4] = {roaring64_bitmap_and_inplace, roaring64_bitmap_or_inplace, roaring64_bitmap_andnot_inplace, roaring64_bitmap_xor_inplace};
    for (int k = 0; k < 4; k++) {
        t = f[k](v, o);
        expect64(c, t, e[k], "set operation with a view on the left");
        // results are ordinary bitmaps that share nothing with the buffer
        u64 lo, hi;
        lo = m.empty() ? 5 : m.min();
        hi = lo > MAX64 - 70000 ? MAX64 : lo + 70000;
        ISet w = e[k];
        w.flip(lo, hi);
        roaring64_bitmap_flip_closed_inplace(t, lo, hi);
        expect64(c, t, w, "a changed result of an operation on a view");
        roaring64_bitmap_free(t);
        t = f[k](o, v);
        expect64(c, t, ISet::op(mb, m, k), "set operation with a view on the right");
        roaring64_bitmap_free(t);
        t = roaring64_bitmap_copy(o);
        fi[k](t, v);
        w = ISet::op(mb, m, k);
        expect64(c, t, w, "in-place operation with a view on the right");
        w.flip(lo, hi);
        roaring64_bitmap_flip_closed_inplace(t, lo, hi);
        expect64(c, t, w, "changed after an in-place operation with a view");
        expect_valid64(c, t, "changed after an in-place operation with a view");
        roaring64_bitmap_free(t);
    }
    PCHECK(c, roaring64_bitmap_and_cardinality(v, o) == e[0].card() && roaring64_bitmap_or_cardinality(o, v) == e[1].card() && roaring64_bitmap_xor_cardinality(v, o) == e[3].card() && roaring64_bitmap_andnot_cardinality(v, o) == e[2].card(), "cardinality forms with a view");
    PCHECK(c, roaring64_bitmap_intersect(o, v) == !e[0].empty() && roaring64_bitmap_is_subset(v, o) == e[2].empty() && roaring64_bitmap_is_subset(o, v) == (e[0] == mb) && roaring64_bitmap_equals(v, o) == e[3].empty(), "predicates with a view");
    {
        u64 lo = m.empty() ? 5 : m.max() - std::min<u64>(m.max(), 1000), hi = lo > MAX64 - 200000 ? MAX64 : lo + 200000;
        ISet w = m;
        w.flip(lo, hi);
        t = roaring64_bitmap_flip_closed(v, lo, hi);
        expect64(c, t, w, "flip of a view");
        roaring64_bitmap_free(t);
    }
    t = roaring64_bitmap_copy(v);
    expect64(c, t, m, "copy of a view");
    {  // goes on as an ordinary bitmap
        c.wide = true;
    Mach64 mm(c);
        mm.pool = p;
        mm.s.push_back({t, m});
        mm.max_slots = 1;
        Mach64::Weights w = Mach64::mutators();
        for (u32 k = 0, n = (u32)c.t.draw(5); k < n; k++) mm.step(w);
        mm.check_all("a copy of a view, changed");
        mm.finish();
    }
    roaring64_bitmap_free(o);
}

PROPERTY(C18, "a 64-bit bitmap with a generated history is shrunk and frozen into read-only guarded memory; the view answers generated queries, iterator walks and set operations and is compared with model and original; truncated and misaligned buffers and unshrunk sources are offered; "
              "non-trivial: at least 2 containers and the history had at least one step or the set several chunks") {
    Mach64 mm(c);
    mm.pool = gen::pool64(c, 8);
    mm.start(1);
    mm.max_slots = 1;
    u32 steps = (u32)c.t.draw(16);
    Mach64::Weights w = Mach64::mutators();
    w[Mach64::COPY] = 0;
    for (u32 k = 0; k < steps; k++) mm.step(w);
    RB64 *r = mm.s[0].r;
    const ISet m = mm.s[0].m;
    c.log("B=%s", m.str().c_str());
    {   // a bitmap that is not shrunk refuses or, if it happens to be compact, freezes properly
        size_t n = roaring64_bitmap_frozen_size_in_bytes(r);
        if (n == 0) {
            char one[64];
            memset(one, 0x5c, sizeof one);
            PCHECK(c, roaring64_bitmap_frozen_serialize(r, one) == 0, "frozen_serialize of an unshrunk bitmap should return 0");
            for (char x : one) PCHECK(c, x == 0x5c, "frozen_serialize of an unshrunk bitmap wrote something");
            c.count("unshrunk_refused");
        } else {
            Guard g(n, 64);
            PCHECK(c, roaring64_bitmap_frozen_serialize(r, g.p) == n, "frozen_serialize before shrink_to_fit returned another size than the announced %zu", n);
            RB64 *v = roaring64_bitmap_frozen_view(g.p, n);
            PCHECK(c, v && roaring64_bitmap_equals(v, r), "what was frozen before shrink_to_fit is not the bitmap");
            expect64(c, v, m, "frozen before shrink_to_fit");
            roaring64_bitmap_free(v);
            c.count("compact_without_shrinking");
        }
        roaring64_bitmap_shrink_to_fit(r);
        expect64(c, r, m, "after shrink_to_fit");
        expect_valid64(c, r, "after shrink_to_fit");
        PCHECK(c, roaring64_bitmap_shrink_to_fit(r) == 0, "a second shrink_to_fit saves something");
    }
    size_t sz = roaring64_bitmap_frozen_size_in_bytes(r);
    PCHECK(c, sz > 0, "frozen size of a shrunk bitmap is 0");
    {
        Guard e(sz + 3);  // any alignment to write to
        memset(e.p, 0x5c, sz + 3);
        PCHECK(c, roaring64_bitmap_frozen_serialize(r, e.p) == sz, "frozen_serialize returned another size than announced");
        PCHECK(c, e.p[sz] == 0x5c && e.p[sz + 1] == 0x5c && e.p[sz + 2] == 0x5c, "frozen_serialize wrote beyond the announced size");
        Guard g(sz, 64);
        memset(g.p, 0xff, sz);
        PCHECK(c, roaring64_bitmap_frozen_serialize(r, g.p) == sz, "frozen_serialize returned another size than announced");
        PCHECK(c, !memcmp(e.p, g.p, sz), "frozen_serialize is not deterministic, or leaves bytes unset");
        g.readonly();
        RB64 *v = roaring64_bitmap_frozen_view(g.p, sz);
        PCHECK(c, v, "frozen_view rejects its own buffer");
        reads(c, v, r, m, mm.pool);
        roaring64_bitmap_free(v);
        c.count("frozen_views");
        for (int k = 1; k < 64; k += 1 + (int)c.t.draw(9)) {
            if ((size_t)k >= sz) break;
            PCHECK(c, !roaring64_bitmap_frozen_view(g.p + k, sz - k), "frozen_view accepts a buffer misaligned by %d", k);
        }
        // cut short: refused, or (only padding cut) answered properly within what is left
        std::vector<size_t> cut;
        for (size_t k = 0; k < 24 && k < sz; k++) cut.push_back(c.t.draw(2) ? k : c.t.draw(std::min<size_t>(sz, 300)));
        for (size_t k = 1; k <= 70 && k <= sz; k += 1 + c.t.draw(8)) cut.push_back(sz - k);
        for (int k = 0; k < 10; k++) cut.push_back(c.t.draw(sz));
        for (size_t k : cut) {
            Guard h((k + 63) / 64 * 64, 64);
            // the kept bytes end at an inaccessible page up to alignment; the rest is poison
            memset(h.p, 0xA5, (k + 63) / 64 * 64);
            memcpy(h.p, g.p, k);
            h.readonly();
            RB64 *q = roaring64_bitmap_frozen_view(h.p, k);
            c.count("truncations");
            if (!q) continue;
            PCHECK(c, sz - k < 64, "frozen_view accepts %zu of %zu bytes", k, sz);
            expect64(c, q, m, "view of a buffer whose padding is cut");
            roaring64_bitmap_free(q);
        }
    }
    PCHECK(c, !roaring64_bitmap_frozen_view(nullptr, sz), "frozen_view of NULL");
    expect64(c, r, m, "the source afterwards");
    expect_valid64(c, r, "the source afterwards");
    c.nontrivial = m.v.size() >= 2 && (mm.changed > 0 || mm.pool.keys.size() > 1);
    mm.finish();
}
