#include "queries32.h"
#include "iter32.h"
#include "guard.h"

static void reads(Ctx &c, const RB *v, const RB *orig, const ISet &m, gen::Pool &p, const char *what) {
    expect32(c, v, m, what);
    PCHECK(c, roaring_bitmap_equals(v, orig) && roaring_bitmap_equals(orig, v), "%s: not equal to the original", what);
    expect_valid(c, v, what);
    Queries32 q(c, v, m, p);
    for (u32 i = 0, n = 8 + (u32)c.t.draw(12); i < n; i++) q.one();
    Iter32 it(c, v, m, p);
    for (u32 i = 0, n = 5 + (u32)c.t.draw(20); i < n; i++) it.step();
    it.done();
    PCHECK(c, bytes_of(v) == bytes_of(orig), "%s: serialises differently", what);
    PCHECK(c, roaring_bitmap_size_in_bytes(v) == roaring_bitmap_size_in_bytes(orig), "%s: native size differs", what);
    roaring_statistics_t a, b;
    memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
    roaring_bitmap_statistics(v, &a);
    roaring_bitmap_statistics(orig, &b);
    PCHECK(c, a.cardinality == b.cardinality && a.n_containers == b.n_containers && a.n_array_containers == b.n_array_containers && a.n_run_containers == b.n_run_containers && a.min_value == b.min_value && a.max_value == b.max_value, "%s: statistics differ", what);
    PCHECK(c, roaring_bitmap_frozen_size_in_bytes(v) == roaring_bitmap_frozen_size_in_bytes(orig), "%s: frozen size differs", what);
    // as read-only operand
    ISet mb = gen::related(c, p, m);
    RB *o = build32(c, mb);
    ISet e[4];
    for (int k = 0; k < 4; k++) e[k] = ISet::op(m, mb, k);
    RB *t;
    t = roaring_bitmap_and(v, o); expect32(c, t, e[0], "view and o"); roaring_bitmap_free(t);
    t = roaring_bitmap_or(v, o); expect32(c, t, e[1], "view or o"); roaring_bitmap_add(t, 77); roaring_bitmap_remove_range(t, 0, 100000); roaring_bitmap_free(t);
    t = roaring_bitmap_andnot(v, o); expect32(c, t, e[2], "view andnot o"); roaring_bitmap_run_optimize(t); roaring_bitmap_free(t);
    t = roaring_bitmap_xor(o, v); expect32(c, t, e[3], "o xor view"); roaring_bitmap_free(t);
    t = roaring_bitmap_andnot(o, v); expect32(c, t, ISet::op(mb, m, 2), "o andnot view"); roaring_bitmap_free(t);
    PCHECK(c, roaring_bitmap_and_cardinality(v, o) == e[0].card() && roaring_bitmap_intersect(o, v) == !e[0].empty(), "%s: intersection forms", what);
    PCHECK(c, roaring_bitmap_is_subset(v, o) == e[2].empty() && roaring_bitmap_is_subset(o, v) == (e[0] == mb), "%s: subset", what);
    PCHECK(c, roaring_bitmap_equals(v, o) == e[3].empty(), "%s: equals", what);
    bool light = m.card() > (1u << 25) || mb.card() > (1u << 25) || m.v.size() > 30000 || mb.v.size() > 30000;  // unions would become 2^16 bitset blocks
    if (!light) {
    const RB *vs[3] = {o, v, v};
    t = roaring_bitmap_or_many(3, vs); expect32(c, t, e[1], "or_many with views"); roaring_bitmap_free(t);
    t = roaring_bitmap_or_many_heap(3, vs); expect32(c, t, e[1], "or_many_heap with views"); roaring_bitmap_free(t);
    t = roaring_bitmap_xor_many(2, vs); expect32(c, t, e[3], "xor_many with views"); roaring_bitmap_free(t);
    }
    t = roaring_bitmap_flip(v, 10, 70000); { ISet f = m; f.flip(10, 69999); expect32(c, t, f, "flip of a view"); } roaring_bitmap_free(t);
    t = roaring_bitmap_add_offset(v, 3); expect32(c, t, m.shifted(3, MAX32), "add_offset of a view"); roaring_bitmap_free(t);
    if (!light) { t = roaring_bitmap_lazy_or(v, o, true); roaring_bitmap_repair_after_lazy(t); expect32(c, t, e[1], "lazy_or with a view"); roaring_bitmap_free(t); }
    // a copy of a view is an ordinary bitmap; in-place operations take views on the right
    t = roaring_bitmap_copy(v);
    expect32(c, t, m, "copy of a view");
    roaring_bitmap_add_range(t, 5, 500);
    roaring_bitmap_remove(t, 7);
    roaring_bitmap_free(t);
    static void (*const fi[4])(RB *, const RB *) = {roaring_bitmap_and_inplace, roaring_bitmap_or_inplace, roaring_bitmap_andnot_inplace, roaring_bitmap_xor_inplace};
    size_t k = c.t.draw(4);
    t = roaring_bitmap_copy(o);
    fi[k](t, v);
    expect32(c, t, ISet::op(mb, m, (int)k), "in-place with a view on the right");
    roaring_bitmap_flip_inplace(t, 0, 200000);
    roaring_bitmap_free(t);
    RB *ow = roaring_bitmap_copy(o);
    PCHECK(c, roaring_bitmap_overwrite(ow, v), "overwrite from a view");
    expect32(c, ow, m, "overwrite from a view");
    roaring_bitmap_add(ow, 1);
    roaring_bitmap_free(ow);
    roaring_bitmap_free(o);
}

PROPERTY(C08, "a generated bitmap is frozen (and, alternately, portably serialised) into read-only guarded memory; the view over it answers generated queries, iterator walks and set operations and is compared with model and original; "
              "wrong lengths are offered; non-trivial: at least 2 container kinds or 2 chunks") {
    c.wide = true;
    gen::Pool p = gen::pool32(c, 6);
    ISet m = gen::set32(c, p);
    bool cow = c.t.chance(1, 6);
    std::vector<RB *> keep;
    RB *r = build32(c, m, cow, &keep);
    c.log("B=%s", m.str().c_str());
    {
        size_t sz = roaring_bitmap_frozen_size_in_bytes(r);
        // written at any alignment
        {
            Guard w(sz + 3);
            memset(w.p, 0x5c, 3);
            char *at = w.p + 3;
            if (c.t.draw(2)) { at = w.p; w.p[sz] = w.p[sz + 1] = w.p[sz + 2] = 0x5c; }
            roaring_bitmap_frozen_serialize(r, at);
            char *pad = at == w.p ? w.p + sz : w.p;
            PCHECK(c, pad[0] == 0x5c && pad[1] == 0x5c && pad[2] == 0x5c, "frozen_serialize wrote outside %zu announced bytes", sz);
        }
        Guard g(sz + 64, 32);
        char *at = g.p + 32;
        memset(g.p, 0, sz + 64);
        roaring_bitmap_frozen_serialize(r, at);
        {  // exact fit against the guard page for the writer
            Guard e(sz);
            roaring_bitmap_frozen_serialize(r, e.p);
            PCHECK(c, !memcmp(e.p, at, sz), "frozen_serialize is not deterministic");
        }
        g.readonly();
        const RB *v = roaring_bitmap_frozen_view(at, sz);
        PCHECK(c, v, "frozen_view rejects its own buffer");
        reads(c, v, r, m, p, "frozen view");
        roaring_bitmap_free(v);
        for (size_t k : {(size_t)1, (size_t)2, (size_t)4, (size_t)5, (size_t)8, (size_t)31, (size_t)32})
            PCHECK(c, !roaring_bitmap_frozen_view(at, sz + k), "frozen_view accepts a length %zu too large", k);
        for (int k = 0; k < 10 && sz > 4; k++) {
            size_t cut = 1 + c.t.draw(k < 5 ? std::min<size_t>(sz, 12) : sz);
            if (cut > sz) cut = sz;
            const RB *w = roaring_bitmap_frozen_view(at, sz - cut);
            PCHECK(c, !w, "frozen_view accepts a length %zu too small", cut);
        }
        // right end, wrong start
        PCHECK(c, !roaring_bitmap_frozen_view(at - 32, sz + 32), "frozen_view accepts a buffer that starts early");
        for (int k = 1; k < 32; k += 5) PCHECK(c, !roaring_bitmap_frozen_view(at + k, sz - std::min<size_t>(k, sz)), "frozen_view accepts a misaligned buffer");
        c.count("frozen_views");
    }
    {
        size_t sz = roaring_bitmap_portable_size_in_bytes(r), sh = c.t.draw(4);
        Guard g(sz + sh);
        roaring_bitmap_portable_serialize(r, g.p + (sh ? 0 : 0));
        if (sh) memmove(g.p + sh, g.p, sz);
        g.readonly();
        RB *v = roaring_bitmap_portable_deserialize_frozen(g.p + sh);
        PCHECK(c, v, "portable_deserialize_frozen rejects a valid stream");
        reads(c, v, r, m, p, "portable view");
        roaring_bitmap_free(v);
        c.count("portable_views");
    }
    if (c.t.chance(1, 2)) {  // over an independent writer's stream
        fmt::Bytes b = fmt::encode32(m, KindPolicy{(int)c.t.draw(4) | (m.card() > (1u << 25)), 99}, nullptr, c.t.chance(1, 4));
        Guard g(b.size());
        memcpy(g.p, b.data(), b.size());
        g.readonly();
        RB *v = roaring_bitmap_portable_deserialize_frozen(g.p);
        PCHECK(c, v, "portable_deserialize_frozen rejects an independent stream");
        RB *o = from_model_portable(c, m, KindPolicy{m.card() > (1u << 25) ? 3 : 0, 0});
        PCHECK(c, roaring_bitmap_equals(v, o), "portable view over an independent stream");
        expect32(c, v, m, "portable view over an independent stream");
        roaring_bitmap_free(o);
        roaring_bitmap_free(v);
    }
    expect32(c, r, m, "the source afterwards");
    Mix x = mix_of(r);
    c.nontrivial = x.a + x.r + x.b >= 2 || mix_kinds(x) > 1;
    for (RB *k : keep) roaring_bitmap_free(k);
    roaring_bitmap_free(r);
}
