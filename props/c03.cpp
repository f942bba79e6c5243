#include "mach32.h"

PROPERTY(C03, "0-9 generated 32-bit bitmaps (repeats allowed; sometimes up to 700 small ones) through or_many, or_many_heap, xor_many and generated chains of lazy or/xor steps ending in repair; "
              "non-trivial: at least 3 operands, at least one pair overlapping, more than one container kind among them") {
    gen::Pool p = gen::pool32(c);
    bool cow = c.t.chance(1, 6);
    size_t n = c.t.draw(c.t.chance(1, 12) ? 24 : 8);
    std::vector<RB *> keep, bs;
    std::vector<ISet> ms;
    for (size_t i = 0; i < n; i++) {
        ISet m = i && c.t.chance(1, 2) ? gen::related(c, p, ms[c.t.draw(ms.size())]) : gen::set32(c, p);
        ms.push_back(m);
        bs.push_back(build32(c, m, cow, &keep));
        c.log("B%zu=%s", i, m.str(3).c_str());
    }
    std::vector<const RB *> ops;
    std::vector<size_t> idx;
    for (size_t i = 0; i < n; i++) {
        size_t j = c.t.chance(1, 8) ? c.t.draw(n) : i;  // repeats of one pointer
        ops.push_back(bs[j]);
        idx.push_back(j);
    }
    ISet o, x;
    for (size_t j : idx) { o = ISet::op(o, ms[j], 1); x = ISet::op(x, ms[j], 3); }
    RB *r = roaring_bitmap_or_many(n, ops.data());
    expect32(c, r, o, "or_many");
    RB *h = roaring_bitmap_or_many_heap((u32)n, ops.data());
    expect32(c, h, o, "or_many_heap");
    RB *y = roaring_bitmap_xor_many(n, ops.data());
    expect32(c, y, x, "xor_many");
    // the results are ordinary, independent bitmaps
    for (RB *t : {r, h, y}) {
        u32 v = (u32)gen::near(c, o, p, MAX32);
        bool had = roaring_bitmap_contains(t, v);
        PCHECK(c, roaring_bitmap_add_checked(t, v) == !had, "add to an aggregate");
        PCHECK(c, roaring_bitmap_remove_checked(t, v), "remove from an aggregate");
        roaring_bitmap_free(t);
    }
    for (size_t i = 0; i < n; i++) expect32(c, bs[i], ms[i], "operand after aggregation");
    if (c.t.chance(1, 60)) {  // very many operands, most of them small
        u32 k = 25 + (u32)c.t.draw(c.t.draw(3) ? 60 : 700), per = c.t.draw(2) ? 3 : 60, span = c.t.draw(2) ? 65536 : 9000;
        Rng g(c.t.seed());
        ISet mo, mx;
        std::vector<RB *> own;
        std::vector<const RB *> all;
        for (u32 i = 0; i < k; i++) {
            if (n && g.below(40) == 0) {
                size_t j = g.below(n);
                if (ms[j].v.size() < 3000) {
                    all.push_back(bs[j]);
                    mo = ISet::op(mo, ms[j], 1);
                    mx = ISet::op(mx, ms[j], 3);
                    continue;
                }
            }
            if (!own.empty() && g.below(30) == 0) {  // one of them again
                RB *t = own[g.below(own.size())];
                all.push_back(t);
                ISet m;
                u32 b[64];
                u64 z = roaring_bitmap_get_cardinality(t);
                roaring_bitmap_to_uint32_array(t, b);
                for (u64 q = 0; q < z; q++) { mo.add(b[q], b[q]); mx.flip(b[q], b[q]); }
                continue;
            }
            RB *t = roaring_bitmap_create();
            u64 base = p.keys[g.below(p.keys.size())] << 16;
            for (u32 q = 0, z = (u32)g.below(per + 1); q < z; q++) {
                u32 v = (u32)(base + g.below(span));
                if (roaring_bitmap_add_checked(t, v)) { mo.add(v, v); mx.flip(v, v); }
            }
            own.push_back(t);
            all.push_back(t);
        }
        c.log("%zu operands", all.size());
        c.count("many_operands");
        RB *t = roaring_bitmap_or_many(all.size(), all.data());
        expect32(c, t, mo, "or_many of many");
        roaring_bitmap_free(t);
        t = roaring_bitmap_or_many_heap((u32)all.size(), all.data());
        expect32(c, t, mo, "or_many_heap of many");
        roaring_bitmap_free(t);
        t = roaring_bitmap_xor_many(all.size(), all.data());
        expect32(c, t, mx, "xor_many of many");
        roaring_bitmap_free(t);
        for (RB *q : own) roaring_bitmap_free(q);
    }
    // chains of lazy steps
    if (n >= 1) {
        size_t steps = 1 + c.t.draw(c.t.chance(1, 15) ? 40 : 6);
        size_t i0 = c.t.draw(n);
        RB *acc;
        ISet am;
        if (c.t.chance(1, 2)) {
            acc = roaring_bitmap_copy(bs[i0]);
            am = ms[i0];
            c.log("lazy from B%zu", i0);
        } else {
            size_t j = c.t.draw(n);
            bool ox = c.t.draw(2);
            if (ox) acc = roaring_bitmap_lazy_xor(bs[i0], bs[j]);
            else acc = roaring_bitmap_lazy_or(bs[i0], bs[j], c.t.draw(2));
            am = ISet::op(ms[i0], ms[j], ox ? 3 : 1);
            c.log("lazy_%s B%zu B%zu", ox ? "xor" : "or", i0, j);
        }
        for (size_t k = 0; k < steps; k++) {
            size_t j = c.t.draw(n);
            bool ox = c.t.draw(2);
            switch (c.t.pick({5, 2, 1})) {
                case 0:
                    if (ox) roaring_bitmap_lazy_xor_inplace(acc, bs[j]);
                    else roaring_bitmap_lazy_or_inplace(acc, bs[j], c.t.draw(2));
                    break;
                case 1: {  // the accumulator as a lazy operand of a fresh result
                    RB *t = ox ? roaring_bitmap_lazy_xor(acc, bs[j]) : roaring_bitmap_lazy_or(acc, bs[j], c.t.draw(2));
                    roaring_bitmap_free(acc);
                    acc = t;
                    break;
                }
                default: {
                    RB *t = ox ? roaring_bitmap_lazy_xor(bs[j], acc) : roaring_bitmap_lazy_or(bs[j], acc, c.t.draw(2));
                    roaring_bitmap_free(acc);
                    acc = t;
                }
            }
            am = ISet::op(am, ms[j], ox ? 3 : 1);
            c.log("lazy %s B%zu", ox ? "xor" : "or", j);
            c.count("lazy_steps");
        }
        roaring_bitmap_repair_after_lazy(acc);
        expect32(c, acc, am, "lazy chain after repair");
        roaring_bitmap_free(acc);
        for (size_t i = 0; i < n; i++) expect32(c, bs[i], ms[i], "operand after the lazy chain");
    }
    Mix tot = {0, 0, 0};
    bool overlap = false;
    for (size_t i = 0; i < n; i++) {
        Mix q = mix_of(bs[i]);
        tot.a += q.a; tot.r += q.r; tot.b += q.b;
        if (i && !overlap) overlap = !ISet::op(ms[i - 1], ms[i], 0).empty();
    }
    c.nontrivial = n >= 3 && overlap && mix_kinds(tot) > 1;
    for (RB *k : keep) roaring_bitmap_free(k);
    for (RB *k : bs) roaring_bitmap_free(k);
}
