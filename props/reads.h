// One read-only operation with a generated choice and generated arguments, its
// answer compared with the model. 'share': the operands' storage may be marked
// as shared by it (copy-on-write), so operations that copy from them count too.
#pragma once
#include "queries32.h"
#include "iter32.h"
#include "mach64.h"
#include "queries64.h"
#include "iter64.h"
#include "text.h"
#include <cmath>

struct Pair32 { const RB *a, *b; const ISet &ma, &mb; };
struct Pair64 { const RB64 *a, *b; const ISet &ma, &mb; };
inline bool reads_count_cb(u32, void *p) { return --*(int *)p > 0; }
inline bool reads_count_cb64(u64, void *p) { return --*(int *)p > 0; }

// poke: whether the result is then changed as well
inline std::string read32(Ctx &c, const Pair32 &x, const gen::Pool &p, bool share, bool poke, bool print = true) {
    const RB *a = x.a, *b = x.b;
    const ISet &ma = x.ma, &mb = x.mb;
    static const char *N[] = {"queries", "iteration", "predicates", "cardinalities", "serialisation", "frozen serialisation", "listing",
                              "and", "or", "xor", "andnot", "and_inplace", "or_inplace", "xor_inplace", "andnot_inplace", "lazy_or", "lazy_xor",
                              "lazy_or_inplace", "lazy_xor_inplace", "or_many/xor_many", "or_many_heap", "flip", "add_offset", "copy", "overwrite"};
    size_t op = c.t.draw(share ? 25 : 7);
    RB *t = nullptr, *u = nullptr;
    ISet e;
    switch (op) {
        case 0: {
            Queries32 q(c, a, ma, p);
            for (int z = 0; z < 6; z++) q.one();
            break;
        }
        case 1: {
            Iter32 it(c, a, ma, p);
            for (int z = 0; z < 10; z++) it.step();
            it.done();
            int left = 1 + (int)c.t.draw(50), left2 = left;
            roaring_iterate(a, reads_count_cb, &left);
            roaring_iterate64(a, reads_count_cb64, 77, &left2);
            break;
        }
        case 2: {
            ISet i = ISet::op(ma, mb, 0);
            PCHECK(c, roaring_bitmap_intersect(a, b) == !i.empty(), "intersect");
            PCHECK(c, roaring_bitmap_is_subset(a, b) == (i == ma), "is_subset");
            PCHECK(c, roaring_bitmap_is_strict_subset(a, b) == (i == ma && ma != mb), "is_strict_subset");
            PCHECK(c, roaring_bitmap_equals(a, b) == (ma == mb), "equals");
            PCHECK(c, roaring_bitmap_is_empty(a) == ma.empty(), "is_empty");
            expect_valid(c, a, "operand");
            break;
        }
        case 3: {
            u64 i = ISet::op(ma, mb, 0).card(), n = ma.card(), k = mb.card();
            PCHECK(c, roaring_bitmap_and_cardinality(a, b) == i, "and_cardinality");
            PCHECK(c, roaring_bitmap_or_cardinality(a, b) == n + k - i, "or_cardinality");
            PCHECK(c, roaring_bitmap_xor_cardinality(a, b) == n + k - 2 * i, "xor_cardinality");
            PCHECK(c, roaring_bitmap_andnot_cardinality(a, b) == n - i, "andnot_cardinality");
            if (n + k) PCHECK(c, std::fabs(roaring_bitmap_jaccard_index(a, b) - (double)i / (double)(n + k - i)) < 1e-12, "jaccard_index");
            break;
        }
        case 4: {
            std::string s = bytes_of(a), w(roaring_bitmap_size_in_bytes(a), '\0');
            ISet d;
            size_t used;
            PCHECK(c, fmt::decode32((const u8 *)s.data(), s.size(), &d, &used).empty() && d == ma, "portable stream denotes another set");
            PCHECK(c, roaring_bitmap_serialize(a, &w[0]) == w.size(), "native stream of another length");
            break;
        }
        case 5: {
            size_t fs = roaring_bitmap_frozen_size_in_bytes(a);
            char *buf = (char *)aligned_alloc(32, (fs + 63) / 32 * 32);
            roaring_bitmap_frozen_serialize(a, buf);
            const RB *v = roaring_bitmap_frozen_view(buf, fs);
            PCHECK(c, v, "frozen view");
            PCHECK(c, roaring_bitmap_equals(v, a) && roaring_bitmap_equals(a, v), "the frozen view differs");
            if (share) {
                RB *q = roaring_bitmap_xor(v, b);
                expect32(c, q, ISet::op(ma, mb, 3), "xor with a frozen view");
                roaring_bitmap_free(q);
            }
            roaring_bitmap_free(v);
            free(buf);
            break;
        }
        case 6: {
            if (!print || ma.card() > 3000) break;
            std::string s = text::captured([&] { roaring_bitmap_printf(a); });
            std::string d = text::captured([&] { roaring_bitmap_printf_describe(a); });
            PCHECK(c, s == text::listed(ma), "printf lists %s", s.substr(0, 60).c_str());
            break;
        }
        case 7: t = roaring_bitmap_and(a, b); e = ISet::op(ma, mb, 0); break;
        case 8: t = roaring_bitmap_or(a, b); e = ISet::op(ma, mb, 1); break;
        case 9: t = roaring_bitmap_xor(a, b); e = ISet::op(ma, mb, 3); break;
        case 10: t = roaring_bitmap_andnot(a, b); e = ISet::op(ma, mb, 2); break;
        case 11: t = roaring_bitmap_copy(b); roaring_bitmap_and_inplace(t, a); e = ISet::op(ma, mb, 0); break;
        case 12: t = roaring_bitmap_copy(b); roaring_bitmap_or_inplace(t, a); e = ISet::op(ma, mb, 1); break;
        case 13: t = roaring_bitmap_copy(b); roaring_bitmap_xor_inplace(t, a); e = ISet::op(ma, mb, 3); break;
        case 14: t = roaring_bitmap_copy(b); roaring_bitmap_andnot_inplace(t, a); e = ISet::op(mb, ma, 2); break;
        case 15: t = roaring_bitmap_lazy_or(a, b, c.t.draw(2)); roaring_bitmap_repair_after_lazy(t); e = ISet::op(ma, mb, 1); break;
        case 16: t = roaring_bitmap_lazy_xor(a, b); roaring_bitmap_repair_after_lazy(t); e = ISet::op(ma, mb, 3); break;
        case 17: t = roaring_bitmap_copy(b); roaring_bitmap_lazy_or_inplace(t, a, c.t.draw(2)); roaring_bitmap_repair_after_lazy(t); e = ISet::op(ma, mb, 1); break;
        case 18: t = roaring_bitmap_copy(b); roaring_bitmap_lazy_xor_inplace(t, a); roaring_bitmap_repair_after_lazy(t); e = ISet::op(ma, mb, 3); break;
        case 19: {
            const RB *v[3] = {a, b, a};
            size_t n = 1 + c.t.draw(3);
            t = roaring_bitmap_or_many(n, v);
            e = n == 1 ? ma : ISet::op(ma, mb, 1);
            u = roaring_bitmap_xor_many(n, v);
            expect32(c, u, n == 1 ? ma : n == 2 ? ISet::op(ma, mb, 3) : mb, "xor_many");
            break;
        }
        case 20: {
            const RB *v[4] = {a, b, b, a};
            u32 n = 1 + (u32)c.t.draw(4);
            t = roaring_bitmap_or_many_heap(n, v);
            e = n == 1 ? ma : ISet::op(ma, mb, 1);
            break;
        }
        case 21: {
            Mach32 mm(c);
            mm.pool = p;
            u64 lo, hi;
            mm.range(ma, lo, hi);
            t = roaring_bitmap_flip(a, lo, hi);
            e = ma;
            if (hi > lo) e.flip(lo, hi - 1);
            break;
        }
        case 22: { int64_t o = (int64_t)c.t.draw(400000) - 200000; if (c.t.draw(3) == 0) o = o / 65536 * 65536; t = roaring_bitmap_add_offset(a, o); e = ma.shifted(o, MAX32); break; }
        case 23: t = roaring_bitmap_copy(a); e = ma; break;
        default: t = roaring_bitmap_copy(b); roaring_bitmap_overwrite(t, a); e = ma;
    }
    c.log("%s", N[op]);
    c.count(N[op]);
    if (t) {
        expect32(c, t, e, N[op]);
        if (poke) {  // working on the result must not reach the operands either
            u32 v = (u32)gen::near(c, ma, p, MAX32);
            if (!roaring_bitmap_remove_checked(t, v)) roaring_bitmap_add(t, v);
            roaring_bitmap_flip_inplace(t, 0, 70000);
            roaring_bitmap_run_optimize(t);
        }
        roaring_bitmap_free(t);
        if (u) roaring_bitmap_free(u);
    }
    return N[op];
}

// frozen: whether a may be frozen (it was shrunk to fit)
inline std::string read64(Ctx &c, const Pair64 &x, const gen::Pool &p, bool frozen, bool poke) {
    const RB64 *a = x.a, *b = x.b;
    const ISet &ma = x.ma, &mb = x.mb;
    static const char *N[] = {"queries64", "iteration64", "predicates64", "cardinalities64", "serialisation64", "frozen serialisation64", "listing64",
                              "and64", "or64", "xor64", "andnot64", "and_inplace64", "or_inplace64", "xor_inplace64", "andnot_inplace64", "flip64", "copy64"};
    size_t op = c.t.draw(17);
    RB64 *t = nullptr;
    ISet e;
    switch (op) {
        case 0: {
            Queries64 q(c, a, ma, p);
            for (int z = 0; z < 6; z++) q.one();
            break;
        }
        case 1: {
            Iter64 it(c, a, ma, p);
            for (int z = 0; z < 10; z++) it.step();
            it.done();
            int left = 1 + (int)c.t.draw(50);
            roaring64_bitmap_iterate(a, reads_count_cb64, &left);
            break;
        }
        case 2: {
            ISet i = ISet::op(ma, mb, 0);
            PCHECK(c, roaring64_bitmap_intersect(a, b) == !i.empty(), "intersect");
            PCHECK(c, roaring64_bitmap_is_subset(a, b) == (i == ma), "is_subset");
            PCHECK(c, roaring64_bitmap_is_strict_subset(a, b) == (i == ma && ma != mb), "is_strict_subset");
            PCHECK(c, roaring64_bitmap_equals(a, b) == (ma == mb), "equals");
            PCHECK(c, roaring64_bitmap_is_empty(a) == ma.empty(), "is_empty");
            expect_valid64(c, a, "operand");
            break;
        }
        case 3: {
            u64 i = ISet::op(ma, mb, 0).card(), n = ma.card(), k = mb.card();
            PCHECK(c, roaring64_bitmap_and_cardinality(a, b) == i, "and_cardinality");
            PCHECK(c, roaring64_bitmap_or_cardinality(a, b) == n + k - i, "or_cardinality");
            PCHECK(c, roaring64_bitmap_xor_cardinality(a, b) == n + k - 2 * i, "xor_cardinality");
            PCHECK(c, roaring64_bitmap_andnot_cardinality(a, b) == n - i, "andnot_cardinality");
            if (n + k) PCHECK(c, std::fabs(roaring64_bitmap_jaccard_index(a, b) - (double)i / (double)(n + k - i)) < 1e-12, "jaccard_index");
            break;
        }
        case 4: {
            std::string s = bytes_of64(a);
            RB64 *q = roaring64_bitmap_portable_deserialize_safe(s.data(), s.size());
            PCHECK(c, q && roaring64_bitmap_equals(q, a), "the portable stream denotes another set");
            roaring64_bitmap_free(q);
            break;
        }
        case 5: {
            if (!frozen) break;
            size_t fs = roaring64_bitmap_frozen_size_in_bytes(a);
            char *buf = (char *)aligned_alloc(64, (fs + 127) / 64 * 64);
            PCHECK(c, roaring64_bitmap_frozen_serialize(a, buf) == fs, "frozen_serialize");
            RB64 *v = roaring64_bitmap_frozen_view(buf, fs);
            PCHECK(c, v && roaring64_bitmap_equals(v, a) && roaring64_bitmap_equals(a, v), "the frozen view differs");
            RB64 *q = roaring64_bitmap_xor(v, b);
            expect64(c, q, ISet::op(ma, mb, 3), "xor with a frozen view");
            roaring64_bitmap_free(q);
            roaring64_bitmap_free(v);
            free(buf);
            break;
        }
        case 6: {
            u64 n = ma.card();
            if (n > 300000) break;
            std::vector<u64> v(n + 1);
            roaring64_bitmap_to_uint64_array(a, v.data());
            PCHECK(c, !n || (v[0] == ma.min() && v[n - 1] == ma.max()), "to_uint64_array");
            break;
        }
        case 7: t = roaring64_bitmap_and(a, b); e = ISet::op(ma, mb, 0); break;
        case 8: t = roaring64_bitmap_or(a, b); e = ISet::op(ma, mb, 1); break;
        case 9: t = roaring64_bitmap_xor(a, b); e = ISet::op(ma, mb, 3); break;
        case 10: t = roaring64_bitmap_andnot(a, b); e = ISet::op(ma, mb, 2); break;
        case 11: t = roaring64_bitmap_copy(b); roaring64_bitmap_and_inplace(t, a); e = ISet::op(ma, mb, 0); break;
        case 12: t = roaring64_bitmap_copy(b); roaring64_bitmap_or_inplace(t, a); e = ISet::op(ma, mb, 1); break;
        case 13: t = roaring64_bitmap_copy(b); roaring64_bitmap_xor_inplace(t, a); e = ISet::op(ma, mb, 3); break;
        case 14: t = roaring64_bitmap_copy(b); roaring64_bitmap_andnot_inplace(t, a); e = ISet::op(mb, ma, 2); break;
        case 15: {
            Mach64 mm(c);
            mm.pool = p;
            u64 lo, hi;
            mm.range(ma, lo, hi, false, 2);
            bool closed = c.t.draw(2);
            t = closed ? roaring64_bitmap_flip_closed(a, lo, hi) : roaring64_bitmap_flip(a, lo, hi);
            e = ma;
            if (closed ? hi >= lo : hi > lo) e.flip(lo, closed ? hi : hi - 1);
            break;
        }
        default: t = roaring64_bitmap_copy(a); e = ma;
    }
    c.log("%s", N[op]);
    c.count(N[op]);
    if (t) {
        expect64(c, t, e, N[op]);
        if (poke) {
            u64 v = gen::near(c, ma, p, MAX64);
            if (!roaring64_bitmap_remove_checked(t, v)) roaring64_bitmap_add(t, v);
            if (!ma.empty()) roaring64_bitmap_flip_inplace(t, ma.min(), ma.min() + std::min<u64>(70000, MAX64 - ma.min()));
            roaring64_bitmap_run_optimize(t);
        }
        roaring64_bitmap_free(t);
    }
    return N[op];
}
