#include "reads.h"
#include "arena.h"

// What a bitmap shows of itself, byte for byte.
struct Snap {
    std::string port, native;
    roaring_statistics_t st;
};
static Snap snap(const RB *r) {
    Snap s;
    s.port = bytes_of(r);
    s.native.resize(roaring_bitmap_size_in_bytes(r));
    roaring_bitmap_serialize(r, &s.native[0]);
    memset(&s.st, 0, sizeof s.st);
    roaring_bitmap_statistics(r, &s.st);
    return s;
}
static void same(Ctx &c, const RB *r, const Snap &a, const char *what) {
    Snap b = snap(r);
    PCHECK(c, a.port == b.port, "%s changed the portable bytes of its read-only operand", what);
    PCHECK(c, a.native == b.native, "%s changed the native bytes of its read-only operand", what);
    PCHECK(c, a.st.n_containers == b.st.n_containers && a.st.n_array_containers == b.st.n_array_containers && a.st.n_run_containers == b.st.n_run_containers &&
                  a.st.n_bitset_containers == b.st.n_bitset_containers && a.st.n_bytes_array_containers == b.st.n_bytes_array_containers &&
                  a.st.n_bytes_run_containers == b.st.n_bytes_run_containers && a.st.n_bytes_bitset_containers == b.st.n_bytes_bitset_containers &&
                  a.st.cardinality == b.st.cardinality && a.st.min_value == b.st.min_value && a.st.max_value == b.st.max_value,
           "%s changed the statistics of its read-only operand", what);
}
struct Snap64 { std::string port; roaring64_statistics_t st; };
static Snap64 snap(const RB64 *r) {
    Snap64 s;
    s.port = bytes_of64(r);
    memset(&s.st, 0, sizeof s.st);
    roaring64_bitmap_statistics(r, &s.st);
    return s;
}
static void same(Ctx &c, const RB64 *r, const Snap64 &a, const char *what) {
    Snap64 b = snap(r);
    PCHECK(c, a.port == b.port, "%s changed the portable bytes of its read-only operand", what);
    PCHECK(c, a.st.n_containers == b.st.n_containers && a.st.n_array_containers == b.st.n_array_containers && a.st.n_run_containers == b.st.n_run_containers &&
                  a.st.n_bitset_containers == b.st.n_bitset_containers && a.st.n_bytes_array_containers == b.st.n_bytes_array_containers &&
                  a.st.n_bytes_run_containers == b.st.n_bytes_run_containers && a.st.n_bytes_bitset_containers == b.st.n_bytes_bitset_containers &&
                  a.st.cardinality == b.st.cardinality && a.st.min_value == b.st.min_value && a.st.max_value == b.st.max_value,
           "%s changed the statistics of its read-only operand", what);
}
static void both32(Ctx &c) {
    gen::Pool p = gen::pool32(c);
    u64 mode = c.t.pick({3, 4, 1});  // copy-on-write; unwritable storage; both, with operations that do not copy
    bool cow = mode != 1, seal = mode != 0;
    std::vector<RB *> keep;
    ISet ma = gen::set32(c, p), mb = gen::related(c, p, ma);
    arena::Scope ar;
    RB *a = build32(c, ma, cow, &keep), *b = build32(c, mb, cow, &keep);
    c.log("A=%s B=%s mode %llu", ma.str().c_str(), mb.str().c_str(), (unsigned long long)mode);
    if (cow) {  // sharing settles before the snapshots: a copy marks its source
        keep.push_back(roaring_bitmap_copy(a));
        keep.push_back(roaring_bitmap_copy(b));
    }
    if (seal) ar.seal(); else arena::st().open = false;
    Snap sa = snap(a), sb = snap(b);
    u32 n = 6 + (u32)c.t.draw(14);
    Pair32 ab = {a, b, ma, mb}, ba = {b, a, mb, ma}, aa = {a, a, ma, ma};
    for (u32 k = 0; k < n; k++) {
        u64 who = c.t.pick({6, 3, 1});
        std::string what = read32(c, who == 0 ? ab : who == 1 ? ba : aa, p, mode != 2, c.t.draw(2));
        PCHECK(c, !arena::st().broken, "%s %s", what.c_str(), arena::st().broken);
        same(c, a, sa, what.c_str());
        same(c, b, sb, what.c_str());
    }
    expect32(c, a, ma, "A at the end");
    expect32(c, b, mb, "B at the end");
    ar.unseal();
    Mix x = mix_of(a), y = mix_of(b);
    c.count(mode == 0 ? "copy-on-write" : mode == 1 ? "unwritable" : "copy-on-write, unwritable");
    c.nontrivial = !ISet::op(ma, mb, 0).empty() && mix_kinds({x.a + y.a, x.r + y.r, x.b + y.b}) > 1;
    for (RB *k : keep) roaring_bitmap_free(k);
    roaring_bitmap_free(a);
    roaring_bitmap_free(b);
}
static void both64(Ctx &c) {
    gen::Pool p = gen::pool64(c, 5);
    ISet ma = gen::set64(c, p), mb = gen::related64(c, p, ma);
    arena::Scope ar;
    RB64 *a = build64(c, ma), *b = build64(c, mb);
    bool fit = c.t.chance(1, 2);
    if (fit) { roaring64_bitmap_shrink_to_fit(a); roaring64_bitmap_shrink_to_fit(b); }
    c.log("A=%s B=%s", ma.str().c_str(), mb.str().c_str());
    ar.seal();
    Snap64 sa = snap(a), sb = snap(b);
    u32 n = 5 + (u32)c.t.draw(10);
    Pair64 ab = {a, b, ma, mb}, ba = {b, a, mb, ma}, aa = {a, a, ma, ma};
    for (u32 k = 0; k < n; k++) {
        u64 who = c.t.pick({6, 3, 1});
        std::string what = read64(c, who == 0 ? ab : who == 1 ? ba : aa, p, fit, c.t.draw(2));
        PCHECK(c, !arena::st().broken, "%s %s", what.c_str(), arena::st().broken);
        same(c, a, sa, what.c_str());
        same(c, b, sb, what.c_str());
    }
    expect64(c, a, ma, "A at the end");
    expect64(c, b, mb, "B at the end");
    ar.unseal();
    c.count("64-bit, unwritable");
    c.nontrivial = !ISet::op(ma, mb, 0).empty() && !ISet::op(ma, mb, 3).empty();
    roaring64_bitmap_free(a);
    roaring64_bitmap_free(b);
}

PROPERTY(C27, "every public operation with a read-only 32-bit or 64-bit bitmap operand, in a generated order with generated arguments and operand positions, each answer compared with the model, its operands compared byte for byte with snapshots taken before; in most cases the operands' storage is made unwritable, so that any store to it, even one that is undone, faults; "
              "non-trivial: operands overlapping, and of more than one container kind (32-bit) or different (64-bit)") {
    if (c.t.draw(3) < 2) both32(c); else both64(c);
}
