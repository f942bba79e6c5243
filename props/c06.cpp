#include "mach32.h"
#include "guard.h"

static std::vector<size_t> cuts(Ctx &c, size_t len) {  // strict prefixes to try
    std::vector<size_t> v;
    if (len <= 120) { for (size_t i = 0; i < len; i++) v.push_back(i); return v; }
    for (size_t i = 0; i < 40; i++) v.push_back(i);
    for (size_t i = 1; i <= 20; i++) v.push_back(len - i);
    Rng r(c.t.seed());
    for (int i = 0; i < 20; i++) v.push_back(r.below(len));
    return v;
}
static void reads_as(Ctx &c, const char *buf, size_t len, const ISet &m, const char *what) {
    // exact buffer against a guard page: reading one byte too many faults
    Guard g(len);
    memcpy(g.p, buf, len);
    g.readonly();
    size_t ds = roaring_bitmap_portable_deserialize_size(g.p, len);
    PCHECK(c, ds == len, "%s: deserialize_size %zu, expected %zu", what, ds, len);
    RB *r = roaring_bitmap_portable_deserialize_safe(g.p, len);
    PCHECK(c, r, "%s: deserialize_safe rejects a valid stream of %s", what, m.str().c_str());
    expect32(c, r, m, what);
    expect_valid(c, r, what);
    RB *u = roaring_bitmap_portable_deserialize(g.p);
    PCHECK(c, u, "%s: deserialize rejects a valid stream", what);
    PCHECK(c, roaring_bitmap_equals(r, u), "%s: the two readers differ", what);
    expect32(c, u, m, what);
    // a reader's bitmap is an ordinary bitmap
    u32 x = m.empty() ? 5 : (u32)m.max();
    bool had = m.contains(x);
    PCHECK(c, roaring_bitmap_remove_checked(u, x) == had && roaring_bitmap_add_checked(u, x), "%s: changing what was read", what);
    roaring_bitmap_free(u);
    roaring_bitmap_free(r);
}

PROPERTY(C06, "a generated bitmap (any container mix, 0 to hundreds of chunks) is serialised, decoded by an independent reader of the specification and read back; the independent writer's streams "
              "(any legal container choice) are read; sizes are recomputed from the bytes, prefixes and trailing bytes are tried; non-trivial: at least 2 chunks or 2 container kinds in the stream") {
    c.wide = true;
    gen::Pool p = gen::pool32(c, 7);
    ISet m = gen::set32(c, p);
    bool cow = c.t.chance(1, 6);
    std::vector<RB *> keep;
    RB *r = build32(c, m, cow, &keep);
    if (c.t.chance(1, 2)) {  // some history first
        Mach32 mm(c);
        mm.pool = p;
        mm.cow = cow;
        mm.s.push_back({r, m});
        mm.max_slots = 1;
        Mach32::Weights w = Mach32::mutators();
        w[Mach32::OVERWRITE] = 0;
        for (u32 k = 0, n = (u32)c.t.draw(8); k < n; k++) mm.step(w);
        m = mm.s[0].m;
        mm.s.clear();
    }
    c.log("B=%s", m.str().c_str());
    size_t sz = roaring_bitmap_portable_size_in_bytes(r);
    Guard g(sz);
    size_t wr = roaring_bitmap_portable_serialize(r, g.p);
    PCHECK(c, wr == sz, "portable_serialize wrote %zu, announced %zu", wr, sz);
    ISet d;
    size_t used = 0;
    std::string err = fmt::decode32((const u8 *)g.p, sz, &d, &used);
    PCHECK(c, err.empty(), "the stream breaks the specification: %s (set %s)", err.c_str(), m.str().c_str());
    PCHECK(c, used == sz, "the stream has %zu bytes, the specification needs %zu", sz, used);
    PCHECK(c, d == m, "the stream denotes %s, expected %s", d.str().c_str(), m.str().c_str());
    reads_as(c, g.p, sz, m, "own stream");
    {
        RB *q = roaring_bitmap_portable_deserialize_safe(g.p, sz);
        PCHECK(c, q && roaring_bitmap_equals(q, r), "round trip not equal");
        roaring_bitmap_free(q);
    }
    for (size_t k : cuts(c, sz)) {
        Guard h(k);
        memcpy(h.p, g.p, k);
        size_t ds = roaring_bitmap_portable_deserialize_size(h.p, k);
        PCHECK(c, ds == 0, "deserialize_size of a %zu-byte prefix of %zu bytes is %zu", k, sz, ds);
        RB *q = roaring_bitmap_portable_deserialize_safe(h.p, k);
        PCHECK(c, !q, "a %zu-byte prefix of %zu bytes is accepted", k, sz);
        c.count("prefixes");
    }
    // an independent writer
    int kinds = 0;
    for (int rep = 0; rep < 2; rep++) {
        KindPolicy pol{(int)c.t.draw(4), 0};
        if (m.card() > (1u << 25)) pol.mode |= 1;
        if (pol.mode == 2) pol.seed = c.t.seed();
        bool flags = c.t.chance(1, 6);  // a run cookie whose flags may all be clear
        fmt::Bytes b = fmt::encode32(m, pol, &kinds, flags);
        reads_as(c, (const char *)b.data(), b.size(), m, "independent stream");
        if (c.t.chance(1, 3)) {  // self-delimiting: what follows is not looked at
            size_t n = b.size();
            Rng rg(c.t.seed());
            for (int k = 0; k < 40; k++) b.push_back((u8)rg.next());
            PCHECK(c, roaring_bitmap_portable_deserialize_size((const char *)b.data(), b.size()) == n, "deserialize_size with trailing bytes");
            RB *q = roaring_bitmap_portable_deserialize_safe((const char *)b.data(), b.size());
            PCHECK(c, q, "stream with trailing bytes rejected");
            expect32(c, q, m, "stream with trailing bytes");
            // writing it again gives the specification's bytes for its own layout
            std::string out = bytes_of(q);
            if (!flags) PCHECK(c, out.size() == n && !memcmp(out.data(), b.data(), n), "re-serialising an unmodified reading gives other bytes");
            roaring_bitmap_free(q);
        }
        c.count("independent_streams");
    }
    Mix x = mix_of(r);
    c.nontrivial = x.a + x.r + x.b >= 2 || mix_kinds(x) > 1 || __builtin_popcount(kinds) > 1;
    for (RB *k : keep) roaring_bitmap_free(k);
    roaring_bitmap_free(r);
}
