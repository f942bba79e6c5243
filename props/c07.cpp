#include "mach32.h"
#include "guard.h"

PROPERTY(C07, "a generated bitmap, after a short generated history, is written in the native format into an exact guarded buffer and read by both readers; prefixes are offered to the bounded reader; "
              "non-trivial: the bitmap is non-empty (both layouts, value list and container form, are counted)") {
    c.wide = true;
    gen::Pool p = gen::pool32(c, 5);
    ISet m;
    switch (c.t.draw(4)) {
        case 0: {  // sparse: the value-list layout pays off
            Rng r(c.t.seed());
            u32 n = (u32)c.t.draw(60);
            for (u32 i = 0; i < n; i++) m.add(r.below(1ull << 32));
            if (c.t.chance(1, 4)) m.add(MAX32);
            break;
        }
        default: m = gen::set32(c, p);
    }
    bool cow = c.t.chance(1, 6);
    std::vector<RB *> keep;
    RB *r = build32(c, m, cow, &keep);
    c.log("B=%s", m.str().c_str());
    size_t sz = roaring_bitmap_size_in_bytes(r);
    Guard g(sz);
    size_t wr = roaring_bitmap_serialize(r, g.p);
    PCHECK(c, wr == sz, "serialize wrote %zu, announced %zu", wr, sz);
    g.readonly();
    c.count(g.p[0] == 1 ? "value_list_layout" : "container_layout");
    RB *a = roaring_bitmap_deserialize_safe(g.p, sz);
    PCHECK(c, a, "deserialize_safe rejects its own stream of %s", m.str().c_str());
    expect32(c, a, m, "deserialize_safe");
    expect_valid(c, a, "deserialize_safe");
    PCHECK(c, roaring_bitmap_equals(a, r), "deserialize_safe: not equal");
    RB *b = roaring_bitmap_deserialize(g.p);
    PCHECK(c, b, "deserialize rejects its own stream");
    expect32(c, b, m, "deserialize");
    PCHECK(c, roaring_bitmap_equals(b, a), "the readers differ");
    u32 x = (u32)gen::near(c, m, p, MAX32);
    bool had = m.contains(x);
    PCHECK(c, roaring_bitmap_add_checked(b, x) == !had && roaring_bitmap_remove_checked(b, x), "changing what was read");
    roaring_bitmap_free(a);
    roaring_bitmap_free(b);
    std::vector<size_t> v;
    if (sz <= 100) for (size_t i = 0; i < sz; i++) v.push_back(i);
    else {
        for (size_t i = 0; i < 24; i++) v.push_back(i);
        for (size_t i = 1; i <= 16; i++) v.push_back(sz - i);
        Rng rg(c.t.seed());
        for (int i = 0; i < 12; i++) v.push_back(rg.below(sz));
    }
    for (size_t k : v) {
        Guard h(k);
        memcpy(h.p, g.p, k);
        RB *q = roaring_bitmap_deserialize_safe(h.p, k);
        PCHECK(c, !q, "a %zu-byte prefix of %zu native bytes is accepted", k, sz);
        c.count("prefixes");
    }
    {  // more room than needed is fine
        std::vector<char> z(g.p, g.p + sz);
        z.resize(sz + 9, 0x5a);
        RB *q = roaring_bitmap_deserialize_safe(z.data(), z.size());
        PCHECK(c, q, "deserialize_safe with room to spare");
        expect32(c, q, m, "deserialize_safe with room to spare");
        roaring_bitmap_free(q);
    }
    expect32(c, r, m, "the source afterwards");
    c.nontrivial = !m.empty();
    for (RB *k : keep) roaring_bitmap_free(k);
    roaring_bitmap_free(r);
}
