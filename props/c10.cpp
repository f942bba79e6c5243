#include "mach32.h"
#include "iter32.h"

PROPERTY(C10, "a family of 2-5 copy-on-write bitmaps goes through 5-60 generated copies, assignments, combinations, mutations, reads and frees; every member is compared with its own model; "
              "one history in six runs with copy-on-write off and must answer alike; non-trivial: copy-on-write on, at least 2 copies/combinations and at least 3 mutations that changed a set") {
    Mach32 m(c);
    m.pool = gen::pool32(c, 3);
    m.cow = !c.t.chance(1, 6);
    m.start(1 + c.t.draw(3));
    Mach32::Weights w = Mach32::everything();
    w[Mach32::COPY] = 14;
    w[Mach32::OVERWRITE] = 6;
    w[Mach32::FREE] = 4;
    w[Mach32::REMMANY] = 5;
    u32 n = 5 + (u32)c.t.draw(c.thorough ? 120 : 55);
    u64 copies = 0;
    for (u32 k = 0; k < n; k++) {
        size_t before = m.s.size();
        m.step(w);
        copies += m.last == "copy" || m.last == "overwrite" || m.s.size() > before;
        m.check_touched();
        // reads on a sharing bitmap must not disturb the others
        if (c.t.chance(1, 4) && !m.s.empty()) {
            auto &x = m.s[c.t.draw(m.s.size())];
            switch (c.t.draw(6)) {
                case 0: expect_valid(c, x.r, "sharing bitmap"); break;
                case 1: { std::string b = bytes_of(x.r); ISet d; size_t u; PCHECK(c, fmt::decode32((const u8 *)b.data(), b.size(), &d, &u).empty() && d == x.m, "serialised sharing bitmap denotes another set"); break; }
                case 2: {
                    u64 card = x.m.card();
                    u64 off = card ? c.t.draw(card) : 0, lim = std::min<u64>(card - off, 1 + c.t.draw(2000));
                    std::vector<u32> a(lim + 1);
                    roaring_bitmap_range_uint32_array(x.r, off, lim, a.data());
                    u64 e;
                    if (lim && x.m.select(off, &e)) PCHECK(c, a[0] == e, "range_uint32_array on a sharing bitmap");
                    break;
                }
                case 3: {
                    Iter32 it(c, x.r, x.m, m.pool);
                    for (int q = 0; q < 6; q++) it.step();
                    it.done();
                    break;
                }
                case 4: {
                    std::string b(roaring_bitmap_frozen_size_in_bytes(x.r) + 64, '\0');
                    char *al = (char *)(((uintptr_t)&b[0] + 31) & ~(uintptr_t)31);
                    size_t fs = roaring_bitmap_frozen_size_in_bytes(x.r);
                    roaring_bitmap_frozen_serialize(x.r, al);
                    const RB *v = roaring_bitmap_frozen_view(al, fs);
                    PCHECK(c, v, "frozen_view of a sharing bitmap");
                    expect32(c, v, x.m, "frozen view of a sharing bitmap");
                    roaring_bitmap_free(v);
                    break;
                }
                default: {
                    auto &y = m.s[c.t.draw(m.s.size())];
                    PCHECK(c, roaring_bitmap_equals(x.r, y.r) == (x.m == y.m), "equals among sharing bitmaps");
                    PCHECK(c, roaring_bitmap_and_cardinality(x.r, y.r) == ISet::op(x.m, y.m, 0).card(), "and_cardinality among sharing bitmaps");
                }
            }
        }
        if (c.t.chance(1, 4)) m.check_all("family member");
    }
    m.check_all("family member at the end");
    // freeing in a generated order keeps the survivors intact
    while (m.s.size() > 1) {
        size_t i = c.t.draw(m.s.size());
        roaring_bitmap_free(m.s[i].r);
        m.s.erase(m.s.begin() + i);
        m.check_all("survivor");
    }
    c.count("copies_or_new", copies);
    c.count("changes", m.changed);
    c.nontrivial = m.cow && copies >= 2 && m.changed >= 3;
    m.finish();
}
