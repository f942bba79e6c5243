#include "mach32.h"

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
// the ways to list values, and a bitmap in the caller's own memory
static void listed(Ctx &c, const gen::Pool &p) {
    u32 v[5];
    ISet m, none;
    for (u32 &x : v) { x = (u32)gen::near(c, none, p, MAX32); m.add(x, x); }
    u32 n = (u32)c.t.draw(6);
    c.log("listed %u %u %u %u %u n=%u", v[0], v[1], v[2], v[3], v[4], n);
    RB *a = roaring_bitmap_of(5, v[0], v[1], v[2], v[3], v[4]);
    RB *b = roaring_bitmap_from(v[0], v[1], v[2], v[3], v[4]);
    PCHECK(c, a && b, "constructors failed");
    expect32(c, a, m, "roaring_bitmap_of");
    expect32(c, b, m, "roaring_bitmap_from");
    RB own;
    memset(&own, 0x5a, sizeof own);
    if (c.t.chance(1, 2)) roaring_bitmap_init_cleared(&own);
    else PCHECK(c, roaring_bitmap_init_with_capacity(&own, (u32)c.t.draw(9)), "init_with_capacity failed");
    expect32(c, &own, none, "a bitmap in the caller's memory");
    roaring_bitmap_add_many(&own, n > 5 ? 5 : n, v);
    ISet q;
    for (u32 i = 0; i < n && i < 5; i++) q.add(v[i], v[i]);
    expect32(c, &own, q, "a bitmap in the caller's memory, after additions");
    PCHECK(c, roaring_bitmap_overwrite(&own, a), "overwrite failed");
    expect32(c, &own, m, "a bitmap in the caller's memory, overwritten");
    roaring_bitmap_clear(&own);
    expect32(c, &own, none, "a bitmap in the caller's memory, cleared");
    roaring_bitmap_clear(&own);
    roaring_bitmap_free(a);
    roaring_bitmap_free(b);
}

PROPERTY(C01, "a generated 32-bit bitmap (chunk shapes x build routes) undergoes 3-45 generated mutations, compared with a set model after every step; "
              "non-trivial: at least 3 mutations changed the set and the bitmap's mix of array/run/bitset containers changed on the way") {
    c.wide = true;
    Mach32 m(c);
    m.pool = gen::pool32(c);
    m.cow = c.t.chance(1, 6);
    m.start(1 + c.t.draw(2));
    m.max_slots = 2;
    if (c.t.chance(1, 25)) m.wide = 2;
    Mach32::Weights w = Mach32::mutators();
    if (c.t.chance(1, 5)) w[Mach32::FLIP] = 4;
    u32 n = 3 + (u32)c.t.draw(c.thorough ? 80 : 43);
    bool full_each = c.t.chance(2, 3);
    Mix mix0 = mix_of(m.s[0].r);
    bool mixchg = false;
    for (u32 k = 0; k < n; k++) {
        m.step(w);
        if (full_each) m.check_touched();
        if (!mixchg) mixchg = !mix_same(mix0, mix_of(m.s[0].r));
    }
    if (c.t.chance(1, 3)) listed(c, m.pool);
    m.check_all("at the end");
    c.count("steps", m.steps);
    c.count("steps_that_changed_the_set", m.changed);
    c.nontrivial = m.changed >= 3 && mixchg;
    m.finish();
}
