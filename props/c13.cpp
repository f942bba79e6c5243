#include "mach64.h"

// the ways to list values
typedef unsigned long long ull;
static void listed(Ctx &c, const gen::Pool &p) {
    u64 v[5];
    ISet m, none;
    for (u64 &x : v) { x = gen::near(c, none, p, UINT64_MAX); m.add(x, x); }
    c.log("listed %llu %llu %llu %llu %llu", (ull)v[0], (ull)v[1], (ull)v[2], (ull)v[3], (ull)v[4]);
    RB64 *a = roaring64_bitmap_from(v[0], v[1], v[2], v[3], v[4]), *b = roaring64_bitmap_of_ptr(5, v);
    PCHECK(c, a && b, "constructors failed");
    expect64(c, a, m, "roaring64_bitmap_from");
    expect64(c, b, m, "roaring64_bitmap_of_ptr");
    roaring64_bitmap_free(a);
    roaring64_bitmap_free(b);
}

PROPERTY(C13, "generated 64-bit bitmaps (48-bit keys with shared prefixes, wide fan-outs, domain edges) undergo 3-45 generated mutations, moves from 32-bit bitmaps and copies, compared with a set model and the validity check after every step; "
              "non-trivial: at least 3 mutations changed the set and at least 2 different chunk keys were in use") {
    c.wide = true;
    Mach64 m(c);
    m.pool = gen::pool64(c);
    m.start(1 + c.t.draw(2));
    m.max_slots = 2;
    Mach64::Weights w = Mach64::mutators();
    u32 n = 3 + (u32)c.t.draw(c.thorough ? 80 : 43);
    bool each = c.t.chance(2, 3);
    for (u32 k = 0; k < n; k++) {
        m.step(w);
        if (each) m.check_touched();
    }
    if (c.t.chance(1, 3)) listed(c, m.pool);
    m.check_all("at the end");
    c.count("steps", m.steps);
    c.count("steps_that_changed_the_set", m.changed);
    c.nontrivial = m.changed >= 3 && m.pool.keys.size() >= 2;
    m.finish();
}
