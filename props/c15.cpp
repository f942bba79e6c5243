#include "mach64.h"
#include "iter64.h"

PROPERTY(C15, "an iterator over a generated 64-bit bitmap (sometimes after generated mutations) makes 10-80 generated moves (advance, previous, forward seek, block read, copy, re-init at either end) next to a cursor over the model; "
              "callback traversal with generated stops and array export follow; non-trivial: at least 3 kinds of moves succeeded, the position crossed a chunk border or changed direction") {
    c.wide = true;
    Mach64 mm(c);
    mm.pool = gen::pool64(c, 8);
    mm.start(1);
    mm.max_slots = 1;
    if (c.t.chance(1, 3)) {
        Mach64::Weights w = Mach64::mutators();
        for (u32 k = 0, n = (u32)c.t.draw(8); k < n; k++) mm.step(w);
    }
    const RB64 *r = mm.s[0].r;
    const ISet m = mm.s[0].m;
    c.log("B=%s", m.str().c_str());
    Iter64 it(c, r, m, mm.pool);
    u32 n = 10 + (u32)c.t.draw(c.thorough ? 200 : 70);
    for (u32 i = 0; i < n; i++) it.step();
    it.done();
    c.count("iterator_moves", n);
    if (m.card() <= 400000) {
        walk64(c, r, m);
        walk64(c, r, m);
        std::unique_ptr<u64[]> a(new u64[m.card() + 1]);
        a[m.card()] = 0x77777777;
        roaring64_bitmap_to_uint64_array(r, a.get());
        size_t i = 0;
        for (auto &iv : m.v)
            for (u64 x = iv.lo;; x++) {
                PCHECK(c, a[i] == x, "to_uint64_array[%zu]", i);
                i++;
                if (x == iv.hi) break;
            }
        PCHECK(c, a[i] == 0x77777777, "to_uint64_array wrote too much");
    }
    expect64(c, r, m, "after iteration");
    c.nontrivial = it.kinds() >= 3 && it.turns;
    mm.finish();
}
