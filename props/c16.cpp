#include "mach64.h"
#include "queries64.h"

PROPERTY(C16, "20-80 generated queries per generated 64-bit bitmap (sometimes after generated mutations), arguments drawn next to interval, chunk and tree-path edges up to 2^64-1, against the sorted model; "
              "non-trivial: the bitmap is non-empty and at least one query fell before, one inside and one beyond the stored values") {
    c.wide = true;
    Mach64 mm(c);
    mm.pool = gen::pool64(c, 8);
    mm.start(1);
    mm.max_slots = 1;
    if (c.t.chance(1, 3)) {
        Mach64::Weights w = Mach64::mutators();
        for (u32 k = 0, n = (u32)c.t.draw(8); k < n; k++) mm.step(w);
    }
    const ISet m = mm.s[0].m;
    c.log("B=%s", m.str().c_str());
    Queries64 q(c, mm.s[0].r, m, mm.pool);
    u32 n = 20 + (u32)c.t.draw(60);
    for (u32 i = 0; i < n; i++) q.one();
    expect64(c, mm.s[0].r, m, "after the queries");
    c.count("queries", n);
    c.nontrivial = !m.empty() && q.inside && q.before && q.beyond;
    mm.finish();
}
