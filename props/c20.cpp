#include "cpp64.h"

PROPERTY(C20, "up to 4 C++ Roaring64Map objects undergo 5-50 generated constructions, copies, (self-)assignments, moves, swaps, mutations, operators, reads and writes, with empty buckets put in by streams and empty ranges; queries and iterators are compared with set models along the way; "
              "one history in 200 works on ranges of more than a whole 2^32 bucket; non-trivial: at least 3 steps changed a set, and the sets span at least 2 buckets or an empty bucket was made") {
    Mach20 m(c);
    m.pool = gen::pool64(c, 6);
    m.cow = c.t.chance(1, 3);
    m.wide = c.t.chance(1, 200);
    m.start(1 + c.t.draw(m.wide ? 2 : 3));
    u32 n = m.wide ? 3 + (u32)c.t.draw(4) : 5 + (u32)c.t.draw(c.thorough ? 90 : 45);
    bool each = c.t.chance(2, 3);
    size_t buckets = 0;
    for (u32 k = 0; k < n; k++) {
        m.step();
        if (each && m.touched >= 0) expect_map(c, *m.s[m.touched].r, m.s[m.touched].m, m.last.c_str());
        if (c.t.chance(1, 5)) m.ask();
        if (c.t.chance(1, 6)) m.walk();
        if (k % 8 == 0 && m.touched >= 0) buckets = std::max(buckets, fmt::split64(m.s[m.touched].m).size());
    }
    m.check_all("at the end");
    m.ask();
    m.walk();
    c.count("steps", m.steps);
    c.count("empty_buckets_made", m.holes);
    c.count("operations_of_a_map_on_itself", m.self_ops);
    c.count("wide_histories", m.wide);
    c.nontrivial = m.changed >= 3 && (buckets >= 2 || m.holes);
}
