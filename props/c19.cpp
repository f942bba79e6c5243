#include "cpp32.h"

PROPERTY(C19, "up to 4 C++ Roaring objects undergo 5-50 generated constructions, copies, (self-)assignments, moves, swaps, mutations, operators, reads and writes; after every step the touched object, and at the end all, are compared with set models through queries and iterators of the class; "
              "non-trivial: at least 3 steps changed a set and at least 2 were copies, moves, assignments or swaps") {
    Mach19 m(c);
    m.pool = gen::pool32(c);
    m.cow = c.t.chance(1, 3);
    m.start(1 + c.t.draw(3));
    u32 n = 5 + (u32)c.t.draw(c.thorough ? 90 : 45);
    bool each = c.t.chance(2, 3);
    for (u32 k = 0; k < n; k++) {
        m.step();
        if (each && m.touched >= 0) expect32(c, &m.s[m.touched].r->roaring, m.s[m.touched].m, m.last.c_str());
        if (c.t.chance(1, 5)) m.ask();
        if (c.t.chance(1, 8)) m.walk();
    }
    m.check_all("at the end");
    for (auto &x : m.s) expect_valid(c, &x.r->roaring, "at the end");
    c.count("steps", m.steps);
    c.nontrivial = m.changed >= 3 && m.value_ops >= 2;
}
