#include "mach32.h"
#include "iter32.h"

struct CbState { Ctx *c; const ISet *m; size_t iv; u64 x; u64 n, stop; u64 base; bool more; };
static void cb_step(CbState *s, u64 v) {
    Ctx &c = *s->c;
    PCHECK(c, s->more, "callback called after it asked to stop");
    PCHECK(c, s->iv < s->m->v.size() && v == s->base + s->x, "callback #%llu got %llu", (unsigned long long)s->n, (unsigned long long)v);
    if (s->x == s->m->v[s->iv].hi) { s->iv++; s->x = s->iv < s->m->v.size() ? s->m->v[s->iv].lo : 0; } else s->x++;
    s->n++;
    s->more = s->n < s->stop;
}
static bool cb32(u32 v, void *p) { cb_step((CbState *)p, v); return ((CbState *)p)->more; }
static bool cb64(u64 v, void *p) { cb_step((CbState *)p, v); return ((CbState *)p)->more; }

PROPERTY(C05, "an iterator over a generated 32-bit bitmap makes 10-80 generated moves (advance, previous, seek, block read, copy, re-init) next to a cursor over the model; "
              "non-trivial: at least 3 kinds of moves succeeded, the position crossed a chunk border or changed direction") {
    c.wide = true;
    gen::Pool p = gen::pool32(c);
    bool cow = c.t.chance(1, 6);
    std::vector<RB *> keep;
    ISet m = gen::set32(c, p);
    RB *r = build32(c, m, cow, &keep);
    c.log("B=%s", m.str().c_str());
    Iter32 it(c, r, m, p);
    u32 n = 10 + (u32)c.t.draw(70);
    for (u32 i = 0; i < n; i++) it.step();
    it.done();
    c.count("iterator_moves", n);
    u64 card = m.card();
    if (card <= 400000) {
        for (int w = 0; w < 2; w++) {
            CbState s = {&c, &m, 0, m.empty() ? 0 : m.min(), 0, UINT64_MAX, 0, true};
            if (c.t.chance(1, 2)) s.stop = 1 + c.t.draw(card + 2);
            bool full = s.stop > card;
            bool ret;
            if (w == 0) ret = roaring_iterate(r, cb32, &s);
            else {
                s.base = c.t.chance(1, 2) ? c.t.draw(0) & 0xffffffff00000000ull : 0;
                ret = roaring_iterate64(r, cb64, s.base, &s);
            }
            PCHECK(c, s.n == std::min(card, s.stop), "callback traversal visited %llu values of %llu (stop %llu)", (unsigned long long)s.n, (unsigned long long)card, (unsigned long long)s.stop);
            // stopping exactly at the last value is still a stop
            PCHECK(c, ret == full, "callback traversal should return %d", full);
        }
    }
    expect32(c, r, m, "after iteration");
    c.nontrivial = it.kinds() >= 3 && it.turns;
    for (RB *k : keep) roaring_bitmap_free(k);
    roaring_bitmap_free(r);
}
