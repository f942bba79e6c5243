// A walk of a 64-bit iterator next to a cursor over the model.
#pragma once
#include "kit64.h"

struct Iter64 {
    Ctx &c;
    const RB64 *r;
    const ISet &m;
    const gen::Pool &p;
    roaring64_iterator_t *it;
    int state = 0;  // 0 on a value, 1 past the end, -1 before the start
    u64 x = 0;
    bool turns = false;
    u32 used = 0;
    int dir = 0;
    Iter64(Ctx &c_, const RB64 *r_, const ISet &m_, const gen::Pool &p_) : c(c_), r(r_), m(m_), p(p_) {
        if (c.t.draw(2)) {
            it = roaring64_iterator_create_last(r);
            last();
        } else {
            it = roaring64_iterator_create(r);
            first();
        }
        PCHECK(c, it, "iterator_create");
        same("create");
    }
    void done() { roaring64_iterator_free(it); }
    u32 kinds() const { return (u32)__builtin_popcount(used); }
    void first() { if (m.empty()) state = 1; else state = 0, x = m.min(); }
    void last() { if (m.empty()) state = -1; else state = 0, x = m.max(); }
    void same(const char *what) {
        PCHECK(c, roaring64_iterator_has_value(it) == (state == 0), "%s: has_value should be %d (model at %llu)", what, state == 0, (unsigned long long)x);
        if (state == 0) PCHECK(c, roaring64_iterator_value(it) == x, "%s: stands on %llu, expected %llu", what, (unsigned long long)roaring64_iterator_value(it), (unsigned long long)x);
    }
    void go(int d) { if (dir && d && d != dir) turns = true; if (d) dir = d; }
    void moved(u64 to) { if ((to >> 16) != (x >> 16)) turns = true; x = to; }
    bool m_next() {
        if (state == 0) {
            u64 y;
            if (x < MAX64 && m.next(x + 1, &y)) { moved(y); return true; }
            state = 1;
            return false;
        }
        if (state == -1 && !m.empty()) { state = 0; x = m.min(); return true; }
        state = 1;
        return false;
    }
    bool m_prev() {
        if (state == 0) {
            u64 y;
            if (x > 0 && m.prev(x - 1, &y)) { moved(y); return true; }
            state = -1;
            return false;
        }
        if (state == 1 && !m.empty()) { state = 0; x = m.max(); return true; }
        state = -1;
        return false;
    }
    void step() {
        switch (c.t.pick({6, 6, 5, 6, 1, 1, 1})) {
            case 0: {
                if (state == 1 || (state == -1 && m.empty())) break;
                bool e = m_next(), g = roaring64_iterator_advance(it);
                c.log("advance");
                PCHECK(c, e == g, "advance should return %d", e);
                if (e) used |= 1, go(1);
                same("advance");
                break;
            }
            case 1: {
                if (state == -1 || (state == 1 && m.empty())) break;
                bool e = m_prev(), g = roaring64_iterator_previous(it);
                c.log("previous");
                PCHECK(c, e == g, "previous should return %d", e);
                if (e) used |= 2, go(-1);
                same("previous");
                break;
            }
            case 2: {
                u64 v = gen::near(c, m, p, MAX64);
                if (state == 0 && v < x) {  // seeking is forward only
                    u64 d = x - v;
                    v = c.t.draw(3) == 0 ? x : d > MAX64 - x ? MAX64 : x + d;
                }
                if (state == 1 && !m.empty() && v <= m.max()) break;
                u64 y;
                bool e = m.next(v, &y), g = roaring64_iterator_move_equalorlarger(it, v);
                c.log("seek %llu", (unsigned long long)v);
                PCHECK(c, e == g, "move_equalorlarger(%llu) should return %d", (unsigned long long)v, e);
                if (e) { used |= 4; state = 0; moved(y); } else state = 1;
                same("move_equalorlarger");
                break;
            }
            case 3: {
                u32 n = c.t.chance(1, 4) ? (u32)c.t.draw(70000) : c.t.chance(1, 3) ? (u32)c.t.draw(500) : (u32)c.t.draw(10);
                c.log("read %u", n);
                if (state != 0) {
                    u64 buf[4] = {7, 7, 7, 7};
                    PCHECK(c, roaring64_iterator_read(it, buf, n > 4 ? 4 : n) == 0, "read without a current value should return 0");
                    same("read at an end");
                    break;
                }
                u64 count = n, room = n;
                if (c.t.chance(1, 12)) {  // a count far beyond what is left; there is room for what is left
                    u64 left = m.card() - (m.rank(x) - 1);
                    if (left < 300000) {
                        static const u64 N[] = {0xffffffffu, 1ull << 32, (1ull << 32) + 1, 0x80000000u, 0x7fffffffu, (1ull << 40) + 3, 1ull << 33};
                        count = N[c.t.draw(7)];
                        room = left;
                        c.count("huge_reads");
                    }
                }
                std::unique_ptr<u64[]> buf(new u64[room + 1]);
                buf[room] = 0x77777777;
                u64 got = roaring64_iterator_read(it, buf.get(), count);
                u64 k = 0;
                while (k < count && state == 0) {
                    PCHECK(c, k < got && buf[k] == x, "read: value #%llu is %llu, expected %llu (count %llu returned %llu)", (unsigned long long)k, k < got ? (unsigned long long)buf[k] : 0, (unsigned long long)x, (unsigned long long)count, (unsigned long long)got);
                    k++;
                    m_next();
                }
                PCHECK(c, got == k, "read returned %llu, expected %llu", (unsigned long long)got, (unsigned long long)k);
                PCHECK(c, buf[room] == 0x77777777, "read wrote past its buffer");
                if (k) used |= 8, go(1);
                same("read");
                break;
            }
            case 4: {
                roaring64_iterator_t *q = roaring64_iterator_copy(it);
                PCHECK(c, q, "copy");
                c.log("copy");
                if (c.t.draw(2)) std::swap(q, it);
                roaring64_iterator_free(q);
                used |= 16;
                same("copy");
                break;
            }
            case 5: c.log("reinit"); roaring64_iterator_reinit(r, it); first(); used |= 32; same("reinit"); break;
            default: c.log("reinit_last"); roaring64_iterator_reinit_last(r, it); last(); used |= 64; same("reinit_last");
        }
    }
};
struct Walk64 { Ctx *c; const ISet *m; size_t iv; u64 x, n, stop; bool more; };
inline bool walk_cb64(u64 v, void *p) {
    Walk64 *s = (Walk64 *)p;
    Ctx &c = *s->c;
    PCHECK(c, s->more, "callback called after it asked to stop");
    PCHECK(c, s->iv < s->m->v.size() && v == s->x, "callback #%llu got %llu", (unsigned long long)s->n, (unsigned long long)v);
    if (s->x == s->m->v[s->iv].hi) { s->iv++; s->x = s->iv < s->m->v.size() ? s->m->v[s->iv].lo : 0; } else s->x++;
    s->n++;
    s->more = s->n < s->stop;
    return s->more;
}
inline void walk64(Ctx &c, const RB64 *r, const ISet &m) {
    u64 card = m.card();
    Walk64 s = {&c, &m, 0, m.empty() ? 0 : m.min(), 0, UINT64_MAX, true};
    if (c.t.chance(1, 2)) s.stop = 1 + c.t.draw(card + 2);
    bool full = s.stop > card;
    bool ret = roaring64_bitmap_iterate(r, walk_cb64, &s);
    PCHECK(c, s.n == std::min(card, s.stop), "callback traversal visited %llu values of %llu (stop %llu)", (unsigned long long)s.n, (unsigned long long)card, (unsigned long long)s.stop);
    PCHECK(c, ret == full, "callback traversal should return %d", full);
}
