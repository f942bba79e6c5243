// A walk of a 32-bit iterator next to a cursor over the model.
#pragma once
#include "kit32.h"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

struct Iter32 {
    Ctx &c;
    const RB *r;
    const ISet &m;
    const gen::Pool &p;
    roaring_uint32_iterator_t *it;
    // model position: state 0 on a value, 1 past the end, -1 before the start
    int state = 0;
    u64 x = 0;
    bool turns = false;
    u32 used = 0;
    int dir = 0;
    Iter32(Ctx &c_, const RB *r_, const ISet &m_, const gen::Pool &p_) : c(c_), r(r_), m(m_), p(p_) {
        it = c.t.chance(1, 4) ? roaring_create_iterator(r) : roaring_iterator_create(r);
        PCHECK(c, it, "iterator_create");
        first();
        same("create");
    }
    u32 nth = 0;
    // the deprecated names stay valid: use them on some moves
    bool old() { return (nth++ & 7) == 5; }
    void done() { roaring_uint32_iterator_free(it); }
    u32 kinds() const { return (u32)__builtin_popcount(used); }
    void first() { if (m.empty()) state = 1; else state = 0, x = m.min(); }
    void last() { if (m.empty()) state = -1; else state = 0, x = m.max(); }
    void same(const char *what) {
        PCHECK(c, it->has_value == (state == 0), "%s: has_value should be %d (model at %llu)", what, state == 0, (unsigned long long)x);
        if (state == 0) PCHECK(c, it->current_value == x, "%s: stands on %u, expected %llu", what, it->current_value, (unsigned long long)x);
    }
    void go(int d) { if (dir && d && d != dir) turns = true; if (d) dir = d; }
    void moved(u64 to) { if ((to >> 16) != (x >> 16)) turns = true; x = to; }
    bool m_next() {
        if (state == 0) {
            u64 y;
            if (x < MAX32 && m.next(x + 1, &y)) { moved(y); return true; }
            state = 1;
            return false;
        }
        if (state == -1 && !m.empty()) { state = 0; x = m.min(); return true; }
        state = 1;
        return false;
    }
    bool m_prev() {
        if (state == 0) {
            u64 y;
            if (x > 0 && m.prev(x - 1, &y)) { moved(y); return true; }
            state = -1;
            return false;
        }
        if (state == 1 && !m.empty()) { state = 0; x = m.max(); return true; }
        state = -1;
        return false;
    }
    void step() {
        switch (c.t.pick({6, 6, 5, 6, 1, 1, 1})) {
            case 0: {
                if (state == 1) break;  // documented: no further calls after false
                bool e = m_next(), g = old() ? roaring_advance_uint32_iterator(it) : roaring_uint32_iterator_advance(it);
                c.log("advance");
                PCHECK(c, e == g, "advance should return %d", e);
                if (e) used |= 1, go(1);
                same("advance");
                break;
            }
            case 1: {
                if (state == -1) break;
                bool e = m_prev(), g = old() ? roaring_previous_uint32_iterator(it) : roaring_uint32_iterator_previous(it);
                c.log("previous");
                PCHECK(c, e == g, "previous should return %d", e);
                if (e) used |= 2, go(-1);
                same("previous");
                break;
            }
            case 2: {
                u32 v = (u32)gen::near(c, m, p, MAX32);
                u64 y;
                bool e = m.next(v, &y), g = old() ? roaring_move_uint32_iterator_equalorlarger(it, v) : roaring_uint32_iterator_move_equalorlarger(it, v);
                c.log("seek %u", v);
                PCHECK(c, e == g, "move_equalorlarger(%u) should return %d", v, e);
                if (e) { used |= 4; state = 0; moved(y); } else state = 1;
                same("move_equalorlarger");
                break;
            }
            case 3: {
                u32 n = c.t.chance(1, 4) ? (u32)c.t.draw(70000) : c.t.chance(1, 3) ? (u32)c.t.draw(500) : (u32)c.t.draw(10);
                c.log("read %u", n);
                // reading starts at the current value
                if (state != 0) {
                    u32 buf[4] = {7, 7, 7, 7};
                    PCHECK(c, roaring_uint32_iterator_read(it, buf, n > 4 ? 4 : n) == 0, "read without a current value should return 0");
                    same("read at an end");
                    break;
                }
                u32 room = n;
                if (c.t.chance(1, 12)) {  // a count far beyond what is left; there is room for what is left
                    u64 left = m.card() - (m.rank(x) - 1);
                    if (left < 300000) {
                        static const u32 N[] = {0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 0x80000001u, 0x40000000u, 1u << 24};
                        n = N[c.t.draw(7)];
                        room = (u32)left;
                        c.count("huge_reads");
                    }
                }
                std::unique_ptr<u32[]> buf(new u32[room + 1]);
                buf[room] = 0x77777777;
                u32 got = old() ? roaring_read_uint32_iterator(it, buf.get(), n) : roaring_uint32_iterator_read(it, buf.get(), n);
                u32 k = 0;
                while (k < n && state == 0) {
                    PCHECK(c, k < got && buf[k] == x, "read: value #%u is %u, expected %llu (count %u returned %u)", k, k < got ? buf[k] : 0, (unsigned long long)x, n, got);
                    k++;
                    m_next();
                }
                PCHECK(c, got == k, "read returned %u, expected %u", got, k);
                PCHECK(c, buf[room] == 0x77777777, "read wrote past its buffer");
                if (k) used |= 8, go(1);
                same("read");
                break;
            }
            case 4: {
                roaring_uint32_iterator_t *q = old() ? roaring_copy_uint32_iterator(it) : roaring_uint32_iterator_copy(it);
                PCHECK(c, q, "copy");
                c.log("copy");
                if (c.t.draw(2)) std::swap(q, it);  // keep walking on the copy
                if (old()) roaring_free_uint32_iterator(q); else roaring_uint32_iterator_free(q);
                used |= 16;
                same("copy");
                break;
            }
            case 5: c.log("init"); if (old()) roaring_init_iterator(r, it); else roaring_iterator_init(r, it); first(); used |= 32; same("init"); break;
            default: c.log("init_last"); if (old()) roaring_init_iterator_last(r, it); else roaring_iterator_init_last(r, it); last(); used |= 64; same("init_last");
        }
    }
};
