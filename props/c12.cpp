#include "mach32.h"

PROPERTY(C12, "complement of generated ranges (returning, in place, half-open, closed), shifts by generated offsets, and construction from generated strided ranges and value lists, against the model; "
              "non-trivial: a non-empty input and an operation whose result is neither empty nor equal to the input") {
    c.wide = true;
    Mach32 m(c);
    m.pool = gen::pool32(c);
    m.cow = c.t.chance(1, 6);
    ISet s = gen::set32(c, m.pool);
    RB *r = build32(c, s, m.cow, &m.keep);
    c.log("B=%s", s.str().c_str());
    bool nt = false;
    u32 n = 2 + (u32)c.t.draw(6);
    for (u32 k = 0; k < n; k++) {
        switch (c.t.pick({4, 4, 5, 3, 2})) {
            case 0: {  // flip forms
                u64 lo, hi;
                m.range(s, lo, hi, 2);
                if (c.t.chance(1, 6)) hi = lo;
                if (c.t.chance(1, 12)) std::swap(lo, hi);
                c.log("flip %llu %llu", (unsigned long long)lo, (unsigned long long)hi);
                c.count("flip");
                ISet e = s;
                if (hi > lo) e.flip(lo, hi - 1);
                RB *f = roaring_bitmap_flip(r, lo, hi);
                expect32(c, f, e, "flip");
                RB *g = roaring_bitmap_copy(r);
                roaring_bitmap_flip_inplace(g, lo, hi);
                expect32(c, g, e, "flip_inplace");
                if (hi > lo) {
                    RB *f2 = roaring_bitmap_flip_closed(r, (u32)lo, (u32)(hi - 1));
                    expect32(c, f2, e, "flip_closed");
                    roaring_bitmap_flip_inplace_closed(f2, (u32)lo, (u32)(hi - 1));
                    expect32(c, f2, s, "flip twice");
                    roaring_bitmap_free(f2);
                    nt |= !s.empty() && !e.empty();
                } else if (hi < lo && lo <= MAX32) {
                    RB *f2 = roaring_bitmap_flip_closed(r, (u32)lo, (u32)hi);
                    expect32(c, f2, s, "flip_closed of an inverted range");
                    roaring_bitmap_free(f2);
                }
                if (c.t.chance(1, 3)) {  // go on from the result
                    std::swap(r, g);
                    s = e;
                }
                roaring_bitmap_free(f);
                roaring_bitmap_free(g);
                break;
            }
            case 1: {
                int64_t off;
                switch (c.t.pick({3, 3, 2, 2, 1, 4})) {
                    case 5: off = ((int64_t)c.t.draw(5) - 2) * 65536 + ((int64_t)c.t.draw(2047) - 1023) * 64; break;
                    case 0: off = (int64_t)c.t.draw(300) - 150; break;
                    case 1: off = ((int64_t)c.t.draw(9) - 4) * 65536; break;
                    case 2: off = ((int64_t)c.t.draw(9) - 4) * 65536 + (int64_t)c.t.draw(200) - 100; break;
                    case 3: {  // move an edge to the domain border
                        u64 x = gen::near(c, s, m.pool, MAX32);
                        off = c.t.draw(2) ? -(int64_t)x : (int64_t)(MAX32 - x);
                        off += (int64_t)c.t.draw(3) - 1;
                        break;
                    }
                    default: {
                        static const int64_t O[] = {INT64_MIN, INT64_MAX, INT64_MIN + 1, -(1ll << 32), 1ll << 32, (1ll << 32) - 1, -(1ll << 32) + 1, (1ll << 48), -(1ll << 48), 1ll << 31};
                        off = O[c.t.draw(10)];
                    }
                }
                c.log("add_offset %lld", (long long)off);
                c.count("add_offset");
                ISet e = s.shifted(off, MAX32);
                RB *f = roaring_bitmap_add_offset(r, off);
                expect32(c, f, e, "add_offset");
                nt |= !s.empty() && !e.empty() && off;
                if (!e.empty()) {
                    u32 x = (u32)e.max();
                    PCHECK(c, roaring_bitmap_remove_checked(f, x) && roaring_bitmap_add_checked(f, x), "changing a shifted bitmap");
                    expect32(c, f, e, "add_offset then remove and add");
                }
                roaring_bitmap_free(f);
                break;
            }
            case 2: {  // strided ranges
                u64 lo = gen::near(c, s, m.pool, MAX32), hi;
                u32 st;
                switch (c.t.pick({4, 2, 3, 1})) {
                    case 0: st = 1 + (u32)c.t.draw(200); break;
                    case 1: { static const u32 S[] = {63, 64, 65, 4095, 4096, 32768, 65534, 65535, 65536, 65537, 131072, 1u << 20, 1u << 31, 0xffffffff}; st = S[c.t.draw(14)]; break; }
                    case 2: st = 1; break;
                    default: st = 1 + (u32)c.t.draw(MAX32);
                }
                if (c.t.chance(1, 3)) lo = MAX32 - c.t.draw(st < 300000 ? 300000 : (u64)st);
                u64 span = c.t.chance(1, 2) ? 1 + c.t.draw(200) * (u64)st : 1 + c.t.draw(3ull << 16);
                hi = lo + span;
                if (c.t.chance(1, 6)) hi = MAX32 + 1;
                if (hi > MAX32 + 1) hi = MAX32 + 1;
                if (hi > lo && (hi - lo) / st > 250000) { if (st != 1) hi = lo + 250000ull * st; }
                if (hi > MAX32 + 1) hi = MAX32 + 1;
                if (c.t.chance(1, 20)) hi = lo;
                if (c.t.chance(1, 40)) st = 0;
                c.log("from_range %llu %llu %u", (unsigned long long)lo, (unsigned long long)hi, st);
                c.count("from_range");
                RB *f = roaring_bitmap_from_range(lo, hi, st);
                if (hi <= lo || st == 0) { PCHECK(c, f == nullptr, "from_range(%llu,%llu,%u) should be NULL", (unsigned long long)lo, (unsigned long long)hi, st); break; }
                PCHECK(c, f, "from_range returned NULL");
                ISet e;
                if (st == 1) e.append(lo, hi - 1);
                else for (u64 x = lo; x < hi; x += st) e.append(x, x);
                expect32(c, f, e, "from_range");
                expect_valid(c, f, "from_range");
                nt |= e.card() > 2;
                roaring_bitmap_free(f);
                break;
            }
            case 3: {  // value lists
                auto v = m.many(s);
                c.log("of_ptr n=%zu", v.size());
                c.count("of_ptr");
                ISet e;
                for (u32 x : v) e.add(x);
                RB *f = roaring_bitmap_of_ptr(v.size(), v.data());
                expect32(c, f, e, "of_ptr");
                expect_valid(c, f, "of_ptr");
                roaring_bitmap_free(f);
                if (v.size() >= 3) {
                    RB *g = roaring_bitmap_from(v[0], v[1], v[2]);
                    ISet e2;
                    for (int q = 0; q < 3; q++) e2.add(v[q]);
                    expect32(c, g, e2, "roaring_bitmap_from");
                    roaring_bitmap_free(g);
                }
                nt |= e.card() > 3;
                break;
            }
            default: {  // whole-domain and wide flips
                u64 lo = c.t.draw(2) ? 0 : c.t.draw(MAX32 + 1), hi = c.t.draw(2) ? MAX32 + 1 : lo + c.t.draw(MAX32 + 2 - lo);
                if (!c.t.chance(1, 4) && hi > lo + (300ull << 16)) hi = lo + (300ull << 16);
                c.log("wide flip %llu %llu", (unsigned long long)lo, (unsigned long long)hi);
                ISet e = s;
                if (hi > lo) e.flip(lo, hi - 1);
                RB *f = roaring_bitmap_flip(r, lo, hi);
                expect32(c, f, e, "wide flip");
                roaring_bitmap_flip_inplace(f, lo, hi);
                expect32(c, f, s, "wide flip twice");
                roaring_bitmap_free(f);
            }
        }
        expect32(c, r, s, "the input afterwards");
    }
    c.nontrivial = nt;
    roaring_bitmap_free(r);
    m.finish();
}
