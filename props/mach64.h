// A state machine over a family of 64-bit bitmaps and their models.
#pragma once
#include "kit64.h"

struct Slot64 { RB64 *r; ISet m; };

struct Mach64 {
    Ctx &c;
    gen::Pool pool;
    std::vector<Slot64> s;
    u64 changed = 0, steps = 0, emptied = 0;
    int touched = -1;
    size_t max_slots = 4;
    std::string last;
    explicit Mach64(Ctx &ctx) : c(ctx) {}
    void finish() {
        for (auto &x : s) roaring64_bitmap_free(x.r);
        s.clear();
    }
    void start(size_t n) {
        for (size_t i = 0; i < n; i++) {
            ISet m = i && c.t.chance(1, 2) ? gen::related64(c, pool, s[0].m) : gen::set64(c, pool);
            RB64 *r = build64(c, m);
            s.push_back({r, m});
            c.log("B%zu=%s", i, m.str(3).c_str());
        }
    }
    u64 val(const ISet &m) { return gen::near(c, m, pool, MAX64); }
    // closed range of at most 40 chunks, or (far) anything
    void range(const ISet &m, u64 &lo, u64 &hi, bool far, int kind = -1) {
        if (c.t.chance(1, 4)) {
            if (kind < 0) kind = (int)c.t.draw(3);
            if (gen::steer(c, m, pool, kind, lo, hi)) { c.count("steered_ranges"); return; }
        }
        lo = val(m);
        switch (c.t.pick({4, 3, 2, 1, 1})) {
            case 0: hi = lo + gen::len16(c) - 1; break;
            case 1: hi = val(m); break;
            case 2: hi = lo + c.t.draw(6ull << 16); break;
            case 3: hi = lo; break;
            default: hi = c.t.chance(1, 3) ? MAX64 : (lo | 0xffff);
        }
        if (hi < lo && c.t.chance(4, 5)) std::swap(lo, hi);
        if (!far && hi > lo && hi - lo > (40ull << 16)) hi = lo + (hi - lo) % (40ull << 16);
    }
    std::vector<u64> many(const ISet &m) {
        std::vector<u64> v;
        switch (c.t.pick({4, 2, 2, 3, 2})) {
            case 4: {  // as many as it takes to reach a threshold
                u64 lo, hi;
                bool rem = c.t.draw(2);
                if (!gen::steer(c, m, pool, rem, lo, hi)) break;
                ISet q = gen::window(m, lo, hi);
                if (!rem) q = gen::outside(q, lo, hi);
                v = q.values(66000);
                if (c.t.chance(1, 3)) std::reverse(v.begin(), v.end());
                break;
            }
            case 0: {
                u32 n = (u32)c.t.draw(12);
                for (u32 i = 0; i < n; i++) {
                    if (!v.empty() && c.t.chance(1, 3)) v.push_back(v.back() + c.t.draw(2));
                    else v.push_back(val(m));
                }
                break;
            }
            case 1: {
                ISet ch = gen::chunk(c);
                u64 b = pool.keys[c.t.draw(pool.keys.size())] << 16;
                for (u64 x : ch.values(5000)) v.push_back(b + x);
                break;
            }
            case 2: {
                u32 n = (u32)c.t.draw(300);
                Rng r(c.t.seed());
                for (u32 i = 0; i < n; i++) {
                    if (!v.empty() && r.below(5) == 0) v.push_back(v[r.below(v.size())]);
                    else v.push_back((pool.keys[r.below(pool.keys.size())] << 16) + r.below(r.below(2) ? 65536 : 64));
                }
                break;
            }
            default: {
                ISet k = gen::sample_of(m, c.t.seed(), 10);
                v = k.values(6000);
                if (!v.empty() && c.t.chance(1, 3)) { v.push_back(v.back()); v.push_back(v[0]); }
                if (c.t.chance(1, 2)) std::reverse(v.begin(), v.end());
            }
        }
        return v;
    }
    enum Op {
        ADD, ADDC, REM, REMC, ADDMANY, REMMANY, BULK, ADDRANGE, REMRANGE, CLEAR, RUNOPT, SHRINK, FLIP, ADDCHUNK, REMCHUNK, REMKEYS,
        ANDI, ORI, XORI, ANDNOTI,
        COPY, MOVE32, AND, OR, XOR, ANDNOT, FLIPNEW, FREE, PORT, FROZEN, FRESH, FROMRANGE, SELF, NOPS
    };
    static const char *name(int o) {
        static const char *n[] = {"add", "add_checked", "remove", "remove_checked", "add_many", "remove_many", "bulk", "add_range", "remove_range", "clear", "run_optimize", "shrink_to_fit", "flip_inplace", "add_chunk", "remove_chunk", "remove_keys",
            "and_inplace", "or_inplace", "xor_inplace", "andnot_inplace",
            "copy", "move_from_roaring32", "and", "or", "xor", "andnot", "flip", "free", "portable_roundtrip", "frozen_roundtrip", "fresh", "from_range", "and_inplace_self"};
        return n[o];
    }
    typedef std::vector<u32> Weights;
    static Weights mutators() {
        Weights w(NOPS, 0);
        w[ADD] = 4; w[ADDC] = 4; w[REM] = 4; w[REMC] = 4; w[ADDMANY] = 4; w[REMMANY] = 5; w[BULK] = 5; w[ADDRANGE] = 7; w[REMRANGE] = 7;
        w[CLEAR] = 1; w[RUNOPT] = 4; w[SHRINK] = 3; w[FLIP] = 1; w[ADDCHUNK] = 3; w[REMCHUNK] = 2; w[REMKEYS] = 3; w[MOVE32] = 1; w[COPY] = 2; w[FROMRANGE] = 1;
        return w;
    }
    static Weights everything() {
        Weights w = mutators();
        w[ANDI] = 3; w[ORI] = 3; w[XORI] = 3; w[ANDNOTI] = 3; w[AND] = 2; w[OR] = 2; w[XOR] = 2; w[ANDNOT] = 2; w[FLIPNEW] = 2;
        w[FREE] = 2; w[PORT] = 1; w[FROZEN] = 1; w[FRESH] = 2; w[SELF] = 1;
        return w;
    }
    size_t pickw(const Weights &w) {
        u64 tot = 0;
        for (u32 x : w) tot += x;
        u64 v = c.t.draw(tot);
        for (size_t i = 0; i < w.size(); i++) {
            if (v < w[i]) return i;
            v -= w[i];
        }
        return 0;
    }
    void put(RB64 *r, const ISet &m) {
        if (s.size() < max_slots) {
            s.push_back({r, m});
            touched = (int)s.size() - 1;
            return;
        }
        size_t i = c.t.draw(s.size());
        roaring64_bitmap_free(s[i].r);
        s[i] = {r, m};
        touched = (int)i;
    }
    void step(const Weights &w) {
        steps++;
        size_t o = pickw(w);
        size_t i = c.t.draw(s.size());
        RB64 *r = s[i].r;
        ISet &m = s[i].m;
        touched = (int)i;
        last = name((int)o);
        c.count(name((int)o));
        ISet before;
        bool track = o <= ANDNOTI;
        if (track) before = m;
        switch (o) {
            case ADD: case ADDC: {
                u64 x = val(m);
                c.log("%s B%zu %llu", name((int)o), i, (unsigned long long)x);
                bool n = m.add(x);
                if (o == ADD) roaring64_bitmap_add(r, x);
                else PCHECK(c, roaring64_bitmap_add_checked(r, x) == n, "add_checked(%llu) should report %d", (unsigned long long)x, n);
                PCHECK(c, roaring64_bitmap_contains(r, x), "%s(%llu): value is missing", name((int)o), (unsigned long long)x);
                break;
            }
            case REM: case REMC: {
                u64 x = val(m);
                c.log("%s B%zu %llu", name((int)o), i, (unsigned long long)x);
                bool n = m.remove(x);
                if (o == REM) roaring64_bitmap_remove(r, x);
                else PCHECK(c, roaring64_bitmap_remove_checked(r, x) == n, "remove_checked(%llu) should report %d", (unsigned long long)x, n);
                PCHECK(c, !roaring64_bitmap_contains(r, x), "%s(%llu): value is still there", name((int)o), (unsigned long long)x);
                break;
            }
            case ADDMANY: case REMMANY: {
                auto v = many(m);
                c.log("%s B%zu n=%zu", name((int)o), i, v.size());
                if (v.size() <= 12) for (u64 x : v) c.log("%llu", (unsigned long long)x);
                for (u64 x : v) { if (o == ADDMANY) m.add(x); else m.remove(x); }
                if (o == ADDMANY) roaring64_bitmap_add_many(r, v.size(), v.data());
                else roaring64_bitmap_remove_many(r, v.size(), v.data());
                break;
            }
            case BULK: {  // one context for a mixed run of bulk calls
                auto v = many(m);
                roaring64_bulk_context_t ctx = {};
                u64 kinds = c.t.seed() | 1;
                Rng rk(kinds);
                u32 mode = (u32)c.t.draw(4);
                c.log("bulk B%zu n=%zu mode=%u", i, v.size(), mode);
                for (u64 x : v) {
                    u64 k = mode == 3 ? rk.below(3) : mode;
                    c.log("%s %llu", k == 0 ? "add" : k == 1 ? "remove" : "contains", (unsigned long long)x);
                    if (k == 0) { m.add(x); roaring64_bitmap_add_bulk(r, &ctx, x); }
                    else if (k == 1) { m.remove(x); roaring64_bitmap_remove_bulk(r, &ctx, x); }
                    else PCHECK(c, roaring64_bitmap_contains_bulk(r, &ctx, x) == m.contains(x), "contains_bulk(%llu) should be %d", (unsigned long long)x, m.contains(x));
                }
                break;
            }
            case ADDRANGE: case REMRANGE: case FLIP: {
                u64 lo, hi;
                range(m, lo, hi, o == REMRANGE, o == FLIP ? 2 : o == REMRANGE);
                bool half = c.t.draw(2) && hi < MAX64 && hi >= lo;
                c.log("%s%s B%zu %llu..%llu", name((int)o), half ? "" : "_closed", i, (unsigned long long)lo, (unsigned long long)hi);
                if (hi >= lo) { if (o == ADDRANGE) m.add(lo, hi); else if (o == REMRANGE) m.remove(lo, hi); else m.flip(lo, hi); }
                if (o == ADDRANGE) { if (half) roaring64_bitmap_add_range(r, lo, hi + 1); else roaring64_bitmap_add_range_closed(r, lo, hi); }
                else if (o == REMRANGE) { if (half) roaring64_bitmap_remove_range(r, lo, hi + 1); else roaring64_bitmap_remove_range_closed(r, lo, hi); }
                else { if (half) roaring64_bitmap_flip_inplace(r, lo, hi + 1); else roaring64_bitmap_flip_closed_inplace(r, lo, hi); }
                if (c.t.chance(1, 10)) {  // empty half-open ranges change nothing
                    roaring64_bitmap_add_range(r, lo, lo);
                    roaring64_bitmap_remove_range(r, lo, lo);
                    roaring64_bitmap_flip_inplace(r, lo, lo);
                }
                break;
            }
            case CLEAR: c.log("clear B%zu", i); roaring64_bitmap_clear(r); m.clear(); break;
            case RUNOPT: {
                c.log("run_optimize B%zu", i);
                bool has = roaring64_bitmap_run_optimize(r);
                PCHECK(c, has == (mix_of64(r).r > 0), "run_optimize should report %d", !has);
                break;
            }
            case SHRINK: c.log("shrink B%zu", i); roaring64_bitmap_shrink_to_fit(r); break;
            case ADDCHUNK: case REMCHUNK: {
                ISet ch = gen::chunk(c);
                u64 b = pool.keys[c.t.draw(pool.keys.size())] << 16;
                c.log("%s B%zu @%llu %s", name((int)o), i, (unsigned long long)b, ch.str(3).c_str());
                ISet sh = ch.shifted((__int128)b, MAX64);
                m = ISet::op(m, sh, o == ADDCHUNK ? 1 : 2);
                if (sh.v.size() < 3000) {
                    for (auto &iv : sh.v) {
                        if (o == ADDCHUNK) roaring64_bitmap_add_range_closed(r, iv.lo, iv.hi);
                        else roaring64_bitmap_remove_range_closed(r, iv.lo, iv.hi);
                    }
                } else {
                    RB64 *t = from_model_portable64(c, sh, KindPolicy{0, 0});
                    if (o == ADDCHUNK) roaring64_bitmap_or_inplace(r, t); else roaring64_bitmap_andnot_inplace(r, t);
                    roaring64_bitmap_free(t);
                }
                break;
            }
            case REMKEYS: {  // empties whole chunks in a generated order
                auto parts = std::vector<u64>();
                for (auto &iv : m.v) if (parts.empty() || parts.back() != iv.lo >> 16) parts.push_back(iv.lo >> 16);
                if (parts.empty()) break;
                u32 n = 1 + (u32)c.t.draw(c.t.chance(1, 3) ? parts.size() : std::min<size_t>(parts.size(), 5));
                Rng rg(c.t.seed());
                c.log("remove_keys B%zu %u of %zu", i, n, parts.size());
                for (u32 k = 0; k < n; k++) {
                    u64 key = parts[rg.below(parts.size())];
                    u64 lo = key << 16, hi = lo | 0xffff;
                    if (rg.below(2)) {
                        roaring64_bitmap_remove_range_closed(r, lo, hi);
                    } else {
                        ISet one;
                        one.append(lo, hi);
                        one = ISet::op(m, one, 0);
                        if (one.card() < 200) for (u64 x : one.values(200)) roaring64_bitmap_remove(r, x);
                        else roaring64_bitmap_remove_range_closed(r, lo, hi);
                    }
                    m.remove(lo, hi);
                }
                break;
            }
            case ANDI: case ORI: case XORI: case ANDNOTI: {
                size_t j = c.t.draw(s.size());
                if (j == i) break;
                c.log("%s B%zu B%zu", name((int)o), i, j);
                static const int kind[] = {0, 1, 3, 2};
                m = ISet::op(m, s[j].m, kind[o - ANDI]);
                if (o == ANDI) roaring64_bitmap_and_inplace(r, s[j].r);
                else if (o == ORI) roaring64_bitmap_or_inplace(r, s[j].r);
                else if (o == XORI) roaring64_bitmap_xor_inplace(r, s[j].r);
                else roaring64_bitmap_andnot_inplace(r, s[j].r);
                break;
            }
            case SELF: c.log("and_inplace B%zu itself", i); roaring64_bitmap_and_inplace(r, r); break;
            case COPY: { c.log("copy B%zu", i); RB64 *t = roaring64_bitmap_copy(r); ISet mm = m; put(t, mm); break; }
            case MOVE32: {
                gen::Pool p = gen::pool32(c, 3);
                ISet mm = gen::set_of_pool(c, p);
                bool cow = c.t.draw(2);
                RB *t = build32(c, mm, cow);
                RB *k = cow ? roaring_bitmap_copy(t) : nullptr;
                c.log("move_from_roaring32 cow=%d %s", cow, mm.str(3).c_str());
                RB64 *q = roaring64_bitmap_move_from_roaring32(t);
                PCHECK(c, roaring_bitmap_is_empty(t), "move_from_roaring32 leaves its source non-empty");
                expect64(c, q, mm, "move_from_roaring32");
                if (cow) {
                    u64 x = mm.empty() ? 7 : mm.max();
                    roaring64_bitmap_remove(q, x);
                    expect32(c, k, mm, "a sharing copy of a moved bitmap");
                    mm.remove(x);
                    roaring_bitmap_free(k);
                }
                roaring_bitmap_add(t, 77);
                PCHECK(c, roaring_bitmap_get_cardinality(t) == 1, "the moved-from bitmap is not usable");
                roaring_bitmap_free(t);
                put(q, mm);
                break;
            }
            case AND: case OR: case XOR: case ANDNOT: {
                size_t j = c.t.draw(s.size());
                c.log("%s B%zu B%zu", name((int)o), i, j);
                const RB64 *q = s[j].r;
                RB64 *t;
                int k = 0;
                if (o == AND) t = roaring64_bitmap_and(r, q);
                else if (o == OR) k = 1, t = roaring64_bitmap_or(r, q);
                else if (o == XOR) k = 3, t = roaring64_bitmap_xor(r, q);
                else k = 2, t = roaring64_bitmap_andnot(r, q);
                ISet mm = ISet::op(m, s[j].m, k);
                put(t, mm);
                break;
            }
            case FLIPNEW: {
                u64 lo, hi;
                range(m, lo, hi, false);
                bool half = c.t.draw(2) && hi < MAX64 && hi >= lo;
                c.log("flip%s B%zu %llu..%llu", half ? "" : "_closed", i, (unsigned long long)lo, (unsigned long long)hi);
                ISet mm = m;
                if (hi >= lo) mm.flip(lo, hi);
                put(half ? roaring64_bitmap_flip(r, lo, hi + 1) : roaring64_bitmap_flip_closed(r, lo, hi), mm);
                break;
            }
            case FREE:
                if (s.size() <= 1) break;
                c.log("free B%zu", i);
                roaring64_bitmap_free(r);
                s.erase(s.begin() + i);
                touched = -1;
                break;
            case PORT: {
                c.log("portable B%zu", i);
                std::string b = bytes_of64(r);
                RB64 *t = roaring64_bitmap_portable_deserialize_safe(b.data(), b.size());
                PCHECK(c, t, "portable round trip rejected");
                ISet mm = m;
                put(t, mm);
                break;
            }
            case FROZEN: {  // a view is a readable operand; its copy goes on
                c.log("frozen B%zu", i);
                roaring64_bitmap_shrink_to_fit(r);
                size_t n = roaring64_bitmap_frozen_size_in_bytes(r);
                PCHECK(c, n > 0, "frozen size of a shrunk bitmap is 0");
                char *buf = (char *)aligned_alloc(64, (n + 63) / 64 * 64);
                PCHECK(c, roaring64_bitmap_frozen_serialize(r, buf) == n, "frozen_serialize");
                RB64 *v = roaring64_bitmap_frozen_view(buf, n);
                PCHECK(c, v, "frozen_view");
                RB64 *t = roaring64_bitmap_copy(v);
                roaring64_bitmap_free(v);
                free(buf);
                ISet mm = m;
                put(t, mm);
                break;
            }
            case FRESH: {
                ISet mm = gen::related64(c, pool, m);
                RB64 *t = build64(c, mm);
                c.log("fresh %s", mm.str(3).c_str());
                put(t, mm);
                break;
            }
            case FROMRANGE: {
                u64 lo = val(m), step, n = 1 + c.t.draw(c.t.chance(1, 4) ? 3000 : 200);
                switch (c.t.pick({3, 2, 2, 1})) {
                    case 0: step = 1 + c.t.draw(5); break;
                    case 1: step = 1 + c.t.draw(70000); break;
                    case 2: step = 65534 + c.t.draw(4); break;
                    default: step = c.t.draw(0) | 1; n = 1 + n % 50;
                }
                ISet mm;
                u64 x = lo, k = 0;
                for (;; k++) {
                    if (k == n) break;
                    mm.append(x, x);
                    if (x > MAX64 - step) { k++; break; }
                    x += step;
                }
                // the first value beyond the last one ends the range; a cut short of it changes nothing
                u64 lastv = mm.max();
                if (lastv == MAX64) { mm.remove(MAX64); if (mm.empty()) break; lastv = mm.max(); }
                u64 max = lastv + 1 + (MAX64 - lastv > step ? (c.t.chance(1, 3) ? step - 1 : c.t.draw(step)) : 0);
                c.log("from_range %llu %llu %llu", (unsigned long long)lo, (unsigned long long)max, (unsigned long long)step);
                RB64 *t = roaring64_bitmap_from_range(lo, max, step);
                PCHECK(c, t, "from_range(%llu,%llu,%llu)", (unsigned long long)lo, (unsigned long long)max, (unsigned long long)step);
                put(t, mm);
                break;
            }
        }
        if (track && !(before == m)) {
            changed++;
            if (m.empty()) emptied++;
        }
    }
    void check_touched() {
        if (touched < 0 || touched >= (int)s.size()) return;
        expect64(c, s[touched].r, s[touched].m, last.c_str());
        expect_valid64(c, s[touched].r, last.c_str());
    }
    void check_all(const char *what) {
        for (auto &x : s) {
            expect64(c, x.r, x.m, what);
            expect_valid64(c, x.r, what);
        }
    }
};
