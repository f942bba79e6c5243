// A state machine over a family of 32-bit bitmaps and their models.
#pragma once
#include "kit32.h"

struct Slot32 { RB *r; ISet m; };

struct Mach32 {
    Ctx &c;
    gen::Pool pool;
    std::vector<Slot32> s;
    std::vector<RB *> keep;
    bool cow = false;
    u64 changed = 0, steps = 0, shared_writes = 0;
    int touched = -1;  // slot changed by the last step
    size_t max_slots = 5;
    u32 wide = 0;  // how many ranges may span most of the domain
    std::string last;

    explicit Mach32(Ctx &ctx) : c(ctx) {}
    ~Mach32() {}
    void finish() {
        for (auto &x : s) roaring_bitmap_free(x.r);
        for (RB *x : keep) roaring_bitmap_free(x);
        s.clear();
        keep.clear();
    }
    RB *adopt(RB *r) {
        if (roaring_bitmap_get_copy_on_write(r) != cow) roaring_bitmap_set_copy_on_write(r, cow);
        return r;
    }
    void start(size_t n) {
        for (size_t i = 0; i < n; i++) {
            ISet m = i && c.t.chance(1, 2) ? gen::related(c, pool, s[0].m) : gen::set32(c, pool);
            RB *r = build32(c, m, cow);
            s.push_back({r, m});
            c.log("B%zu=%s", i, m.str(3).c_str());
        }
    }
    u32 val(const ISet &m) { return (u32)gen::near(c, m, pool, MAX32); }
    // half-open [lo,hi) inside the documented domain [0, 2^32]
    void range(const ISet &m, u64 &lo, u64 &hi, int kind = -1) {
        if (c.t.chance(1, 4)) {
            if (kind < 0) kind = (int)c.t.draw(3);
            if (gen::steer(c, m, pool, kind, lo, hi)) {
                hi = std::min(hi, MAX32) + 1;
                c.count("steered_ranges");
                return;
            }
        }
        lo = gen::near(c, m, pool, MAX32);
        switch (c.t.pick({4, 3, 1, 1, 1})) {
            case 0: hi = lo + gen::len16(c); break;
            case 1: hi = gen::near(c, m, pool, MAX32); break;
            case 2: hi = lo + c.t.draw(6ull << 16); break;
            case 3: hi = lo + 1; break;
            default: hi = c.t.chance(1, 6) ? MAX32 + 1 : (lo | 0xffff) + 1;
        }
        if (hi > MAX32 + 1) hi = MAX32 + 1;
        // Very wide ranges make every later step slow: only where asked for.
        if (hi > lo && hi - lo > (64ull << 16)) {
            if (wide && c.t.chance(1, 3)) wide--;
            else hi = lo + (hi - lo) % (64ull << 16);
        }
    }
    std::vector<u32> many(const ISet &m) {
        std::vector<u32> v;
        switch (c.t.pick({4, 2, 2, 2, 2})) {
            case 4: {  // as many as it takes to reach a threshold
                u64 lo, hi;
                bool rem = c.t.draw(2);
                if (!gen::steer(c, m, pool, rem, lo, hi)) break;
                ISet q = gen::window(m, lo, std::min(hi, MAX32));
                if (!rem) q = gen::outside(q, lo, std::min(hi, MAX32));
                for (u64 x : q.values(66000)) v.push_back((u32)x);
                if (c.t.chance(1, 3)) std::reverse(v.begin(), v.end());
                break;
            }
            case 0: {
                u32 n = (u32)c.t.draw(12);
                for (u32 i = 0; i < n; i++) {
                    if (!v.empty() && c.t.chance(1, 4)) v.push_back(v.back() + (u32)c.t.draw(2));
                    else v.push_back(val(m));
                }
                break;
            }
            case 1: {  // values of a chunk, ordered
                ISet ch = gen::chunk(c);
                u64 b = pool.keys[c.t.draw(pool.keys.size())] << 16;
                for (u64 x : ch.values(5000)) v.push_back((u32)(b + x));
                break;
            }
            case 2: {  // random order, duplicates
                u32 n = (u32)c.t.draw(300);
                Rng r(c.t.seed());
                for (u32 i = 0; i < n; i++) {
                    if (!v.empty() && r.below(5) == 0) v.push_back(v[r.below(v.size())]);
                    else v.push_back((u32)((pool.keys[r.below(pool.keys.size())] << 16) + r.below(r.below(2) ? 65536 : 64)));
                }
                break;
            }
            default: {  // present values
                ISet k = gen::sample_of(m, c.t.seed(), 8);
                for (u64 x : k.values(6000)) v.push_back((u32)x);
                if (c.t.chance(1, 2)) std::reverse(v.begin(), v.end());
            }
        }
        return v;
    }

    enum Op {
        ADD, ADDC, REM, REMC, ADDMANY, REMMANY, ADDBULK, ADDRANGE, ADDRANGEC, REMRANGE, REMRANGEC, CLEAR, RUNOPT, RMRUN, SHRINK,
        OVERWRITE, FLIP, FLIPC, ADDCHUNK, REMCHUNK,
        ANDI, ORI, XORI, ANDNOTI, LORI, LXORI,
        COPY, AND, OR, XOR, ANDNOT, FLIPNEW, OFFSET, ORMANY, ORHEAP, XORMANY, LOR, LXOR, FREE, PORT, NATIVE, FRESH, FROMRANGE, ANDSELF,
        NOPS
    };
    static const char *name(int o) {
        static const char *n[] = {"add", "add_checked", "remove", "remove_checked", "add_many", "remove_many", "add_bulk", "add_range", "add_range_closed", "remove_range", "remove_range_closed", "clear", "run_optimize", "remove_run_compression", "shrink_to_fit",
            "overwrite", "flip_inplace", "flip_inplace_closed", "add_chunk", "remove_chunk",
            "and_inplace", "or_inplace", "xor_inplace", "andnot_inplace", "lazy_or_inplace", "lazy_xor_inplace",
            "copy", "and", "or", "xor", "andnot", "flip", "add_offset", "or_many", "or_many_heap", "xor_many", "lazy_or", "lazy_xor", "free", "portable_roundtrip", "native_roundtrip", "fresh", "from_range", "and_inplace_self"};
        return n[o];
    }
    typedef std::vector<u32> Weights;
    static Weights mutators() {
        Weights w(NOPS, 0);
        w[ADD] = 4; w[ADDC] = 4; w[REM] = 4; w[REMC] = 4; w[ADDMANY] = 4; w[REMMANY] = 4; w[ADDBULK] = 3;
        w[ADDRANGE] = 5; w[ADDRANGEC] = 3; w[REMRANGE] = 5; w[REMRANGEC] = 3; w[CLEAR] = 1; w[RUNOPT] = 4; w[RMRUN] = 1; w[SHRINK] = 2;
        w[OVERWRITE] = 2; w[FLIP] = 1; w[FLIPC] = 1; w[ADDCHUNK] = 3; w[REMCHUNK] = 3;
        return w;
    }
    static Weights everything() {
        Weights w = mutators();
        w[ANDI] = 2; w[ORI] = 3; w[XORI] = 3; w[ANDNOTI] = 3; w[LORI] = 2; w[LXORI] = 2;
        w[COPY] = 6; w[AND] = 2; w[OR] = 2; w[XOR] = 2; w[ANDNOT] = 2; w[FLIPNEW] = 2; w[OFFSET] = 2; w[ORMANY] = 1; w[ORHEAP] = 1; w[XORMANY] = 1;
        w[LOR] = 1; w[LXOR] = 1; w[FREE] = 3; w[PORT] = 1; w[NATIVE] = 1; w[FRESH] = 2; w[FROMRANGE] = 1; w[ANDSELF] = 1;
        return w;
    }
    size_t pickw(const Weights &w) {
        u64 tot = 0;
        for (u32 x : w) tot += x;
        u64 v = c.t.draw(tot);
        for (size_t i = 0; i < w.size(); i++) {
            if (v < w[i]) return i;
            v -= w[i];
        }
        return 0;
    }
    void put(RB *r, const ISet &m) {  // stores a new bitmap
        adopt(r);
        if (s.size() < max_slots) {
            s.push_back({r, m});
            touched = (int)s.size() - 1;
            return;
        }
        size_t i = c.t.draw(s.size());
        roaring_bitmap_free(s[i].r);
        s[i] = {r, m};
        touched = (int)i;
    }
    void step(const Weights &w) {
        steps++;
        size_t o = pickw(w);
        size_t i = c.t.draw(s.size());
        RB *r = s[i].r;
        ISet &m = s[i].m;
        touched = (int)i;
        last = name((int)o);
        c.count(name((int)o));
        ISet before;
        bool track = o <= LXORI;
        if (track) before = m;
        switch (o) {
            case ADD: case ADDC: {
                u32 x = val(m);
                c.log("%s B%zu %u", name((int)o), i, x);
                bool n = m.add(x);
                if (o == ADD) roaring_bitmap_add(r, x);
                else PCHECK(c, roaring_bitmap_add_checked(r, x) == n, "add_checked(%u) should report %d", x, n);
                PCHECK(c, roaring_bitmap_contains(r, x), "%s(%u): value is missing", name((int)o), x);
                break;
            }
            case REM: case REMC: {
                u32 x = val(m);
                c.log("%s B%zu %u", name((int)o), i, x);
                bool n = m.remove(x);
                if (o == REM) roaring_bitmap_remove(r, x);
                else PCHECK(c, roaring_bitmap_remove_checked(r, x) == n, "remove_checked(%u) should report %d", x, n);
                PCHECK(c, !roaring_bitmap_contains(r, x), "%s(%u): value is still there", name((int)o), x);
                break;
            }
            case ADDMANY: case REMMANY: {
                auto v = many(m);
                c.log("%s B%zu n=%zu", name((int)o), i, v.size());
                if (v.size() <= 12) for (u32 x : v) c.log("%u", x);
                for (u32 x : v) { if (o == ADDMANY) m.add(x); else m.remove(x); }
                if (o == ADDMANY) roaring_bitmap_add_many(r, v.size(), v.data());
                else roaring_bitmap_remove_many(r, v.size(), v.data());
                break;
            }
            case ADDBULK: {
                auto v = many(m);
                c.log("add_bulk B%zu n=%zu", i, v.size());
                roaring_bulk_context_t ctx = {};
                bool mixed = c.t.chance(1, 3);
                for (u32 x : v) {
                    if (mixed && c.t.chance(1, 4)) PCHECK(c, roaring_bitmap_contains_bulk(r, &ctx, x) == m.contains(x), "contains_bulk(%u) should be %d", x, m.contains(x));
                    m.add(x);
                    roaring_bitmap_add_bulk(r, &ctx, x);
                }
                break;
            }
            case ADDRANGE: case ADDRANGEC: case REMRANGE: case REMRANGEC: case FLIP: case FLIPC: {
                u64 lo, hi;
                range(m, lo, hi, o == FLIP || o == FLIPC ? 2 : o == REMRANGE || o == REMRANGEC);
                bool closed = o == ADDRANGEC || o == REMRANGEC || o == FLIPC;
                bool emptyc = false;
                if (closed) {
                    if (hi == lo) emptyc = true;  // try an inverted closed range: nothing happens
                    else if (hi > lo) hi--;
                    if (hi > MAX32) hi = MAX32;
                }
                c.log("%s B%zu %llu %llu", name((int)o), i, (unsigned long long)lo, (unsigned long long)hi);
                if (o == ADDRANGE) { if (hi > lo) m.add(lo, hi - 1); roaring_bitmap_add_range(r, lo, hi); }
                else if (o == REMRANGE) { if (hi > lo) m.remove(lo, hi - 1); roaring_bitmap_remove_range(r, lo, hi); }
                else if (o == FLIP) { if (hi > lo) m.flip(lo, hi - 1); roaring_bitmap_flip_inplace(r, lo, hi); }
                else {
                    if (emptyc && lo > 0) hi = lo - 1;
                    if (o == ADDRANGEC) { if (hi >= lo) m.add(lo, hi); roaring_bitmap_add_range_closed(r, (u32)lo, (u32)hi); }
                    else if (o == REMRANGEC) { if (hi >= lo) m.remove(lo, hi); roaring_bitmap_remove_range_closed(r, (u32)lo, (u32)hi); }
                    else { if (hi >= lo) m.flip(lo, hi); roaring_bitmap_flip_inplace_closed(r, (u32)lo, (u32)hi); }
                }
                break;
            }
            case CLEAR: c.log("clear B%zu", i); roaring_bitmap_clear(r); m.clear(); break;
            case RUNOPT: c.log("run_optimize B%zu", i); roaring_bitmap_run_optimize(r); break;
            case RMRUN: if (m.card() > (1u << 26)) break; c.log("remove_run B%zu", i); roaring_bitmap_remove_run_compression(r); break;
            case SHRINK: c.log("shrink B%zu", i); roaring_bitmap_shrink_to_fit(r); break;
            case OVERWRITE: {
                size_t j = c.t.draw(s.size());
                c.log("overwrite B%zu<-B%zu", i, j);
                PCHECK(c, roaring_bitmap_overwrite(r, s[j].r), "overwrite failed");
                if (j != i) m = s[j].m;
                break;
            }
            case ADDCHUNK: case REMCHUNK: {  // an intricate chunk, by ranges
                ISet ch = gen::chunk(c);
                u64 b = pool.keys[c.t.draw(pool.keys.size())] << 16;
                c.log("%s B%zu @%llu %s", name((int)o), i, (unsigned long long)b, ch.str(3).c_str());
                ISet sh = ch.shifted((__int128)b, MAX32);
                m = ISet::op(m, sh, o == ADDCHUNK ? 1 : 2);
                size_t lim = 0;
                for (auto &iv : sh.v) {
                    if (o == ADDCHUNK) roaring_bitmap_add_range_closed(r, (u32)iv.lo, (u32)iv.hi);
                    else roaring_bitmap_remove_range_closed(r, (u32)iv.lo, (u32)iv.hi);
                    if (++lim > 3000) break;
                }
                if (lim > 3000) {  // finish through a bitmap
                    RB *t = from_model_portable(c, sh, KindPolicy{0, 0});
                    adopt(t);
                    if (o == ADDCHUNK) roaring_bitmap_or_inplace(r, t); else roaring_bitmap_andnot_inplace(r, t);
                    roaring_bitmap_free(t);
                }
                break;
            }
            case ANDI: case ORI: case XORI: case ANDNOTI: case LORI: case LXORI: {
                size_t j = c.t.draw(s.size());
                if (j == i) break;
                c.log("%s B%zu B%zu", name((int)o), i, j);
                static const int kind[] = {0, 1, 3, 2, 1, 3};
                m = ISet::op(m, s[j].m, kind[o - ANDI]);
                if (o == ANDI) roaring_bitmap_and_inplace(r, s[j].r);
                else if (o == ORI) roaring_bitmap_or_inplace(r, s[j].r);
                else if (o == XORI) roaring_bitmap_xor_inplace(r, s[j].r);
                else if (o == ANDNOTI) roaring_bitmap_andnot_inplace(r, s[j].r);
                else {
                    if (o == LORI) roaring_bitmap_lazy_or_inplace(r, s[j].r, c.t.draw(2));
                    else roaring_bitmap_lazy_xor_inplace(r, s[j].r);
                    roaring_bitmap_repair_after_lazy(r);
                }
                break;
            }
            case ANDSELF: c.log("and_inplace B%zu itself", i); roaring_bitmap_and_inplace(r, r); break;
            case COPY: c.log("copy B%zu", i); { RB *t = roaring_bitmap_copy(r); ISet mm = m; put(t, mm); } break;
            case AND: case OR: case XOR: case ANDNOT: case LOR: case LXOR: {
                size_t j = c.t.draw(s.size());
                c.log("%s B%zu B%zu", name((int)o), i, j);
                RB *t = nullptr;
                const RB *q = s[j].r;
                int k = 0;
                if (o == AND) t = roaring_bitmap_and(r, q);
                else if (o == OR) k = 1, t = roaring_bitmap_or(r, q);
                else if (o == XOR) k = 3, t = roaring_bitmap_xor(r, q);
                else if (o == ANDNOT) k = 2, t = roaring_bitmap_andnot(r, q);
                else if (o == LOR) k = 1, t = roaring_bitmap_lazy_or(r, q, c.t.draw(2));
                else k = 3, t = roaring_bitmap_lazy_xor(r, q);
                if (o == LOR || o == LXOR) roaring_bitmap_repair_after_lazy(t);
                ISet mm = ISet::op(m, s[j].m, k);
                put(t, mm);
                break;
            }
            case FLIPNEW: {
                u64 lo, hi;
                range(m, lo, hi, 2);
                c.log("flip B%zu %llu %llu", i, (unsigned long long)lo, (unsigned long long)hi);
                ISet mm = m;
                if (hi > lo) mm.flip(lo, hi - 1);
                put(roaring_bitmap_flip(r, lo, hi), mm);
                break;
            }
            case OFFSET: {
                int64_t off;
                switch (c.t.pick({2, 2, 1})) {
                    case 0: off = (int64_t)c.t.draw(200) - 100; break;
                    case 1: off = ((int64_t)c.t.draw(7) - 3) * 65536 + (int64_t)c.t.draw(3) - 1; break;
                    default: off = (int64_t)c.t.draw(1ull << 34) - (1ll << 33);
                }
                c.log("add_offset B%zu %lld", i, (long long)off);
                ISet mm = m.shifted(off, MAX32);
                put(roaring_bitmap_add_offset(r, off), mm);
                break;
            }
            case ORMANY: case ORHEAP: case XORMANY: {
                size_t n = c.t.draw(5);
                std::vector<const RB *> v;
                ISet mm;
                for (size_t k = 0; k < n; k++) {
                    size_t j = c.t.draw(s.size());
                    v.push_back(s[j].r);
                    mm = ISet::op(mm, s[j].m, o == XORMANY ? 3 : 1);
                }
                c.log("%s n=%zu", name((int)o), n);
                RB *t = o == ORMANY ? roaring_bitmap_or_many(n, v.data()) : o == ORHEAP ? roaring_bitmap_or_many_heap((u32)n, v.data()) : roaring_bitmap_xor_many(n, v.data());
                put(t, mm);
                break;
            }
            case FREE:
                if (s.size() < 2) break;
                c.log("free B%zu", i);
                roaring_bitmap_free(r);
                s.erase(s.begin() + i);
                touched = -1;
                break;
            case PORT: {
                c.log("portable round trip B%zu", i);
                std::string b = bytes_of(r);
                RB *t = roaring_bitmap_portable_deserialize_safe(b.data(), b.size());
                PCHECK(c, t, "round trip rejected");
                ISet mm = m;
                put(t, mm);
                break;
            }
            case NATIVE: {
                c.log("native round trip B%zu", i);
                std::string b(roaring_bitmap_size_in_bytes(r), '\0');
                roaring_bitmap_serialize(r, &b[0]);
                RB *t = roaring_bitmap_deserialize_safe(b.data(), b.size());
                PCHECK(c, t, "round trip rejected");
                ISet mm = m;
                put(t, mm);
                break;
            }
            case FRESH: {
                ISet mm = gen::set32(c, pool);
                c.log("fresh %s", mm.str(3).c_str());
                put(build32(c, mm, cow), mm);
                break;
            }
            case FROMRANGE: {
                u64 lo = gen::near(c, m, pool, MAX32), hi = std::min<u64>(MAX32 + 1, lo + c.t.draw(200000));
                u32 st = 1 + (u32)c.t.draw(c.t.chance(1, 2) ? 5 : 70000);
                c.log("from_range %llu %llu %u", (unsigned long long)lo, (unsigned long long)hi, st);
                RB *t = roaring_bitmap_from_range(lo, hi, st);
                if (!t) break;
                ISet mm;
                for (u64 x = lo; x < hi; x += st) mm.append(x, x);
                put(t, mm);
                break;
            }
        }
        if (track && s[i].m != before) changed++;
    }
    void check_all(const char *what) {
        for (size_t i = 0; i < s.size(); i++) {
            std::string w = std::string(what) + " (bitmap " + std::to_string(i) + ")";
            expect32(c, s[i].r, s[i].m, w.c_str());
        }
    }
    void check_touched() {
        if (touched >= 0 && (size_t)touched < s.size()) expect32(c, s[touched].r, s[touched].m, ("after " + last).c_str());
    }
};
