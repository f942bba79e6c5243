// A state machine over C++ Roaring64Map objects and their models.
#pragma once
#include "text.h"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include "kit64.h"
#include "guard.h"
#include "roaring.hh"
#include "roaring64map.hh"
#include <functional>
#include <memory>
using roaring::Roaring;
using roaring::Roaring64Map;
typedef unsigned long long ull;

struct MapWalk { const ISet *m; size_t iv; u64 at, n; bool ok; u64 stop; };
inline bool map_walk_cb(u64 x, void *p) {
    MapWalk &w = *(MapWalk *)p;
    if (w.iv >= w.m->v.size() || x != w.at) { w.ok = false; return false; }
    w.n++;
    if (x == w.m->v[w.iv].hi) { w.iv++; if (w.iv < w.m->v.size()) w.at = w.m->v[w.iv].lo; } else w.at++;
    return w.n < w.stop;
}
inline void expect_map(Ctx &c, const Roaring64Map &r, const ISet &m, const char *what) {
    u64 card = m.card();
    PCHECK(c, r.cardinality() == card, "%s: cardinality %llu, expected %llu of %s", what, (ull)r.cardinality(), (ull)card, m.str().c_str());
    PCHECK(c, r.isEmpty() == m.empty(), "%s: isEmpty", what);
    if (card <= 20000) {
        std::unique_ptr<u64[]> a(new u64[card + 1]);
        a[card] = 0xDEADBEEF;
        r.toUint64Array(a.get());
        PCHECK(c, a[card] == 0xDEADBEEF, "%s: toUint64Array wrote too much", what);
        size_t i = 0;
        for (auto &iv : m.v)
            for (u64 x = iv.lo;; x++) {
                PCHECK(c, a[i] == x, "%s: value #%zu is %llu, expected %llu of %s", what, i, (ull)a[i], (ull)x, m.str().c_str());
                i++;
                if (x == iv.hi) break;
            }
    } else if (card <= 1500000) {
        MapWalk w = {&m, 0, m.v[0].lo, 0, true, UINT64_MAX};
        r.iterate(map_walk_cb, &w);
        PCHECK(c, w.ok && w.n == card, "%s: enumeration differs at value #%llu of %s", what, (ull)w.n, m.str().c_str());
    } else {
        u64 ranks = 0, stride = 1 + m.v.size() / 100, n = 0;
        for (auto &iv : m.v) {
            if (n++ % stride == 0) {
                PCHECK(c, r.contains(iv.lo) && r.contains(iv.hi), "%s: lacks %llu or %llu", what, (ull)iv.lo, (ull)iv.hi);
                PCHECK(c, r.rank(iv.lo) == ranks + 1, "%s: rank of %llu", what, (ull)iv.lo);
                PCHECK(c, r.rank(iv.hi) == ranks + (iv.hi - iv.lo + 1), "%s: rank of %llu", what, (ull)iv.hi);
            }
            ranks += iv.hi - iv.lo + 1;
        }
    }
}

struct Mach20 {
    Ctx &c;
    gen::Pool pool;
    bool cow = false, wide = false;
    struct Slot { std::unique_ptr<Roaring64Map> r; ISet m; };
    std::vector<Slot> s;
    int touched = -1;
    u64 steps = 0, changed = 0, holes = 0, self_ops = 0;
    std::string last;
    explicit Mach20(Ctx &c_) : c(c_) {}

    u64 val(const ISet &m) { return gen::near(c, m, pool, MAX64); }
    u32 val32(const ISet &m) {  // a value of the first bucket
        u64 x = val(m);
        return (u32)x;
    }
    void range(const ISet &m, u64 &lo, u64 &hi) {  // closed; sometimes inverted
        if (c.t.chance(1, 5) && gen::steer(c, m, pool, (int)c.t.draw(3), lo, hi)) return;
        lo = val(m);
        switch (c.t.pick({4, 3, 1, 1, 1, 2})) {
            case 0: hi = lo + gen::len16(c) - 1; break;
            case 1: hi = val(m); break;
            case 2: hi = lo + c.t.draw(6ull << 16); break;
            case 3: hi = lo; break;
            case 4: hi = lo | 0xffff; break;
            default: {  // across the edge of two buckets
                u64 e = (lo | 0xffffffffull);
                lo = e - c.t.draw(70000);
                hi = e < MAX64 ? e + c.t.draw(70000) : e;
            }
        }
        if (hi < lo && c.t.chance(4, 5)) std::swap(lo, hi);
        if (hi > lo && wide && c.t.chance(1, 2)) {
            u64 add = (1ull << 32) + c.t.draw(1ull << 33);
            hi = hi > MAX64 - add ? MAX64 : hi + add;
        }
        u64 lim = wide ? 3ull << 32 : 40ull << 16;
        if (hi > lo && hi - lo > lim) hi = lo + (hi - lo) % lim;
    }
    // a stream of m, with empty buckets in between and around
    fmt::Bytes stream(const ISet &m, u32 nholes, bool native) {
        KindPolicy pol{(int)c.t.draw(4), 0};
        if (pol.mode == 2) pol.seed = c.t.seed();
        auto parts = fmt::split64(m);
        for (u32 k = 0; k < nholes; k++) {
            u32 key;
            switch (c.t.draw(4)) {
                case 0: key = 0; break;
                case 1: key = 0xffffffffu; break;
                case 2: key = (u32)(val(m) >> 32); break;
                default: key = (u32)(val(m) >> 32) + (u32)c.t.draw(3) - 1;
            }
            size_t i = 0;
            while (i < parts.size() && parts[i].first < key) i++;
            if (i < parts.size() && parts[i].first == key) continue;
            parts.insert(parts.begin() + i, {key, ISet()});
            holes++;
        }
        fmt::Bytes b;
        fmt::put64(b, parts.size());
        for (auto &p : parts) {
            fmt::put32(b, p.first);
            if (native) b.push_back(2);
            fmt::Bytes x = fmt::encode32(p.second, pol);
            b.insert(b.end(), x.begin(), x.end());
        }
        return b;
    }
    Roaring64Map build(const ISet &m) {
        size_t route = c.t.pick({3, 3, 5, 1});
        if (m.card() > 50000 && (route == 0 || route == 3)) route = 1;
        if (wide) route = 1;
        Roaring64Map r;
        r.setCopyOnWrite(cow);
        switch (route) {
            case 0: {
                auto v = m.values(m.card());
                if (c.t.draw(2)) { r.addMany(v.size(), v.data()); }
                else { Roaring64Map q(v.size(), v.data()); r = std::move(q); }
                break;
            }
            case 1: for (auto &iv : m.v) r.addRangeClosed(iv.lo, iv.hi); break;
            case 2: {
                fmt::Bytes b = stream(m, c.t.chance(1, 2) ? 1 + (u32)c.t.draw(3) : 0, false);
                r = Roaring64Map::readSafe((const char *)b.data(), b.size());
                break;
            }
            default: for (auto &iv : m.v) for (u64 x = iv.lo;; x++) { r.add(x); if (x == iv.hi) break; }
        }
        r.setCopyOnWrite(cow);
        switch (c.t.pick({6, 3, 1})) {
            case 1: r.runOptimize(); break;
            case 2: r.shrinkToFit(); break;
            default: break;
        }
        return r;
    }
    void put(Roaring64Map &&r, const ISet &m) {
        r.setCopyOnWrite(!cow);
        r.setCopyOnWrite(cow);
        if (s.size() < 4) {
            s.push_back({std::unique_ptr<Roaring64Map>(new Roaring64Map(std::move(r))), m});
            touched = (int)s.size() - 1;
        } else {
            size_t i = c.t.draw(s.size());
            s[i].r.reset(new Roaring64Map(std::move(r)));
            s[i].m = m;
            touched = (int)i;
        }
    }
    ISet fresh_set() {
        if (wide) {
            ISet m;
            for (u32 i = 0, n = 1 + (u32)c.t.draw(3); i < n; i++) { u64 lo, hi; range(m, lo, hi); if (hi >= lo) m.add(lo, hi); }
            return m;
        }
        return gen::set64(c, pool);
    }
    void start(size_t n) {
        for (size_t i = 0; i < n; i++) {
            ISet m = wide ? fresh_set() : i && c.t.draw(2) ? gen::related64(c, pool, s[0].m) : gen::set64(c, pool);
            c.log("M%zu=%s", i, m.str(3).c_str());
            put(build(m), m);
        }
    }
    // does the stream of r hold a run container / one that may not be a run
    static bool has_runs(const Roaring64Map &r) {
        std::string b(r.getSizeInBytes(), '\0');
        r.write(&b[0]);
        size_t at = 8;
        while (at < b.size()) {
            at += 4;
            u32 cookie;
            memcpy(&cookie, &b[at], 4);
            if ((cookie & 0xffff) == 12347) return true;
            at += roaring_bitmap_portable_deserialize_size(&b[at], b.size() - at);
        }
        return false;
    }
    enum { ADD, ADD32, ADDC, ADDC32, REM, REM32, REMC, REMC32, MANY, MANY32, RANGE, RANGEC, RANGEC32, RRANGE, RRANGEC, RRANGEC32, FLIP, FLIPC, FLIPC32, CLEAR, RUNOPT, RMRUN, SHRINK,
           IAND, IOR, ISUB, IXOR, AND, OR, SUB, XOR, CCTOR, CASSIGN, MCTOR, MASSIGN, SWAP, SSWAP, LISTS, FROM32, FASTU, WRITE, VIEW, FRESH, DROP, NOPS };
    static const char *name(size_t o) {
        static const char *nm[] = {"add", "add(32)", "addChecked", "addChecked(32)", "remove", "remove(32)", "removeChecked", "removeChecked(32)", "addMany", "addMany(32)", "addRange", "addRangeClosed", "addRangeClosed(32)", "removeRange", "removeRangeClosed", "removeRangeClosed(32)",
            "flip", "flipClosed", "flipClosed(32)", "clear", "runOptimize", "removeRunCompression", "shrinkToFit", "&=", "|=", "-=", "^=", "&", "|", "-", "^", "copy_constructor", "copy_assignment", "move_constructor", "move_assignment", "swap", "std_swap", "list_constructors",
            "from_Roaring", "fastunion", "write_read", "views", "fresh", "drop"};
        return nm[o];
    }
    void step() {
        steps++;
        size_t i = c.t.draw(s.size()), j = c.t.draw(s.size());
        Roaring64Map &r = *s[i].r;
        ISet &m = s[i].m;
        touched = (int)i;
        size_t o = c.t.pick({2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 3, 3, 2, 3, 4, 2, 2, 3, 2, 1, 2, 1, 1, 3, 3, 3, 3, 2, 2, 2, 2, 2, 4, 2, 2, 2, 1, 1, 1, 2, 2, 2, 3, 1});
        if (wide && c.t.chance(2, 3)) {  // mostly ranges over several buckets
            static const size_t W[] = {FLIPC, FLIP, RANGEC, RANGE, RRANGEC, RRANGE};
            o = W[c.t.pick({3, 2, 1, 1, 1, 1})];
        }
        last = name(o);
        c.count(name(o));
        ISet before = m;
        switch (o) {
            case ADD: { u64 x = val(m); c.log("add M%zu %llu", i, (ull)x); r.add(x); m.add(x); break; }
            case ADD32: { u32 x = val32(m); c.log("add32 M%zu %u", i, x); r.add(x); m.add(x); break; }
            case ADDC: { u64 x = val(m); c.log("addChecked M%zu %llu", i, (ull)x); bool e = m.add(x); PCHECK(c, r.addChecked(x) == e, "addChecked(%llu) should be %d", (ull)x, e); break; }
            case ADDC32: { u32 x = val32(m); c.log("addChecked32 M%zu %u", i, x); bool e = m.add(x); PCHECK(c, r.addChecked(x) == e, "addChecked(uint32 %u) should be %d", x, e); break; }
            case REM: { u64 x = val(m); c.log("remove M%zu %llu", i, (ull)x); r.remove(x); m.remove(x); break; }
            case REM32: { u32 x = val32(m); c.log("remove32 M%zu %u", i, x); r.remove(x); m.remove(x); break; }
            case REMC: { u64 x = val(m); c.log("removeChecked M%zu %llu", i, (ull)x); bool e = m.remove(x); PCHECK(c, r.removeChecked(x) == e, "removeChecked(%llu) should be %d", (ull)x, e); break; }
            case REMC32: { u32 x = val32(m); c.log("removeChecked32 M%zu %u", i, x); bool e = m.remove(x); PCHECK(c, r.removeChecked(x) == e, "removeChecked(uint32 %u) should be %d", x, e); break; }
            case MANY: {
                std::vector<u64> v;
                for (u32 k = 0, n = (u32)c.t.draw(30); k < n; k++) v.push_back(!v.empty() && c.t.chance(1, 4) ? v.back() + 1 : val(m));
                c.log("addMany M%zu %zu", i, v.size());
                r.addMany(v.size(), v.data());
                for (u64 x : v) m.add(x);
                break;
            }
            case MANY32: {
                std::vector<u32> v;
                for (u32 k = 0, n = (u32)c.t.draw(8); k < n; k++) v.push_back(val32(m));
                c.log("addMany32 M%zu %zu", i, v.size());
                r.addMany(v.size(), v.data());
                for (u32 x : v) m.add(x);
                if (v.empty()) holes++;
                break;
            }
            case RANGE: case RRANGE: case FLIP: {  // half open
                u64 lo, hi;
                range(m, lo, hi);
                c.log("%s M%zu %llu %llu", name(o), i, (ull)lo, (ull)hi);
                if (o == RANGE) r.addRange(lo, hi); else if (o == RRANGE) r.removeRange(lo, hi); else r.flip(lo, hi);
                if (hi > lo) { if (o == RANGE) m.add(lo, hi - 1); else if (o == RRANGE) m.remove(lo, hi - 1); else m.flip(lo, hi - 1); }
                break;
            }
            case RANGEC: case RRANGEC: case FLIPC: {
                u64 lo, hi;
                range(m, lo, hi);
                if (o == RRANGEC && c.t.chance(1, 3)) {  // removal may be as wide as wanted
                    hi = val(m);
                    if (hi < lo) std::swap(lo, hi);
                }
                c.log("%s M%zu %llu %llu", name(o), i, (ull)lo, (ull)hi);
                if (o == RANGEC) r.addRangeClosed(lo, hi); else if (o == RRANGEC) r.removeRangeClosed(lo, hi); else r.flipClosed(lo, hi);
                if (hi >= lo) { if (o == RANGEC) m.add(lo, hi); else if (o == RRANGEC) m.remove(lo, hi); else m.flip(lo, hi); }
                break;
            }
            case RANGEC32: case RRANGEC32: case FLIPC32: {
                u32 lo = val32(m), hi;
                u64 h = lo + c.t.draw(c.t.chance(1, 2) ? 300 : 200000);
                hi = h > MAX32 ? (u32)MAX32 : (u32)h;
                if (c.t.chance(1, 6)) { std::swap(lo, hi); if (hi < lo) holes++; }
                c.log("%s M%zu %u %u", name(o), i, lo, hi);
                if (o == RANGEC32) r.addRangeClosed(lo, hi); else if (o == RRANGEC32) r.removeRangeClosed(lo, hi); else r.flipClosed(lo, hi);
                if (hi >= lo) { if (o == RANGEC32) m.add(lo, hi); else if (o == RRANGEC32) m.remove(lo, hi); else m.flip(lo, hi); }
                break;
            }
            case CLEAR: c.log("clear M%zu", i); r.clear(); m.clear(); break;
            case RUNOPT: {
                c.log("runOptimize M%zu", i);
                bool g = r.runOptimize(), h = has_runs(r);
                PCHECK(c, g == h, "runOptimize reports %d, but the result %s a run container", g, h ? "has" : "does not have");
                break;
            }
            case RMRUN: {
                c.log("removeRunCompression M%zu", i);
                bool h = has_runs(r), g = r.removeRunCompression();
                PCHECK(c, g == h && !has_runs(r), "removeRunCompression reports %d, run containers were %s", g, h ? "present" : "absent");
                break;
            }
            case SHRINK: c.log("shrinkToFit M%zu", i); r.shrinkToFit(); break;
            case IAND: case IOR: case ISUB: case IXOR: {
                c.log("M%zu %s M%zu", i, name(o), j);
                ISet w = ISet::op(m, s[j].m, (int)(o - IAND));
                Roaring64Map &q = *s[j].r;
                Roaring64Map *ret = o == IAND ? &(r &= q) : o == IOR ? &(r |= q) : o == ISUB ? &(r -= q) : &(r ^= q);
                PCHECK(c, ret == &r, "%s returns another object", name(o));
                if (i == j) self_ops++;
                m = w;
                break;
            }
            case AND: case OR: case SUB: case XOR: {
                c.log("M%zu %s M%zu", i, name(o), j);
                ISet w = ISet::op(m, s[j].m, (int)(o - AND));
                Roaring64Map &q = *s[j].r;
                put(o == AND ? r & q : o == OR ? r | q : o == SUB ? r - q : r ^ q, w);
                break;
            }
            case CCTOR: {
                c.log("copy M%zu", i);
                Roaring64Map q(r);
                PCHECK(c, q.getCopyOnWrite() == cow, "a copy has another copy-on-write setting");
                ISet w = m;
                put(std::move(q), w);
                break;
            }
            case CASSIGN: {
                c.log("M%zu = M%zu", i, j);
                r = *s[j].r;
                if (i == j) self_ops++;
                else m = ISet(s[j].m);
                break;
            }
            case MCTOR: {
                c.log("move-construct from M%zu", i);
                Roaring64Map q(std::move(r));
                ISet w = m;
                PCHECK(c, r.isEmpty() && r.cardinality() == 0 && r.begin() == r.end(), "a moved-from map is not empty");
                m.clear();
                if (c.t.draw(2)) { u64 x = val(w); r.add(x); m.add(x); }
                put(std::move(q), w);
                break;
            }
            case MASSIGN: {
                if (i == j) break;
                c.log("M%zu = move(M%zu)", i, j);
                r = std::move(*s[j].r);
                m = s[j].m;
                s[j].r->clear();
                s[j].m.clear();
                break;
            }
            case SWAP: case SSWAP: {
                c.log("swap M%zu M%zu", i, j);
                if (o == SWAP) r.swap(*s[j].r); else if (i != j) std::swap(r, *s[j].r);
                if (i != j) std::swap(m, s[j].m);
                expect_map(c, *s[j].r, s[j].m, "after a swap");
                break;
            }
            case LISTS: {
                u64 a = val(m), b = val(m), d = val(m);
                ISet w;
                w.add(a); w.add(b); w.add(d);
                c.log("constructors {%llu,%llu,%llu}", (ull)a, (ull)b, (ull)d);
                Roaring64Map x = {a, b, d}, y = Roaring64Map::bitmapOf(3, a, b, d), z = Roaring64Map::bitmapOfList({a, b, d});
                u64 v[] = {a, b, d, a};
                Roaring64Map u(4, v), e((size_t)0, (const u64 *)nullptr), f, g;
                g.add(d);
                g = {a, b, d};
                PCHECK(c, x == y && y == z && z == u && g == x && e == f && e.isEmpty(), "constructors disagree");
                std::string str = x.toString(), want = "{";
                for (auto &iv : w.v) for (u64 k = iv.lo;; k++) { want += (want.size() > 1 ? "," : "") + std::to_string(k); if (k == iv.hi) break; }
                want += "}";
                PCHECK(c, str == want, "toString gives %s, expected %s", str.c_str(), want.c_str());
                PCHECK(c, f.toString() == "{}", "toString of an empty map gives %s", f.toString().c_str());
                std::string out = text::captured([&] { x.printf(); });
                PCHECK(c, out == want + "\n", "printf gives %s, expected %s", out.c_str(), want.c_str());
                u32 v32[] = {(u32)a, (u32)b};
                Roaring64Map t((size_t)2, v32);
                ISet w32;
                w32.add((u32)a); w32.add((u32)b);
                expect_map(c, t, w32, "constructed from 32-bit values");
                put(std::move(x), w);
                break;
            }
            case FROM32: {
                gen::Pool p = gen::pool32(c, 3);
                ISet w = c.t.chance(1, 3) ? ISet() : gen::set_of_pool(c, p);
                if (w.empty()) holes++;
                c.log("from Roaring %s", w.str(3).c_str());
                RB *t = build32(c, w, cow);
                if (c.t.draw(2)) {
                    Roaring q(t);
                    if (c.t.draw(2)) put(Roaring64Map(q), w); else put(Roaring64Map(std::move(q)), w);
                } else put(Roaring64Map(t), w);
                break;
            }
            case FASTU: {
                std::vector<const Roaring64Map *> v;
                ISet w;
                for (u32 k = 0, n = (u32)c.t.draw(c.t.chance(1, 12) && !wide ? 40 : 6); k < n; k++) {
                    size_t q = c.t.draw(s.size());
                    v.push_back(s[q].r.get());
                    w = ISet::op(w, s[q].m, 1);
                }
                c.log("fastunion of %zu", v.size());
                put(Roaring64Map::fastunion(v.size(), v.data()), w);
                break;
            }
            case WRITE: {
                bool portable = c.t.draw(2);
                size_t n = r.getSizeInBytes(portable);
                c.log("write/read M%zu portable=%d", i, portable);
                Guard g(n);
                PCHECK(c, r.write(g.p, portable) == n, "write returned another length than getSizeInBytes");
                g.readonly();
                if (portable) {
                    ISet d;
                    size_t used = 0;
                    std::string err = fmt::decode64((const u8 *)g.p, n, &d, &used, true);
                    PCHECK(c, err.empty() && used == n && d == m, "the stream: %s, %zu of %zu bytes, denotes %s, expected %s", err.c_str(), used, n, d.str().c_str(), m.str().c_str());
                }
                ISet w = m;
                if (portable && c.t.draw(2)) put(Roaring64Map::readSafe(g.p, n), w);
                else put(Roaring64Map::read(g.p, portable), w);
                break;
            }
            case VIEW: {
                bool fr = c.t.draw(2);
                c.log("view M%zu frozen=%d", i, fr);
                fmt::Bytes b;
                if (!fr && c.t.draw(2)) b = stream(m, (u32)c.t.draw(3), false);
                size_t n = fr ? r.getFrozenSizeInBytes() : b.empty() ? r.getSizeInBytes() : b.size();
                Guard g(n + (fr ? (32 - n % 32) % 32 : 0), fr ? 32 : 1);
                if (fr) r.writeFrozen(g.p); else if (b.empty()) r.write(g.p); else memcpy(g.p, b.data(), n);
                g.readonly();
                const Roaring64Map v = fr ? Roaring64Map::frozenView(g.p) : Roaring64Map::portableDeserializeFrozen(g.p);
                expect_map(c, v, m, fr ? "frozenView" : "portableDeserializeFrozen");
                PCHECK(c, v == r && r == v, "a view does not equal its source");
                PCHECK(c, (v & r) == r && (v | r) == r && (v ^ r).isEmpty() && (r - v).isEmpty(), "operators with a view");
                Roaring64Map q(v);
                ISet w = m;
                put(std::move(q), w);
                break;
            }
            case FRESH: {
                ISet w = wide ? fresh_set() : gen::related64(c, pool, m);
                c.log("fresh %s", w.str(3).c_str());
                put(build(w), w);
                break;
            }
            case DROP:
                if (s.size() > 1) {
                    c.log("drop M%zu", i);
                    s.erase(s.begin() + i);
                    touched = -1;
                    return;
                }
                break;
        }
        if (i < s.size() && !(before == s[i].m)) changed++;
    }
    void ask() {
        size_t i = c.t.draw(s.size()), j = c.t.draw(s.size());
        const Roaring64Map &r = *s[i].r, &q = *s[j].r;
        const ISet &m = s[i].m, &n = s[j].m;
        u64 card = m.card();
        u64 x = val(m);
        u32 y = val32(m);
        c.log("ask M%zu M%zu %llu", i, j, (ull)x);
        PCHECK(c, r.contains(x) == m.contains(x), "contains(%llu)", (ull)x);
        PCHECK(c, r.contains(y) == m.contains(y), "contains(uint32 %u)", y);
        PCHECK(c, r.isEmpty() == m.empty() && !r.isFull(), "isEmpty/isFull");
        PCHECK(c, r.minimum() == (m.empty() ? MAX64 : m.min()) && r.maximum() == (m.empty() ? 0 : m.max()), "minimum/maximum: %llu %llu", (ull)r.minimum(), (ull)r.maximum());
        PCHECK(c, r.rank(x) == m.rank(x), "rank(%llu)", (ull)x);
        PCHECK(c, r.getIndex(x) == (m.contains(x) ? (int64_t)m.rank(x) - 1 : -1), "getIndex(%llu)", (ull)x);
        u64 k = c.t.chance(1, 5) ? card + c.t.draw(2) : card ? c.t.draw(card) : 0, e = 0, g = 0;
        bool ok = m.select(k, &e);
        PCHECK(c, r.select(k, &g) == ok && (!ok || g == e), "select(%llu)", (ull)k);
        ISet d = ISet::op(m, n, 2), z = ISet::op(n, m, 2);
        PCHECK(c, r.isSubset(q) == d.empty(), "isSubset should be %d", d.empty());
        PCHECK(c, r.isStrictSubset(q) == (d.empty() && !z.empty()), "isStrictSubset should be %d", d.empty() && !z.empty());
        PCHECK(c, (r == q) == (d.empty() && z.empty()), "operator== should be %d", d.empty() && z.empty());
        if (!m.empty()) {
            MapWalk w = {&m, 0, m.v[0].lo, 0, true, 1 + c.t.draw(std::min<u64>(card, 3000))};
            r.iterate(map_walk_cb, &w);
            PCHECK(c, w.ok && w.n == w.stop, "iterate stopped after %llu of %llu", (ull)w.n, (ull)w.stop);
        }
    }
    void walk() {
        size_t i = c.t.draw(s.size());
        const Roaring64Map &r = *s[i].r;
        const ISet &m = s[i].m;
        u64 card = m.card();
        c.log("walk M%zu", i);
        if (card <= 3000) {
            size_t k = 0;
            auto v = m.values(card);
            for (u64 x : r) { PCHECK(c, k < v.size() && x == v[k], "range-for item %zu is %llu", k, (ull)x); k++; }
            PCHECK(c, k == v.size(), "range-for visited %zu of %zu", k, v.size());
            auto it = r.end();
            for (; k > 0; k--) {
                if (k % 3 == 0) it--; else --it;
                PCHECK(c, *it == v[k - 1], "backward item %zu is %llu, expected %llu", k - 1, (ull)*it, (ull)v[k - 1]);
            }
            if (!v.empty()) PCHECK(c, it == r.begin(), "walking back does not lead to begin()");
        }
        auto a = r.begin(), b = r.end();
        bool ea = m.empty(), eb = true;
        u64 pa = ea ? 0 : m.min(), pb = 0;
        for (u32 k = 0, n = 1 + (u32)c.t.draw(14); k < n; k++) {
            auto &it = c.t.draw(2) ? b : a;
            bool &e = &it == &b ? eb : ea;
            u64 &p = &it == &b ? pb : pa;
            auto fwd = [&] { u64 y; if (p < MAX64 && m.next(p + 1, &y)) p = y; else e = true; };
            switch (c.t.draw(6)) {
                case 0: if (!e) { c.log("++"); ++it; fwd(); } break;
                case 1: if (!e) { c.log("it++"); auto old = it++; PCHECK(c, *old == p, "it++ should give the old position"); fwd(); } break;
                case 2: case 3: {
                    bool post = c.t.draw(2);
                    if (e ? m.empty() : p <= m.min()) break;
                    u64 y = 0;
                    if (e) y = m.max(); else m.prev(p - 1, &y);
                    c.log(post ? "it--" : "--it");
                    if (post) {
                        auto old = it--;
                        if (e) PCHECK(c, old == r.end(), "it-- from the end should give the end");
                        else PCHECK(c, *old == p, "it-- should give the old position");
                    } else --it;
                    e = false;
                    p = y;
                    break;
                }
                default: {
                    u64 x = val(m), y;
                    bool ok = m.next(x, &y);
                    c.log("move_equalorlarger %llu", (ull)x);
                    bool got = c.t.chance(1, 4) ? it.move(x) : it.move_equalorlarger(x);
                    PCHECK(c, got == ok, "move_equalorlarger(%llu) should be %d", (ull)x, ok);
                    if (ok) { e = false; p = y; } else e = true;
                }
            }
            PCHECK(c, (a == r.end()) == ea && (b != r.end()) == !eb && (r.end() == b) == eb && (r.end() != a) == !ea, "comparison with end()");
            if (!ea) PCHECK(c, *a == pa, "iterator stands on %llu, expected %llu", (ull)*a, (ull)pa);
            if (!eb) PCHECK(c, *b == pb, "iterator stands on %llu, expected %llu", (ull)*b, (ull)pb);
            bool eq = ea == eb && (ea || pa == pb), lt = ea ? false : eb ? true : pa < pb;
            PCHECK(c, (a == b) == eq && (a != b) == !eq && (b == a) == eq, "iterator equality should be %d (end %d %d)", eq, ea, eb);
            PCHECK(c, (a < b) == lt && (b > a) == lt && (a >= b) == !lt && (b <= a) == !lt, "iterator order should be %d", lt);
        }
    }
    void check_all(const char *what) {
        for (auto &x : s) expect_map(c, *x.r, x.m, what);
    }
};
