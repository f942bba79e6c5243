// A state machine over C++ Roaring objects and their models.
#pragma once
#include "text.h"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include "queries32.h"
#include "guard.h"
#include "roaring.hh"
#include <cmath>
#include <memory>
using roaring::BulkContext;
using roaring::Roaring;

struct Mach19 {
    Ctx &c;
    gen::Pool pool;
    bool cow = false;
    struct Slot { std::unique_ptr<Roaring> r; ISet m; };
    std::vector<Slot> s;
    int touched = -1;
    u64 steps = 0, changed = 0, value_ops = 0;
    std::string last;
    explicit Mach19(Ctx &c_) : c(c_) {}
    typedef unsigned long long ull;

    u32 val(const ISet &m) { return (u32)gen::near(c, m, pool, MAX32); }
    void range(const ISet &m, u64 &lo, u64 &hi) {  // half-open in [0, 2^32]
        if (c.t.chance(1, 5) && gen::steer(c, m, pool, (int)c.t.draw(3), lo, hi)) {
            hi = std::min(hi, MAX32) + 1;
            return;
        }
        lo = gen::near(c, m, pool, MAX32);
        switch (c.t.pick({4, 3, 1, 1, 1})) {
            case 0: hi = lo + gen::len16(c); break;
            case 1: hi = gen::near(c, m, pool, MAX32); break;
            case 2: hi = lo + c.t.draw(6ull << 16); break;
            case 3: hi = lo; break;
            default: hi = (lo | 0xffff) + 1;
        }
        if (hi > MAX32 + 1) hi = MAX32 + 1;
        if (hi > lo && hi - lo > (40ull << 16)) hi = lo + (hi - lo) % (40ull << 16);
    }
    Roaring wrap(const ISet &m) {  // adopts a C bitmap
        RB *r = build32(c, m, cow);
        return Roaring(r);
    }
    void put(Roaring &&r, const ISet &m) {
        if (r.getCopyOnWrite() != cow) r.setCopyOnWrite(cow);
        if (s.size() < 4) {
            s.push_back({std::unique_ptr<Roaring>(new Roaring(std::move(r))), m});
            touched = (int)s.size() - 1;
        } else {
            size_t i = c.t.draw(s.size());
            s[i].r.reset(new Roaring(std::move(r)));
            s[i].m = m;
            touched = (int)i;
        }
    }
    void start(size_t n) {
        for (size_t i = 0; i < n; i++) {
            ISet m = i && c.t.draw(2) ? gen::related(c, pool, s[0].m) : gen::set32(c, pool);
            c.log("R%zu=%s", i, m.str(3).c_str());
            put(wrap(m), m);
        }
    }
    static bool it_cb(u32 v, void *p) { ((std::vector<u32> *)p)->push_back(v); return true; }
    void step() {
        steps++;
        size_t i = c.t.draw(s.size()), j = c.t.draw(s.size());
        Roaring &r = *s[i].r;
        ISet &m = s[i].m;
        touched = (int)i;
        static const char *nm[] = {"add", "addChecked", "remove", "removeChecked", "addMany", "addRange", "addRangeClosed", "removeRange", "removeRangeClosed", "flip", "flipClosed", "clear", "runOptimize", "removeRunCompression", "shrinkToFit", "addBulk",
                                   "&=", "|=", "-=", "^=", "&", "|", "-", "^", "copy_constructor", "copy_assignment", "move_constructor", "move_assignment", "swap", "std_swap", "init_list_assignment", "list_constructors", "fastunion", "write_read", "frozen", "fresh", "drop", "destroy_order"};
        enum { ADD, ADDC, REM, REMC, MANY, ARANGE, ARANGEC, RRANGE, RRANGEC, FLIP, FLIPC, CLEAR, RUNOPT, RMRUN, SHRINK, BULK, IAND, IOR, ISUB, IXOR, AND, OR, SUB, XOR, CCTOR, CASSIGN, MCTOR, MASSIGN, SWAP, SSWAP, ILA, LISTS, FASTU, WRITE, FROZEN, FRESH, DROP };
        size_t o = c.t.pick({2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 1, 1, 2, 3, 3, 3, 3, 2, 2, 2, 2, 3, 6, 2, 3, 3, 1, 1, 2, 2, 2, 2, 2, 1});
        last = nm[o];
        c.count(nm[o]);
        ISet before = m;
        switch (o) {
            case ADD: { u32 x = val(m); c.log("add R%zu %u", i, x); r.add(x); m.add(x, x); break; }
            case ADDC: { u32 x = val(m); c.log("addChecked R%zu %u", i, x); bool e = !m.contains(x); PCHECK(c, r.addChecked(x) == e, "addChecked(%u) should be %d", x, e); m.add(x, x); break; }
            case REM: { u32 x = val(m); c.log("remove R%zu %u", i, x); r.remove(x); m.remove(x, x); break; }
            case REMC: { u32 x = val(m); c.log("removeChecked R%zu %u", i, x); bool e = m.contains(x); PCHECK(c, r.removeChecked(x) == e, "removeChecked(%u) should be %d", x, e); m.remove(x, x); break; }
            case MANY: {
                std::vector<u32> v;
                for (u32 k = 0, n = (u32)c.t.draw(30); k < n; k++) v.push_back(val(m));
                c.log("addMany R%zu %zu", i, v.size());
                r.addMany(v.size(), v.data());
                for (u32 x : v) m.add(x, x);
                break;
            }
            case ARANGE: case RRANGE: case FLIP: {
                u64 lo, hi;
                range(m, lo, hi);
                c.log("%s R%zu %llu %llu", nm[o], i, (ull)lo, (ull)hi);
                if (o == ARANGE) r.addRange(lo, hi); else if (o == RRANGE) r.removeRange(lo, hi); else r.flip(lo, hi);
                if (hi > lo) { if (o == ARANGE) m.add(lo, hi - 1); else if (o == RRANGE) m.remove(lo, hi - 1); else m.flip(lo, hi - 1); }
                break;
            }
            case ARANGEC: case RRANGEC: case FLIPC: {
                u64 lo, hi;
                range(m, lo, hi);
                if (hi > MAX32) hi = MAX32;
                c.log("%s R%zu %llu %llu", nm[o], i, (ull)lo, (ull)hi);
                if (o == ARANGEC) r.addRangeClosed((u32)lo, (u32)hi); else if (o == RRANGEC) r.removeRangeClosed((u32)lo, (u32)hi); else r.flipClosed((u32)lo, (u32)hi);
                if (hi >= lo) { if (o == ARANGEC) m.add(lo, hi); else if (o == RRANGEC) m.remove(lo, hi); else m.flip(lo, hi); }
                break;
            }
            case CLEAR: c.log("clear R%zu", i); r.clear(); m.clear(); if (r.getCopyOnWrite() != cow) r.setCopyOnWrite(cow); break;
            case RUNOPT: { c.log("runOptimize R%zu", i); bool g = r.runOptimize(); PCHECK(c, g == (mix_of(&r.roaring).r > 0), "runOptimize should report %d", !g); break; }
            case RMRUN: { c.log("removeRunCompression R%zu", i); bool h = mix_of(&r.roaring).r > 0; PCHECK(c, r.removeRunCompression() == h, "removeRunCompression should report %d", h); break; }
            case SHRINK: c.log("shrinkToFit R%zu", i); r.shrinkToFit(); break;
            case BULK: {
                BulkContext x;
                u32 n = 1 + (u32)c.t.draw(12);
                c.log("addBulk R%zu x%u", i, n);
                for (u32 k = 0; k < n; k++) {
                    u32 y = val(m);
                    if (c.t.chance(1, 4)) {
                        PCHECK(c, r.containsBulk(x, y) == m.contains(y), "containsBulk(%u)", y);
                    } else {
                        r.addBulk(x, y);
                        m.add(y, y);
                        if (c.t.chance(1, 8)) { BulkContext z(std::move(x)); x = std::move(z); }
                    }
                }
                break;
            }
            case IAND: case IOR: case ISUB: case IXOR: {
                c.log("R%zu %s R%zu", i, nm[o], j);
                static const int K[] = {0, 1, 2, 3};
                ISet w = ISet::op(m, s[j].m, K[o - IAND]);
                Roaring &q = *s[j].r;
                Roaring *ret = o == IAND ? &(r &= q) : o == IOR ? &(r |= q) : o == ISUB ? &(r -= q) : &(r ^= q);
                PCHECK(c, ret == &r, "%s returns another object", nm[o]);
                m = w;
                if (i == j) c.count("self_operations");
                break;
            }
            case AND: case OR: case SUB: case XOR: {
                c.log("R%zu %s R%zu", i, nm[o], j);
                static const int K[] = {0, 1, 2, 3};
                ISet w = ISet::op(m, s[j].m, K[o - AND]);
                Roaring &q = *s[j].r;
                put(o == AND ? r & q : o == OR ? r | q : o == SUB ? r - q : r ^ q, w);
                break;
            }
            case CCTOR: {
                c.log("copy R%zu", i);
                value_ops++;
                Roaring q(r);
                PCHECK(c, q.getCopyOnWrite() == cow, "a copy has another copy-on-write setting");
                ISet w = m;
                put(std::move(q), w);
                break;
            }
            case CASSIGN: {
                c.log("R%zu = R%zu", i, j);
                value_ops++;
                Roaring *ret = &(r = *s[j].r);
                PCHECK(c, ret == &r, "assignment returns another object");
                if (i == j) c.count("self_assignments");
                else m = ISet(s[j].m);
                break;
            }
            case MCTOR: {
                c.log("move-construct from R%zu", i);
                value_ops++;
                Roaring q(std::move(r));
                ISet w = m;
                PCHECK(c, r.isEmpty() && r.cardinality() == 0, "a moved-from object is not empty");
                r.setCopyOnWrite(cow);
                m.clear();
                if (c.t.draw(2)) { r.add(5); m.add(5, 5); }
                put(std::move(q), w);
                break;
            }
            case MASSIGN: {
                if (i == j) break;
                c.log("R%zu = move(R%zu)", i, j);
                value_ops++;
                r = std::move(*s[j].r);
                m = s[j].m;
                s[j].m.clear();
                s[j].r->setCopyOnWrite(cow);
                expect32(c, &s[j].r->roaring, s[j].m, "a moved-from object");
                break;
            }
            case SWAP: case SSWAP: {
                c.log("swap R%zu R%zu", i, j);
                value_ops++;
                if (o == SWAP) r.swap(*s[j].r); else if (i != j) std::swap(r, *s[j].r);
                if (i != j) std::swap(m, s[j].m);
                expect32(c, &s[j].r->roaring, s[j].m, "after a swap");
                break;
            }
            case ILA: {
                u32 a = val(m), b = val(m);
                c.log("R%zu = {%u,%u,9}", i, a, b);
                value_ops++;
                r = {a, b, 9u};
                r.setCopyOnWrite(cow);
                m.clear();
                m.add(a, a); m.add(b, b); m.add(9, 9);
                break;
            }
            case LISTS: {
                u32 a = val(m), b = val(m), d = val(m);
                ISet w;
                w.add(a, a); w.add(b, b); w.add(d, d);
                c.log("constructors {%u,%u,%u}", a, b, d);
                Roaring x = {a, b, d}, y = Roaring::bitmapOf(3, a, b, d), z = Roaring::bitmapOfList({a, b, d});
                u32 v[] = {a, b, d, a};
                Roaring u(4, v), e(0, nullptr), f;
                PCHECK(c, x == y && y == z && z == u && e == f && e.isEmpty(), "constructors disagree");
                std::string str = x.toString(), want = "{";
                for (auto &iv : w.v) for (u64 k = iv.lo; k <= iv.hi; k++) want += (want.size() > 1 ? "," : "") + std::to_string(k);
                want += "}";
                PCHECK(c, str == want, "toString gives %s, expected %s", str.c_str(), want.c_str());
                PCHECK(c, f.toString() == "{}", "toString of an empty object gives %s", f.toString().c_str());
                std::string out = text::captured([&] { x.printf(); });
                PCHECK(c, out == want, "printf gives %s, expected %s", out.c_str(), want.c_str());
                put(std::move(x), w);
                break;
            }
            case FASTU: {
                std::vector<const Roaring *> v;
                ISet w;
                for (u32 k = 0, n = (u32)c.t.draw(5); k < n; k++) {
                    size_t q = c.t.draw(s.size());
                    v.push_back(s[q].r.get());
                    w = ISet::op(w, s[q].m, 1);
                }
                c.log("fastunion of %zu", v.size());
                put(Roaring::fastunion(v.size(), v.data()), w);
                break;
            }
            case WRITE: {
                bool portable = c.t.draw(2);
                size_t n = r.getSizeInBytes(portable);
                c.log("write/read R%zu portable=%d", i, portable);
                Guard g(n);
                PCHECK(c, r.write(g.p, portable) == n, "write returned another length than getSizeInBytes");
                g.readonly();
                ISet w = m;
                if (portable && c.t.draw(2)) put(Roaring::readSafe(g.p, n), w);
                else put(Roaring::read(g.p, portable), w);
                break;
            }
            case FROZEN: {
                bool fr = c.t.draw(2);
                c.log("view R%zu frozen=%d", i, fr);
                size_t n = fr ? r.getFrozenSizeInBytes() : r.getSizeInBytes();
                Guard g(n + 64, 32);
                char *at = g.p;
                if (fr) r.writeFrozen(at); else r.write(at);
                g.readonly();
                const Roaring v = fr ? Roaring::frozenView(at, n) : Roaring::portableDeserializeFrozen(at);
                expect32(c, &v.roaring, m, "a view object");
                PCHECK(c, v == r && r == v, "a view object does not equal its source");
                Roaring q(v);
                q.setCopyOnWrite(cow);
                ISet w = m;
                PCHECK(c, (v & r) == r && (v | r) == r && (v ^ r).isEmpty() && (r - v).isEmpty(), "operators with a view object");
                put(std::move(q), w);
                break;
            }
            case FRESH: {
                ISet w = gen::related(c, pool, m);
                c.log("fresh %s", w.str(3).c_str());
                put(wrap(w), w);
                break;
            }
            case DROP:
                if (s.size() > 1) {
                    c.log("drop R%zu", i);
                    s.erase(s.begin() + i);
                    touched = -1;
                    return;
                }
                break;
        }
        if (i < s.size() && !(before == s[i].m)) changed++;
    }
    void ask() {  // queries through the class
        size_t i = c.t.draw(s.size()), j = c.t.draw(s.size());
        const Roaring &r = *s[i].r, &q = *s[j].r;
        const ISet &m = s[i].m, &n = s[j].m;
        u64 card = m.card();
        u32 x = val(m);
        c.log("ask R%zu R%zu %u", i, j, x);
        PCHECK(c, r.contains(x) == m.contains(x), "contains(%u)", x);
        PCHECK(c, r.cardinality() == card && r.isEmpty() == m.empty(), "cardinality/isEmpty");
        PCHECK(c, r.isFull() == (card == MAX32 + 1), "isFull");
        PCHECK(c, r.minimum() == (m.empty() ? 0xffffffffu : (u32)m.min()) && r.maximum() == (m.empty() ? 0 : (u32)m.max()), "minimum/maximum");
        PCHECK(c, r.rank(x) == m.rank(x), "rank(%u)", x);
        PCHECK(c, r.getIndex(x) == (m.contains(x) ? (int64_t)m.rank(x) - 1 : -1), "getIndex(%u)", x);
        u64 lo, hi;
        range(m, lo, hi);
        PCHECK(c, r.containsRange(lo, hi) == (hi > lo ? m.contains_range(lo, hi - 1) : true), "containsRange(%llu,%llu)", (ull)lo, (ull)hi);
        if (hi <= MAX32) PCHECK(c, r.containsRangeClosed((u32)lo, (u32)hi) == (hi >= lo ? m.contains_range(lo, hi) : true), "containsRangeClosed(%llu,%llu)", (ull)lo, (ull)hi);
        u64 k = card ? c.t.draw(card + 1) : 0, e = 0;
        u32 g = 0;
        if (k <= MAX32) {
            bool ok = m.select(k, &e);
            PCHECK(c, r.select((u32)k, &g) == ok && (!ok || g == e), "select(%llu)", (ull)k);
        }
        u32 qs[3] = {val(m), val(m), val(m)};
        std::sort(qs, qs + 3);
        u64 ans[3];
        r.rank_many(qs, qs + 3, ans);
        for (int z = 0; z < 3; z++) PCHECK(c, ans[z] == m.rank(qs[z]), "rank_many(%u)", qs[z]);
        ISet w[4];
        for (int z = 0; z < 4; z++) w[z] = ISet::op(m, n, z);
        PCHECK(c, r.and_cardinality(q) == w[0].card() && r.or_cardinality(q) == w[1].card() && r.andnot_cardinality(q) == w[2].card() && r.xor_cardinality(q) == w[3].card(), "cardinality forms");
        PCHECK(c, r.intersect(q) == !w[0].empty(), "intersect");
        PCHECK(c, r.isSubset(q) == w[2].empty() && r.isStrictSubset(q) == (w[2].empty() && !w[3].empty()), "subset forms");
        PCHECK(c, (r == q) == w[3].empty(), "operator==");
        if (!w[1].empty()) PCHECK(c, std::fabs(r.jaccard_index(q) - (double)w[0].card() / (double)w[1].card()) < 1e-12, "jaccard_index");
        if (card <= 20000) {
            std::vector<u32> v = values32(m), a(card + 1, 0x77777777), b;
            r.toUint32Array(a.data());
            PCHECK(c, a[card] == 0x77777777 && std::equal(v.begin(), v.end(), a.begin()), "toUint32Array");
            r.iterate(it_cb, &b);
            PCHECK(c, b == v, "iterate");
            u64 off = c.t.draw(card + 2), lim = c.t.draw(40);
            std::vector<u32> p(lim + 1, 0x77777777);
            r.rangeUint32Array(p.data(), off, lim);
            for (u64 z = 0; z < lim && off + z < card; z++) PCHECK(c, p[z] == v[off + z], "rangeUint32Array[%llu]", (ull)z);
            PCHECK(c, p[lim] == 0x77777777, "rangeUint32Array wrote too much");
        }
    }
    void walk() {  // iterators
        size_t i = c.t.draw(s.size());
        const Roaring &r = *s[i].r;
        const ISet &m = s[i].m;
        u64 card = m.card();
        c.log("walk R%zu", i);
        if (card <= 5000) {
            size_t k = 0;
            auto v = values32(m);
            for (u32 x : r) { PCHECK(c, k < v.size() && x == v[k], "range-for item %zu is %u", k, x); k++; }
            PCHECK(c, k == v.size(), "range-for visited %zu of %zu", k, v.size());
            k = 0;
            for (auto it = r.begin(); it != r.end(); it++, k++) PCHECK(c, *it == v[k], "iterator item %zu", k);
            PCHECK(c, k == v.size(), "iterator visited %zu of %zu", k, v.size());
            auto last = r.begin();
            while (last != r.end()) ++last;
            for (; k > 0; k--) { --last; PCHECK(c, *last == v[k - 1], "backward item %zu is %u", k - 1, *last); }
        }
        // two iterators on generated values
        auto a = r.begin(), b = r.begin();
        bool ea = m.empty(), eb = m.empty();
        u64 pa = ea ? 0 : m.min(), pb = pa;
        for (u32 k = 0, n = 1 + (u32)c.t.draw(12); k < n; k++) {
            auto &it = c.t.draw(2) ? b : a;
            bool &e = &it == &b ? eb : ea;
            u64 &p = &it == &b ? pb : pa;
            switch (c.t.draw(5)) {
                case 0: if (!e) { ++it; u64 y; if (p < MAX32 && m.next(p + 1, &y)) p = y; else e = true; } break;
                case 1: if (!e) { auto old = it++; PCHECK(c, *old == p, "it++ should give the old position"); u64 y; if (p < MAX32 && m.next(p + 1, &y)) p = y; else e = true; } break;
                case 2: if (e && !m.empty()) { --it; e = false; p = m.max(); } else if (!e && p > m.min()) { u64 y = 0; --it; m.prev(p - 1, &y); p = y; } break;
                case 3: if (!e && p > m.min()) { u64 y = 0; auto old = it--; PCHECK(c, *old == p, "it-- should give the old position"); m.prev(p - 1, &y); p = y; } break;
                default: {
                    u32 x = val(m);
                    u64 y;
                    bool ok = m.next(x, &y);
                    if (c.t.chance(1, 4)) it.equalorlarger(x);
                    else PCHECK(c, it.move_equalorlarger(x) == ok, "move_equalorlarger(%u) should be %d", x, ok);
                    if (ok) { e = false; p = y; } else e = true;
                }
            }
            PCHECK(c, (a == r.end()) == ea && (b != r.end()) == !eb, "comparison with end()");
            if (!ea) PCHECK(c, *a == pa, "iterator stands on %u, expected %llu", *a, (ull)pa);
            if (!eb) PCHECK(c, *b == pb, "iterator stands on %u, expected %llu", *b, (ull)pb);
            bool eq = ea == eb && (ea || pa == pb), lt = ea ? false : eb ? true : pa < pb;
            PCHECK(c, (a == b) == eq && (a != b) == !eq, "iterator equality should be %d", eq);
            PCHECK(c, (a < b) == lt && (b > a) == lt && (a >= b) == !lt && (b <= a) == !lt, "iterator order should be %d", lt);
        }
    }
    void check_all(const char *what) {
        for (auto &x : s) expect32(c, &x.r->roaring, x.m, what);
    }
};
