#include "mach32.h"
#include "guard.h"
#include "ledger.h"
#include <roaring/bitset/bitset.h>
#include "roaring.hh"
#include "roaring64map.hh"
using roaring::Roaring;
using roaring::Roaring64Map;
typedef unsigned long long ull;

// Runs an operation once without faults to count its allocations, then once
// for every allocation with that one failing, and once with that one and all
// later ones failing.
struct Faults {
    Ctx &c;
    u64 k = 0, upto = 0;      // which request of the operation fails
    u64 used = 0;             // requests the armed part made
    bool hit = false;
    u64 trials = 0, failures = 0, ops = 0, points = 0;
    std::string name;
    explicit Faults(Ctx &c_) : c(c_) {}
    ledger::State &L() { return ledger::st(); }
    void arm() {
        auto &s = L();
        s.failed = false;
        used = s.serial;
        s.fail_at = k ? s.serial + k : 0;
        s.fail_upto = k ? (upto ? UINT64_MAX : s.fail_at) : 0;
    }
    void disarm() {
        auto &s = L();
        used = s.serial - used;
        s.fail_at = s.fail_upto = 0;
        hit = s.failed;
    }
    // op: performs the operation between arm() and disarm(), checks what it
    // left and gives it back; returns whether the operation reported success.
    template <class F> void run(const char *nm, F op, bool must_report = true, size_t kept = 0) {
        name = nm;
        ops++;
        c.count(nm);
        k = 0;
        bool ok = op();
        PCHECK(c, ok && !hit, "%s reports failure although no allocation failed", nm);
        u64 K = used;
        std::vector<u64> ks;
        if (K <= 24) for (u64 i = 1; i <= K; i++) ks.push_back(i);
        else {
            for (u64 i : {1, 2, 3, 4}) { ks.push_back(i); ks.push_back(K + 1 - i); }
            for (int i = 0; i < 14; i++) ks.push_back(1 + c.t.draw(K));
        }
        for (u64 i : ks)
            for (int mode = 0; mode < 2; mode++) {
                k = i;
                upto = mode;
                size_t before = L().live.size();
                trials++;
                bool r = op();
                k = 0;
                ledger::check_all();
                PCHECK(c, !L().wrong, "%s, request %llu of %llu failing%s: %s %zu", nm, (ull)i, (ull)K, mode ? " and all after it" : "", L().wrong, L().wrong_n);
                PCHECK(c, !hit || !r || !must_report, "%s reports success although request %llu of %llu failed", nm, (ull)i, (ull)K);
                PCHECK(c, hit || r, "%s reports failure although no request failed", nm);
                if (hit) failures++;
                if (!kept) PCHECK(c, L().live.size() == before, "%s, request %llu of %llu failing%s: %zu blocks are live, %zu before", nm, (ull)i, (ull)K, mode ? " and all after it" : "", L().live.size(), before);
            }
        points += K;
    }
};

static void usable(Ctx &c, RB *r, ISet m, const ISet &extra, const char *what) {
    // r takes ordinary changes
    u64 lo = extra.empty() ? 70000 : std::min<u64>(extra.min(), MAX32 - 299);
    roaring_bitmap_add_range(r, lo, lo + 300);
    m.add(lo, lo + 299);
    if (!m.empty()) { roaring_bitmap_remove(r, (u32)m.max()); m.remove(m.max()); }
    expect32(c, r, m, what);
    expect_valid(c, r, what);
}

static void bitmaps24(Ctx &c, Faults &f) {
    gen::Pool p = gen::pool32(c, 6);
    ISet ma = gen::set32(c, p), mb = gen::related(c, p, ma);
    bool cow = c.t.chance(2, 5);
    std::vector<RB *> keep;
    RB *a = build32(c, ma, cow, &keep), *b = build32(c, mb, cow, &keep);
    c.log("A=%s cow=%d", ma.str().c_str(), cow);
    auto sources = [&](const char *w) {
        expect32(c, a, ma, w);
        expect_valid(c, a, w);
        PCHECK(c, roaring_bitmap_get_copy_on_write(a) == cow, "%s: the copy-on-write flag changed", w);
        for (RB *q : keep) expect_valid(c, q, w);
    };
    std::string bytes = bytes_of(a);
    std::string native(roaring_bitmap_size_in_bytes(a), '\0');
    roaring_bitmap_serialize(a, &native[0]);
    for (int n = 2 + (int)c.t.draw(3); n--;) {
        switch (c.t.pick({2, 4, 5, 3, 1, 2, 2, 1, 1, 2, 3, 2, 2})) {
            case 0: {
                u32 cap = (u32)c.t.draw(3) ? (u32)c.t.draw(200) : (u32)c.t.draw(0x20000);
                f.run("create_with_capacity", [&] {
                    f.arm(); RB *r = roaring_bitmap_create_with_capacity(cap); f.disarm();
                    if (r) usable(c, r, ISet(), ma, "created");
                    roaring_bitmap_free(r);
                    return r != nullptr;
                });
                f.run("init_with_capacity", [&] {
                    RB r;
                    f.arm(); bool ok = roaring_bitmap_init_with_capacity(&r, cap); f.disarm();
                    if (ok) { usable(c, &r, ISet(), ma, "initialised"); roaring_bitmap_clear(&r); }
                    return ok;
                });
                break;
            }
            case 1:
                f.run("copy", [&] {
                    f.arm(); RB *r = roaring_bitmap_copy(a); f.disarm();
                    sources("source of a copy");
                    if (r) { expect32(c, r, ma, "copy"); usable(c, r, ma, mb, "copy"); }
                    roaring_bitmap_free(r);
                    sources("source of a copy that was freed");
                    return r != nullptr;
                }, true, cow);
                break;
            case 2:
                f.run("overwrite", [&] {
                    RB *d = roaring_bitmap_copy(b);
                    f.arm(); bool ok = roaring_bitmap_overwrite(d, a); f.disarm();
                    sources("source of overwrite");
                    expect32(c, d, ok ? ma : ISet(), ok ? "overwritten" : "after a failed overwrite");
                    expect_valid(c, d, "after overwrite");
                    if (c.t.draw(2)) usable(c, d, ok ? ma : ISet(), mb, "overwritten, then changed");
                    bool again = roaring_bitmap_overwrite(d, a);
                    PCHECK(c, again, "overwrite fails without faults");
                    expect32(c, d, ma, "overwritten again");
                    roaring_bitmap_free(d);
                    sources("source of overwrite, destination freed");
                    expect32(c, b, mb, "bitmap sharing with the destination");
                    return ok;
                }, true, cow);
                break;
            case 3: {
                size_t which = c.t.draw(3);
                static const char *nm[] = {"portable_deserialize_safe", "portable_deserialize", "deserialize_safe"};
                if (which == 2 && native[0] != 2) which = 0;
                f.run(nm[which], [&] {
                    f.arm();
                    RB *r = which == 0 ? roaring_bitmap_portable_deserialize_safe(bytes.data(), bytes.size())
                            : which == 1 ? roaring_bitmap_portable_deserialize(bytes.data())
                                         : roaring_bitmap_deserialize_safe(native.data(), native.size());
                    f.disarm();
                    if (r) { expect32(c, r, ma, nm[which]); usable(c, r, ma, mb, nm[which]); }
                    roaring_bitmap_free(r);
                    return r != nullptr;
                });
                break;
            }
            case 4: {
                size_t n = roaring_bitmap_frozen_size_in_bytes(a);
                Guard g(n, 32);
                roaring_bitmap_frozen_serialize(a, g.p);
                f.run("frozen_view", [&] {
                    f.arm(); const RB *r = roaring_bitmap_frozen_view(g.p, n); f.disarm();
                    if (r) expect32(c, r, ma, "frozen view");
                    roaring_bitmap_free(r);
                    return r != nullptr;
                });
                f.run("portable_deserialize_frozen", [&] {
                    f.arm(); const RB *r = roaring_bitmap_portable_deserialize_frozen(bytes.data()); f.disarm();
                    if (r) expect32(c, r, ma, "portable frozen view");
                    roaring_bitmap_free(r);
                    return r != nullptr;
                });
                break;
            }
            case 5:
                if (ma.empty() || ma.max() > 3000000) break;
                f.run("to_bitset", [&] {
                    bitset_t *s = bitset_create();
                    f.arm(); bool ok = roaring_bitmap_to_bitset(a, s); f.disarm();
                    sources("source of to_bitset");
                    PCHECK(c, bitset_count(s) == (ok ? ma.card() : 0), "to_bitset");
                    if (!ok) PCHECK(c, roaring_bitmap_to_bitset(a, s) && bitset_count(s) == ma.card(), "to_bitset tried again");
                    bitset_free(s);
                    return ok;
                });
                break;
            case 6:
                f.run("iterator_create", [&] {
                    f.arm(); auto *it = roaring_iterator_create(a); f.disarm();
                    if (it) PCHECK(c, it->has_value == !ma.empty() && (ma.empty() || it->current_value == ma.min()), "iterator");
                    if (it) roaring_uint32_iterator_free(it);
                    return it != nullptr;
                });
                break;
            case 7:
                f.run("read (C++)", [&] {
                    bool ok = true;
                    try {
                        f.arm();
                        Roaring r = Roaring::readSafe(bytes.data(), bytes.size());
                        f.disarm();
                        expect32(c, &r.roaring, ma, "Roaring::readSafe");
                    } catch (std::exception &) { f.disarm(); ok = false; }
                    return ok;
                });
                break;
            case 8: {
                Roaring64Map m64;
                for (u64 h = 0, n = 1 + c.t.draw(3); h < n; h++)
                    for (size_t i = 0; i < ma.v.size() && i < 50; i++) m64.addRangeClosed((h * 3 << 32) + ma.v[i].lo, (h * 3 << 32) + ma.v[i].hi);
                u64 card = m64.cardinality();
                std::string b64(m64.getSizeInBytes(), '\0');
                m64.write(&b64[0]);
                f.run("Roaring64Map copy", [&] {
                    bool ok = true;
                    try { f.arm(); Roaring64Map q(m64); f.disarm(); PCHECK(c, q == m64, "copied map"); }
                    catch (std::exception &) { f.disarm(); ok = false; }
                    PCHECK(c, m64.cardinality() == card, "source map");
                    return ok;
                });
                f.run("Roaring64Map readSafe", [&] {
                    bool ok = true;
                    try { f.arm(); Roaring64Map q = Roaring64Map::readSafe(b64.data(), b64.size()); f.disarm(); PCHECK(c, q == m64, "map read back"); }
                    catch (std::exception &) { f.disarm(); ok = false; }
                    return ok;
                });
                break;
            }
            case 9:
                f.run("shrink_to_fit", [&] {
                    RB *d = from_model_portable(c, ma, KindPolicy{2, 5});
                    if (!ma.empty()) {  // leave room in some containers
                        for (u64 x : {ma.min(), ma.max()}) for (u32 k = 0; k < 4; k++) roaring_bitmap_add(d, (u32)x ^ (2 * k + 1));
                    }
                    std::string was = bytes_of(d);
                    f.arm(); roaring_bitmap_shrink_to_fit(d); f.disarm();
                    PCHECK(c, bytes_of(d) == was, "shrink_to_fit changed the set");
                    expect_valid(c, d, "after shrink_to_fit");
                    roaring_bitmap_shrink_to_fit(d);
                    PCHECK(c, bytes_of(d) == was, "shrink_to_fit, tried again, changed the set");
                    roaring_bitmap_free(d);
                    return true;
                }, false);
                break;
            case 10: {
                Roaring ra, rb;
                PCHECK(c, roaring_bitmap_overwrite(&ra.roaring, a) && roaring_bitmap_overwrite(&rb.roaring, b), "setup");
                f.run("copy (C++)", [&] {
                    bool ok = true;
                    try { f.arm(); Roaring q(ra); f.disarm(); expect32(c, &q.roaring, ma, "copied Roaring"); }
                    catch (std::exception &) { f.disarm(); ok = false; }
                    expect32(c, &ra.roaring, ma, "source of a copied Roaring");
                    return ok;
                }, true, cow);
                f.run("assignment (C++)", [&] {
                    bool ok = true;
                    Roaring q(rb);
                    try { f.arm(); q = ra; f.disarm(); }
                    catch (std::exception &) { f.disarm(); ok = false; }
                    expect32(c, &q.roaring, ok ? ma : ISet(), "assigned Roaring");
                    expect32(c, &ra.roaring, ma, "source of an assignment");
                    q.addRange(5, 900);
                    q = ra;
                    expect32(c, &q.roaring, ma, "assigned again");
                    return ok;
                }, true, cow);
                break;
            }
            case 11: {
                u64 card = ma.card();
                if (!card || card > 300000) break;
                u64 off = c.t.chance(1, 2) ? 0 : c.t.draw(card);
                u64 lim = 1 + c.t.draw(card - off);
                f.run("range_uint32_array", [&] {
                    Guard g(4 * lim);
                    f.arm(); bool ok = roaring_bitmap_range_uint32_array(a, off, lim, (u32 *)g.p); f.disarm();
                    sources("source of range_uint32_array");
                    if (ok) for (u64 i = 0; i < lim; i += 1 + lim / 64) {
                        u64 at = 0;
                        PCHECK(c, ma.select(off + i, &at) && ((u32 *)g.p)[i] == at, "range_uint32_array value %llu", (ull)i);
                    }
                    return ok;
                });
                break;
            }
            default:
                f.run("frozen copy", [&] {  // copies of views own their storage
                    size_t n = roaring_bitmap_frozen_size_in_bytes(a);
                    Guard g(n, 32);
                    roaring_bitmap_frozen_serialize(a, g.p);
                    const RB *v = roaring_bitmap_frozen_view(g.p, n);
                    f.arm(); RB *r = roaring_bitmap_copy(v); f.disarm();
                    roaring_bitmap_free(v);
                    if (r) { expect32(c, r, ma, "copy of a view"); usable(c, r, ma, mb, "copy of a view"); }
                    roaring_bitmap_free(r);
                    return r != nullptr;
                });
        }
    }
    usable(c, a, ma, mb, "the source, afterwards");
    expect32(c, b, mb, "the other bitmap");
    for (RB *q : keep) roaring_bitmap_free(q);
    roaring_bitmap_free(a);
    roaring_bitmap_free(b);
}

static void bitsets24(Ctx &c, Faults &f) {
    u32 maxw = 1 + (u32)c.t.draw(c.t.draw(2) ? 6 : 400);
    auto make = [&](u64 seed) {
        Rng r(seed);
        bitset_t *b = bitset_create();
        u64 n = r.below(40);
        for (u64 i = 0; i < n; i++) bitset_set(b, r.below(64 * maxw));
        if (r.below(3)) bitset_resize(b, r.below(2 * maxw) + 1, true);
        return b;
    };
    auto bits = [](const bitset_t *b) { std::string s; for (size_t i = 0; i < b->arraysize; i++) s.append((const char *)&b->array[i], 8); return s; };
    u64 s1 = c.t.seed(), s2 = c.t.seed();
    u64 n = c.t.draw(3 * maxw);
    bitset_t *a = make(s1), *o = make(s2);
    std::string wa = bits(a), wo = bits(o);
    f.run("bitset_create", [&] { f.arm(); bitset_t *b = bitset_create(); f.disarm(); bitset_free(b); return b != nullptr; });
    f.run("bitset_create_with_capacity", [&] {
        f.arm(); bitset_t *b = bitset_create_with_capacity(n * 64); f.disarm();
        if (b) PCHECK(c, bitset_size_in_words(b) == n && bitset_empty(b), "created bitset");
        bitset_free(b);
        return b != nullptr;
    });
    if (a->arraysize) f.run("bitset_copy", [&] {
        f.arm(); bitset_t *b = bitset_copy(a); f.disarm();
        PCHECK(c, bits(a) == wa && (!b || bits(b) == wa), "bitset_copy");
        bitset_free(b);
        return b != nullptr;
    });
    static const char *nm[] = {"bitset_resize", "bitset_grow", "bitset_trim", "bitset_set beyond the end", "bitset_inplace_union", "bitset_inplace_symmetric_difference"};
    for (int w = 0; w < 6; w++) f.run(nm[w], [&] {
        bitset_t *b = make(s1);
        size_t words = bitset_size_in_words(b);
        bool ok = true;
        f.arm();
        if (w == 0) ok = bitset_resize(b, n, true);
        if (w == 1) ok = bitset_grow(b, words + n);
        if (w == 2) ok = bitset_trim(b);
        if (w == 3) bitset_set(b, 64 * words + n);
        if (w == 4) ok = bitset_inplace_union(b, o);
        if (w == 5) ok = bitset_inplace_symmetric_difference(b, o);
        f.disarm();
        PCHECK(c, bits(o) == wo, "%s changed its operand", nm[w]);
        if (w == 3) ok = bitset_get(b, 64 * words + n);
        if (!ok && w < 4) PCHECK(c, bits(b) == wa, "a failed %s changed the bitset", nm[w]);
        if (!ok && w >= 4) PCHECK(c, bitset_size_in_words(b) == words, "a failed %s left another size", nm[w]);
        if (ok && w == 2) { std::string t = bits(b); t.resize(wa.size()); PCHECK(c, t == wa, "trim changed the bits"); }
        if (ok && w == 1) { std::string t = wa; t.resize(8 * (words + n)); PCHECK(c, t == bits(b), "grow changed the bits"); }
        if (ok && w == 0) { std::string t = wa; t.resize(8 * n); PCHECK(c, t == bits(b), "resize changed the bits"); }
        bitset_set(b, 3);  // still usable
        PCHECK(c, bitset_get(b, 3), "bitset after %s", nm[w]);
        bitset_free(b);
        return ok;
    }, true);
    bitset_free(a);
    bitset_free(o);
}

PROPERTY(C24, "for generated bitmaps (plain or sharing storage) and bitsets, 2-5 operations that report allocation failure run once to count their allocations and then again with each allocation failing alone and with it and all later ones failing (operations with more than 24 allocations: the first and last four and 14 drawn ones); result, sources, destination and a ledger of all blocks are checked after each; "
              "non-trivial: an operation with at least 3 allocation points was faulted") {
    ledger::State &s = ledger::st();
    s.serial = 0;
    ledger::install();
    Faults f(c);
    if (c.t.chance(1, 4)) bitsets24(c, f); else bitmaps24(c, f);
    ledger::check_all();
    PCHECK(c, !s.wrong, "%s %zu", s.wrong, s.wrong_n);
    PCHECK(c, s.live.empty(), "%zu blocks (%zu bytes) were not returned", s.live.size(), s.bytes);
    c.count("faulted_runs", f.trials);
    c.count("allocation_points", f.points);
    c.count("failed_allocations_hit", f.failures);
    c.nontrivial = f.points >= 3 && f.failures > 0;
}
