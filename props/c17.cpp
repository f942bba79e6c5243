#include "mach64.h"
#include "guard.h"
#include "roaring.hh"
#include "roaring64map.hh"
using roaring::Roaring64Map;

static void expect_map(Ctx &c, const Roaring64Map &r, const ISet &m, const char *what) {
    PCHECK(c, r.cardinality() == m.card(), "%s: cardinality %llu, expected %llu", what, (unsigned long long)r.cardinality(), (unsigned long long)m.card());
    if (m.card() <= 20000) {
        std::unique_ptr<u64[]> a(new u64[m.card() + 1]);
        r.toUint64Array(a.get());
        size_t i = 0;
        for (auto &iv : m.v)
            for (u64 x = iv.lo;; x++) {
                PCHECK(c, a[i] == x, "%s: value #%zu is %llu, expected %llu", what, i, (unsigned long long)a[i], (unsigned long long)x);
                i++;
                if (x == iv.hi) break;
            }
    } else {
        u64 ranks = 0, stride = 1 + m.v.size() / 300, n = 0;
        for (auto &iv : m.v) {
            PCHECK(c, r.contains(iv.lo) && r.contains(iv.hi), "%s: lacks %llu or %llu", what, (unsigned long long)iv.lo, (unsigned long long)iv.hi);
            if (n++ % stride == 0) PCHECK(c, r.rank(iv.hi) == ranks + (iv.hi - iv.lo + 1), "%s: rank of %llu", what, (unsigned long long)iv.hi);
            ranks += iv.hi - iv.lo + 1;
            if (ranks > 50000000) break;
        }
    }
}
static std::vector<size_t> cuts(Ctx &c, size_t len) {
    std::vector<size_t> v;
    if (len <= 120) { for (size_t i = 0; i < len; i++) v.push_back(i); return v; }
    for (size_t i = 0; i < 40; i++) v.push_back(i);
    for (size_t i = 1; i <= 20; i++) v.push_back(len - i);
    Rng r(c.t.seed());
    for (int i = 0; i < 20; i++) v.push_back(r.below(len));
    return v;
}
// buf holds one stream of exactly len bytes denoting m
static void reads_as(Ctx &c, const char *buf, size_t len, const ISet &m, bool exact, const char *what) {
    c.log("reading: %s", what);
    Guard g(len);
    memcpy(g.p, buf, len);
    g.readonly();
    size_t ds = roaring64_bitmap_portable_deserialize_size(g.p, len);
    PCHECK(c, ds == len, "%s: deserialize_size %zu, expected %zu", what, ds, len);
    RB64 *r = roaring64_bitmap_portable_deserialize_safe(g.p, len);
    PCHECK(c, r, "%s: deserialize_safe rejects a valid stream of %s", what, m.str().c_str());
    expect64(c, r, m, what);
    expect_valid64(c, r, what);
    if (exact) {
        std::string out = bytes_of64(r);
        PCHECK(c, out.size() == len && !memcmp(out.data(), buf, len), "%s: re-serialising an unmodified reading gives other bytes", what);
    }
    u64 x = m.empty() ? 5 : m.max();
    bool had = m.contains(x);
    PCHECK(c, roaring64_bitmap_remove_checked(r, x) == had && roaring64_bitmap_add_checked(r, x), "%s: changing what was read", what);
    roaring64_bitmap_free(r);
    Roaring64Map a = Roaring64Map::readSafe(g.p, len), b = Roaring64Map::read(g.p);
    expect_map(c, a, m, what);
    expect_map(c, b, m, what);
    PCHECK(c, a == b, "%s: the two C++ readers differ", what);
    const Roaring64Map v = Roaring64Map::portableDeserializeFrozen(g.p);
    expect_map(c, v, m, "portableDeserializeFrozen");
    PCHECK(c, v == a && a == v, "%s: a view over the stream differs from what was read", what);
}

PROPERTY(C17, "a generated 64-bit bitmap (after generated mutations half of the time) and the C++ map holding the same set are serialised, decoded by an independent reader of the specification, and read back by both libraries; an independent writer's streams (any legal container choice, sometimes an empty bucket) too; "
              "sizes are recomputed from the bytes, prefixes and trailing bytes are tried; non-trivial: at least 2 buckets, or 2 container kinds in the stream") {
    c.wide = true;
    Mach64 mm(c);
    mm.pool = gen::pool64(c, 8);
    mm.start(1);
    mm.max_slots = 1;
    if (c.t.chance(1, 2)) {
        Mach64::Weights w = Mach64::mutators();
        for (u32 k = 0, n = (u32)c.t.draw(8); k < n; k++) mm.step(w);
    }
    if (c.t.chance(1, 20)) { roaring64_bitmap_clear(mm.s[0].r); mm.s[0].m.clear(); }
    const RB64 *r = mm.s[0].r;
    const ISet m = mm.s[0].m;
    c.log("B=%s", m.str().c_str());
    size_t sz = roaring64_bitmap_portable_size_in_bytes(r);
    Guard g(sz);
    size_t wr = roaring64_bitmap_portable_serialize(r, g.p);
    PCHECK(c, wr == sz, "portable_serialize wrote %zu, announced %zu", wr, sz);
    ISet d;
    size_t used = 0;
    std::string err = fmt::decode64((const u8 *)g.p, sz, &d, &used);
    PCHECK(c, err.empty(), "the stream breaks the specification: %s (set %s)", err.c_str(), m.str().c_str());
    PCHECK(c, used == sz, "the stream has %zu bytes, the specification needs %zu", sz, used);
    PCHECK(c, d == m, "the stream denotes %s, expected %s", d.str().c_str(), m.str().c_str());
    reads_as(c, g.p, sz, m, true, "own stream");
    {
        RB64 *q = roaring64_bitmap_portable_deserialize_safe(g.p, sz);
        PCHECK(c, q && roaring64_bitmap_equals(q, r) && roaring64_bitmap_equals(r, q), "round trip not equal");
        roaring64_bitmap_free(q);
    }
    for (size_t k : cuts(c, sz)) {
        Guard h(k);
        memcpy(h.p, g.p, k);
        size_t ds = roaring64_bitmap_portable_deserialize_size(h.p, k);
        PCHECK(c, ds == 0, "deserialize_size of a %zu-byte prefix of %zu bytes is %zu", k, sz, ds);
        RB64 *q = roaring64_bitmap_portable_deserialize_safe(h.p, k);
        PCHECK(c, !q, "a %zu-byte prefix of %zu bytes is accepted", k, sz);
        bool threw = false;
        try {
            Roaring64Map x = Roaring64Map::readSafe(h.p, k);
        } catch (const std::runtime_error &) {
            threw = true;
        }
        PCHECK(c, threw, "Roaring64Map::readSafe accepts a %zu-byte prefix of %zu bytes", k, sz);
        c.count("prefixes");
    }
    // the C++ map with the same set
    {
        Roaring64Map x = Roaring64Map::readSafe(g.p, sz);
        if (c.t.draw(2)) x.runOptimize();
        if (c.t.draw(2)) x.shrinkToFit();
        size_t n = x.getSizeInBytes();
        Guard h(n);
        PCHECK(c, x.write(h.p) == n, "Roaring64Map::write wrote another length than getSizeInBytes announced");
        err = fmt::decode64((const u8 *)h.p, n, &d, &used);
        PCHECK(c, err.empty() && used == n && d == m, "the C++ map's stream: %s, %zu of %zu bytes, denotes %s", err.c_str(), used, n, d.str().c_str());
        reads_as(c, h.p, n, m, true, "the C++ map's stream");
        // its native form round-trips, too
        size_t nn = x.getSizeInBytes(false);
        std::unique_ptr<char[]> nb(new char[nn]);
        PCHECK(c, x.write(nb.get(), false) == nn, "native write length");
        c.log("native read");
        Roaring64Map y = Roaring64Map::read(nb.get(), false);
        expect_map(c, y, m, "the C++ map's native stream");
    }
    // an independent writer
    int kinds = 0;
    for (int rep = 0; rep < 2; rep++) {
        KindPolicy pol{(int)c.t.draw(4), 0};
        if (m.card() > (1u << 25)) pol.mode |= 1;
        if (pol.mode == 2) pol.seed = c.t.seed();
        auto parts = fmt::split64(m);
        fmt::Bytes b;
        bool flags = c.t.chance(1, 6);  // a run cookie whose flags may all be clear
        bool hole = c.t.chance(1, 6);  // an empty bucket between or around the others
        u64 at = hole ? c.t.draw(parts.size() + 1) : MAX64;
        u64 hk = 0;
        if (hole) {
            if (at < parts.size()) {
                if (parts[at].first == 0 || (at && parts[at].first == parts[at - 1].first + 1)) hole = false;
                else hk = parts[at].first - 1;
            } else {
                if (!parts.empty() && parts.back().first == MAX32) hole = false;
                else hk = parts.empty() ? 3 : parts.back().first + 1;
            }
        }
        fmt::put64(b, parts.size() + hole);
        for (size_t i = 0; i <= parts.size(); i++) {
            if (hole && i == at) {
                fmt::put32(b, (u32)hk);
                fmt::put32(b, 12346);
                fmt::put32(b, 0);
            }
            if (i == parts.size()) break;
            fmt::put32(b, parts[i].first);
            fmt::Bytes x = fmt::encode32(parts[i].second, pol, &kinds, flags);
            b.insert(b.end(), x.begin(), x.end());
        }
        c.log("independent stream hole=%d", hole);
        reads_as(c, (const char *)b.data(), b.size(), m, !hole && !flags, hole ? "independent stream with an empty bucket" : "independent stream");
        if (c.t.chance(1, 3)) {
            size_t n = b.size();
            Rng rg(c.t.seed());
            for (int k = 0; k < 40; k++) b.push_back((u8)rg.next());
            PCHECK(c, roaring64_bitmap_portable_deserialize_size((const char *)b.data(), b.size()) == n, "deserialize_size with trailing bytes");
            RB64 *q = roaring64_bitmap_portable_deserialize_safe((const char *)b.data(), b.size());
            PCHECK(c, q, "stream with trailing bytes rejected");
            expect64(c, q, m, "stream with trailing bytes");
            roaring64_bitmap_free(q);
        }
        c.count(hole ? "independent_streams_with_an_empty_bucket" : "independent_streams");
    }
    expect64(c, r, m, "the source afterwards");
    Mix64 x = mix_of64(r);
    c.nontrivial = fmt::split64(m).size() >= 2 || (x.a > 0) + (x.r > 0) + (x.b > 0) > 1 || __builtin_popcount(kinds) > 1;
    mm.finish();
}
