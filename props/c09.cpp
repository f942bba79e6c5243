#include "queries32.h"
#include "iter32.h"
#include "guard.h"
#include <roaring/roaring64.h>
#include "roaring.hh"
#include "roaring64map.hh"

static void put_at(fmt::Bytes &b, size_t pos, u64 v, int w) {
    for (int i = 0; i < w && pos + i < b.size(); i++) b[pos + i] = (u8)(v >> (8 * i));
}
static void mutate(Ctx &c, fmt::Bytes &b, size_t base) {
    u32 n = (u32)c.t.draw(5);
    for (u32 k = 0; k < n; k++) {
        if (b.empty()) { b.push_back((u8)c.t.draw(256)); continue; }
        // headers matter most
        size_t pos = c.t.chance(2, 3) ? base + c.t.draw(std::min<size_t>(b.size(), 64)) : c.t.draw(b.size());
        if (pos >= b.size()) pos = b.size() - 1;
        switch (c.t.pick({4, 4, 3, 2, 2, 2, 2, 3})) {
            case 7: {  // a count grown by a power of two, so that products of it wrap
                static const size_t P[] = {0, 1, 4, 8, 12, 16};
                size_t q = c.t.chance(2, 3) ? base + P[c.t.draw(6)] : pos;
                int w = c.t.draw(4) ? 4 : 8;
                u64 v = 0;
                for (int i = 0; i < w && q + i < b.size(); i++) v |= (u64)b[q + i] << (8 * i);
                v += 1ull << (w == 4 ? 27 + c.t.draw(5) : 29 + c.t.draw(35));
                if (c.t.chance(1, 4)) v -= 1 + c.t.draw(3);
                put_at(b, q, v, w);
                break;
            }
            case 0: b[pos] = (u8)c.t.draw(256); break;
            case 1: {
                static const u32 V[] = {0, 1, 2, 0xff, 0x7fff, 0x8000, 0xfffe, 0xffff, 4095, 4096, 12346, 12347, 255};
                put_at(b, pos & ~1ull, V[c.t.draw(13)], 2);
                break;
            }
            case 2: b[pos] ^= (u8)(1 << c.t.draw(8)); break;
            case 3: b.resize(b.size() - c.t.draw(std::min<size_t>(b.size(), 40) + 1)); break;
            case 4: { size_t a = c.t.draw(40); Rng r(c.t.seed()); for (size_t i = 0; i < a; i++) b.push_back((u8)r.next()); break; }
            case 5: {  // exchange two neighbouring 16-bit fields: order rules
                size_t q = pos & ~1ull;
                if (q + 3 < b.size()) { std::swap(b[q], b[q + 2]); std::swap(b[q + 1], b[q + 3]); }
                break;
            }
            default: {
                static const u64 W[] = {0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 65536, 65537, 12346, 12347, 12347 | (1u << 16), 12347 | (65535u << 16), UINT64_MAX};
                put_at(b, pos & ~3ull, W[c.t.draw(12)], 4);
            }
        }
    }
}
// A stream whose header is made up field by field.
static fmt::Bytes made_up(Ctx &c) {
    fmt::Bytes b;
    u32 n = (u32)c.t.draw(6);
    bool runs = c.t.draw(2);
    u8 flags = (u8)c.t.draw(c.t.chance(1, 2) ? 1 : 256);
    if (runs) {
        fmt::put32(b, 12347 | ((n ? n - 1 : 0) << 16));
        if (!n) n = 1;
        b.push_back(flags);
    } else {
        flags = 0;
        fmt::put32(b, 12346);
        fmt::put32(b, n);
    }
    std::vector<u32> card;
    u32 key = (u32)c.t.draw(3);
    for (u32 i = 0; i < n; i++) {
        u32 cd;
        switch (c.t.pick({4, 2, 1})) {
            case 0: cd = (u32)c.t.draw(8); break;
            case 1: cd = 4090 + (u32)c.t.draw(12); break;
            default: cd = (u32)c.t.draw(65536);
        }
        card.push_back(cd + 1);
        fmt::put16(b, key);
        fmt::put16(b, cd);
        key += (u32)c.t.draw(3);
    }
    if (!runs || n >= 4)
        for (u32 i = 0; i < n; i++) fmt::put32(b, (u32)c.t.draw(200));
    Rng r(c.t.seed());
    for (u32 i = 0; i < n; i++) {
        if ((flags >> i) & 1) {
            u32 k = (u32)c.t.draw(6);
            fmt::put16(b, k);
            u32 at = (u32)c.t.draw(4);
            for (u32 j = 0; j < k; j++) {
                u32 l = (u32)c.t.draw(c.t.chance(1, 8) ? 65536 : 4);
                fmt::put16(b, at);
                fmt::put16(b, l);
                at += l + (u32)c.t.draw(3);
            }
        } else if (card[i] <= 4096) {
            u32 x = (u32)c.t.draw(4);
            for (u32 j = 0; j < card[i]; j++) { fmt::put16(b, x); x += (u32)r.below(16) ? 1 + (u32)r.below(14) : 0; }
        } else {
            u64 mode = c.t.draw(3);
            u32 left = card[i];
            for (int w = 0; w < 1024; w++) {
                u64 v = mode == 0 ? r.next() : 0;
                if (mode == 1) { u32 q = std::min<u32>(64, left); v = q == 64 ? ~0ull : (1ull << q) - 1; left -= q; }
                fmt::put64(b, v);
            }
        }
    }
    if (c.t.chance(1, 3)) b.resize(b.size() - c.t.draw(std::min<size_t>(b.size(), 20) + 1));
    return b;
}

static void battery(Ctx &c, RB *r, bool writable) {
    ISet m;
    if (roaring_bitmap_get_cardinality(r) > (1u << 24)) {
        // too many values to enumerate
        std::string b = bytes_of(r);
        std::string e = fmt::decode32((const u8 *)b.data(), b.size(), &m, nullptr);
        PCHECK(c, e.empty() && m.card() == roaring_bitmap_get_cardinality(r), "validated bitmap serialises to something else: %s", e.c_str());
        c.count("validated_huge_bitmaps");
        return;
    }
    {
        roaring_uint32_iterator_t it;
        roaring_iterator_init(r, &it);
        std::vector<u32> buf(5000);
        u64 last = 0;
        bool first = true;
        u64 n = 0;
        for (;;) {
            u32 k = roaring_uint32_iterator_read(&it, buf.data(), 5000);
            for (u32 j = 0; j < k; j++) {
                PCHECK(c, first || buf[j] > last, "validated bitmap enumerates %u after %llu", buf[j], (unsigned long long)last);
                last = buf[j];
                first = false;
                m.append(last, last);
                n++;
            }
            if (k < 5000) break;
            PCHECK(c, n <= (1u << 24), "validated bitmap enumerates without end");
        }
    }
    c.count("validated_bitmaps");
    expect32(c, r, m, "validated bitmap");
    gen::Pool p;
    for (auto &iv : m.v) if (p.keys.empty() || p.keys.back() != iv.lo >> 16) p.keys.push_back(iv.lo >> 16);
    if (p.keys.empty()) p.keys.push_back(0);
    // Very wide or fragmented sets: everything below is linear in their size,
    // so only the comparison by serialization, once before and after a change.
    if (p.keys.size() > 1500 || m.v.size() > 60000 || m.card() > 1500000) {
        c.count("validated_huge_bitmaps");
        for (int round = 0; round < 2; round++) {
            std::string b = bytes_of(r);
            ISet d;
            std::string e = fmt::decode32((const u8 *)b.data(), b.size(), &d, nullptr);
            PCHECK(c, e.empty() && d == m, "validated bitmap serialises to something else: %s", e.c_str());
            if (!writable) break;
            u32 x = (u32)gen::near(c, m, p, MAX32);
            PCHECK(c, roaring_bitmap_add_checked(r, x) == !m.contains(x), "add to a validated bitmap");
            m.add(x);
        }
        return;
    }
    Queries32 q(c, r, m, p);
    for (int i = 0; i < 8; i++) q.one();
    Iter32 it(c, r, m, p);
    for (int i = 0; i < 8; i++) it.step();
    it.done();
    std::string b = bytes_of(r);
    ISet d;
    size_t used;
    std::string e = fmt::decode32((const u8 *)b.data(), b.size(), &d, &used);
    PCHECK(c, e.empty() && d == m, "validated bitmap serialises to something else: %s", e.c_str());
    Mach32 mm(c);
    mm.pool = p;
    RB *t = roaring_bitmap_copy(r);
    mm.s.push_back({t, m});
    ISet other = gen::set_of_pool(c, p);
    mm.s.push_back({build32(c, other), other});
    Mach32::Weights w = Mach32::everything();
    for (int k = 0; k < 6; k++) { mm.step(w); mm.check_touched(); }
    mm.check_all("history on a validated bitmap");
    mm.finish();
    static RB *(*const f[4])(const RB *, const RB *) = {roaring_bitmap_and, roaring_bitmap_or, roaring_bitmap_andnot, roaring_bitmap_xor};
    RB *o = build32(c, other);
    for (int k = 0; k < 4; k++) {
        RB *x = f[k](r, o);
        expect32(c, x, ISet::op(m, other, k), "set operation on a validated bitmap");
        roaring_bitmap_free(x);
    }
    roaring_bitmap_free(o);
    if (writable) {
        u32 x = (u32)gen::near(c, m, p, MAX32);
        bool had = m.contains(x);
        PCHECK(c, roaring_bitmap_add_checked(r, x) == !had, "add to a validated bitmap");
        PCHECK(c, roaring_bitmap_remove_checked(r, x), "remove from a validated bitmap");
        roaring_bitmap_run_optimize(r);
        roaring_bitmap_shrink_to_fit(r);
        m.remove(x);
        expect32(c, r, m, "changed validated bitmap");
    }
}
static void battery64(Ctx &c, roaring64_bitmap_t *r) {
    u64 n = roaring64_bitmap_get_cardinality(r);
    c.count("validated_64bit_bitmaps");
    if (n > 400000) return;
    std::vector<u64> v(n + 1);
    roaring64_bitmap_to_uint64_array(r, v.data());
    ISet m;
    for (u64 i = 0; i < n; i++) {
        PCHECK(c, i == 0 || v[i] > v[i - 1], "validated 64-bit bitmap enumerates out of order");
        m.append(v[i], v[i]);
    }
    for (int i = 0; i < 20 && n; i++) {
        u64 x = v[c.t.draw(n)] + c.t.draw(3) - 1;
        PCHECK(c, roaring64_bitmap_contains(r, x) == m.contains(x), "validated 64-bit bitmap: contains");
        PCHECK(c, roaring64_bitmap_rank(r, x) == m.rank(x), "validated 64-bit bitmap: rank");
        bool had = m.contains(x);
        PCHECK(c, roaring64_bitmap_add_checked(r, x) == !had, "validated 64-bit bitmap: add");
        m.add(x);
        if (c.t.draw(2)) { roaring64_bitmap_remove(r, x); m.remove(x); }
    }
    PCHECK(c, roaring64_bitmap_get_cardinality(r) == m.card(), "validated 64-bit bitmap: cardinality after changes");
    roaring64_bitmap_t *q = roaring64_bitmap_copy(r);
    roaring64_bitmap_t *a = roaring64_bitmap_and(q, r), *x = roaring64_bitmap_xor(q, r);
    PCHECK(c, roaring64_bitmap_equals(a, r) && roaring64_bitmap_is_empty(x), "validated 64-bit bitmap: self operations");
    roaring64_bitmap_free(a);
    roaring64_bitmap_free(x);
    roaring64_bitmap_free(q);
    std::string b(roaring64_bitmap_portable_size_in_bytes(r), '\0');
    roaring64_bitmap_portable_serialize(r, &b[0]);
    ISet d;
    std::string e = fmt::decode64((const u8 *)b.data(), b.size(), &d, nullptr);
    PCHECK(c, e.empty() && d == m, "validated 64-bit bitmap serialises to something else: %s", e.c_str());
}

PROPERTY(C09, "byte strings (valid streams with 0-4 field-wise mutations, made-up headers, raw bytes) in exactly sized memory between guard pages, given to every bounded reader (C and C++, 32 and 64 bit, portable, native, frozen); "
              "what validates is put through queries, mutations and set operations against a model; non-trivial: the string differs from every valid stream it came from, or was accepted by a reader") {
    fmt::Bytes b;
    gen::Pool p = gen::pool32(c, 5);
    bool is64 = false;
    int fam = (int)c.t.pick({500, 400, 200, 200, 400, 200, 100, 1});
    bool mutated = true;
    bool frozen32 = false, frozen64 = false;
    switch (fam) {
        case 0: {  // mutated portable stream
            ISet m = gen::set32(c, p);
            if (m.card() > 300000) m = ISet();
            b = fmt::encode32(m, KindPolicy{(int)c.t.draw(4), 5});
            break;
        }
        case 1: b = made_up(c); break;
        case 2: {  // raw
            u32 n = (u32)c.t.draw(80);
            for (u32 i = 0; i < n; i++) b.push_back((u8)c.t.draw(256));
            if (c.t.draw(2) && b.size() >= 4) put_at(b, 0, c.t.draw(2) ? 12346 : 12347 | ((u32)b[2] << 16), 4);
            break;
        }
        case 3: {  // native
            ISet m = gen::set32(c, p);
            if (m.card() > 300000) m = ISet();
            RB *r = build32(c, m);
            b.resize(roaring_bitmap_size_in_bytes(r));
            roaring_bitmap_serialize(r, (char *)b.data());
            roaring_bitmap_free(r);
            break;
        }
        case 4: {  // 64-bit portable
            is64 = true;
            u32 n = (u32)c.t.draw(4);
            fmt::put64(b, n);
            u32 hi = (u32)c.t.draw(3);
            for (u32 i = 0; i < n; i++) {
                fmt::put32(b, hi);
                hi += c.t.chance(1, 10) ? 0 : 1 + (u32)c.t.draw(2);
                fmt::Bytes x;
                if (c.t.chance(1, 3)) x = made_up(c);
                else {
                    ISet m = gen::set_of_pool(c, p);
                    if (m.card() > 100000) m = ISet();
                    x = fmt::encode32(m, KindPolicy{(int)c.t.draw(4), 5});
                }
                b.insert(b.end(), x.begin(), x.end());
            }
            break;
        }
        case 5: {  // frozen 32
            frozen32 = true;
            ISet m = gen::set32(c, p);
            if (m.card() > 300000) m = ISet();
            RB *r = build32(c, m);
            b.resize(roaring_bitmap_frozen_size_in_bytes(r));
            roaring_bitmap_frozen_serialize(r, (char *)b.data());
            roaring_bitmap_free(r);
            std::reverse(b.begin(), b.end());  // its header is at the end
            break;
        }
        case 7: {  // raw, for coverage guidance
            u32 n = (u32)c.t.draw(2000);
            is64 = c.t.draw(2);
            for (u32 i = 0; i < n; i++) b.push_back((u8)c.t.draw(256));
            break;
        }
        default: {
            ISet m = gen::set_of_pool(c, p);
            b = fmt::encode64(m, KindPolicy{(int)c.t.draw(4), 7});
            is64 = true;
        }
    }
    fmt::Bytes orig = b;
    size_t base = is64 && b.size() > 8 && c.t.chance(1, 2) ? 8 : 0;
    mutate(c, b, base);
    if (frozen32) std::reverse(b.begin(), b.end());
    mutated = b != orig || fam == 1 || fam == 2 || fam == 7;
    size_t n = b.size();
    c.log("family %d, %zu bytes, mutated=%d", fam, n, mutated);
    bool accepted = false, portable_ok = false;
    Guard g(n);
    memcpy(g.p, b.data(), n);
    g.readonly();
    const char *why = nullptr;
    {
        size_t ds = roaring_bitmap_portable_deserialize_size(g.p, n);
        PCHECK(c, ds <= n, "portable_deserialize_size(%zu) = %zu", n, ds);
        RB *r = roaring_bitmap_portable_deserialize_safe(g.p, n);
        PCHECK(c, !r || ds > 0, "portable_deserialize_safe accepts what portable_deserialize_size rejects");
        portable_ok = r != nullptr;
        if (r) {
            accepted = true;
            c.count("accepted_portable");
            if (roaring_bitmap_internal_validate(r, &why)) battery(c, r, true);
            else c.count("accepted_then_not_validated");
            roaring_bitmap_free(r);
        }
    }
    {
        RB *r = roaring_bitmap_deserialize_safe(g.p, n);
        if (r) {
            accepted = true;
            c.count("accepted_native");
            if (roaring_bitmap_internal_validate(r, &why)) battery(c, r, true);
            roaring_bitmap_free(r);
        }
    }
    {
        size_t ds = roaring64_bitmap_portable_deserialize_size(g.p, n);
        PCHECK(c, ds <= n, "roaring64 portable_deserialize_size(%zu) = %zu", n, ds);
        roaring64_bitmap_t *r = roaring64_bitmap_portable_deserialize_safe(g.p, n);
        if (r) {
            accepted = true;
            c.count("accepted_portable64");
            if (roaring64_bitmap_internal_validate(r, &why)) battery64(c, r);
            roaring64_bitmap_free(r);
        }
    }
    if (frozen32 || c.t.chance(1, 8)) {
        // one view against the right guard page, one with the left end exact
        size_t pad = (32 - n % 32) % 32;
        Guard f(n + pad, 32);
        memcpy(f.p, b.data(), n);
        const RB *v = roaring_bitmap_frozen_view(f.p, n);
        bool viewed = v != nullptr, threw = false;
        try {
            const roaring::Roaring w = roaring::Roaring::frozenView(f.p, n);
            if (viewed) PCHECK(c, w.cardinality() == roaring_bitmap_get_cardinality(v), "Roaring::frozenView and roaring_bitmap_frozen_view differ");
        } catch (const std::runtime_error &) {
            threw = true;
        }
        PCHECK(c, threw == !viewed, "Roaring::frozenView %s but roaring_bitmap_frozen_view %s", threw ? "throws" : "does not throw", viewed ? "succeeds" : "fails");
        if (v) {
            accepted = true;
            c.count("accepted_frozen");
            if (roaring_bitmap_internal_validate(v, &why)) { f.readonly(); battery(c, (RB *)v, false); }
            roaring_bitmap_free(v);
        }
    }
    if (n >= 4) {  // no cookie, no stream
        u32 cookie;
        memcpy(&cookie, g.p, 4);
        if (cookie != 12346 && (cookie & 0xffff) != 12347) {
            bool refused = false;
            std::vector<char> q(n + 4096);  // this reader is unbounded
            memcpy(q.data(), g.p, n);
            try {
                const roaring::Roaring w = roaring::Roaring::portableDeserializeFrozen(q.data());
            } catch (const std::runtime_error &) {
                refused = true;
            }
            PCHECK(c, refused && !roaring_bitmap_portable_deserialize_frozen(q.data()), "a portable view without a cookie");
        }
    }
    bool threw = false;
    try {
        roaring::Roaring r = roaring::Roaring::readSafe(g.p, n);
        accepted = true;
        if (roaring_bitmap_internal_validate(&r.roaring, &why)) battery(c, &r.roaring, true);
    } catch (const std::exception &) {
        threw = true;
    }
    PCHECK(c, threw == !portable_ok, "Roaring::readSafe %s but roaring_bitmap_portable_deserialize_safe %s", threw ? "throws" : "succeeds", portable_ok ? "accepts" : "rejects");
    try {
        roaring::Roaring64Map r = roaring::Roaring64Map::readSafe(g.p, n);
        accepted = true;
        c.count("accepted_map64");
    } catch (const std::exception &) {
    }
    c.nontrivial = mutated || accepted;
}
