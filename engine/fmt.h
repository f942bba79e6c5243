// Independent encoder and decoder of the published RoaringFormatSpec (32-bit
// portable format and its 64-bit extension), written from the specification.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

#include "iset.h"

namespace fmt {

typedef std::vector<uint8_t> Bytes;
enum Kind { ARRAY = 0, BITSET = 1, RUN = 2 };

inline void put16(Bytes &b, uint32_t x) { b.push_back(x & 255); b.push_back((x >> 8) & 255); }
inline void put32(Bytes &b, uint32_t x) { put16(b, x & 0xffff); put16(b, x >> 16); }
inline void put64(Bytes &b, uint64_t x) { put32(b, (uint32_t)x); put32(b, (uint32_t)(x >> 32)); }

struct Chunk { uint32_t key; ISet s; };  // s within [0, 65535]

inline std::vector<Chunk> split(const ISet &s) {
    std::vector<Chunk> out;
    for (auto &iv : s.v) {
        uint64_t lo = iv.lo;
        for (;;) {
            uint32_t key = (uint32_t)(lo >> 16);
            uint64_t end = std::min<uint64_t>(iv.hi, ((uint64_t)key << 16) | 0xffff);
            if (out.empty() || out.back().key != key) out.push_back({key, {}});
            out.back().s.append(lo & 0xffff, end & 0xffff);
            if (end == iv.hi) break;
            lo = end + 1;
        }
    }
    return out;
}

// choose(key, card, runs) gives the container kind; a choice the format does
// not allow (array above 4096 values, bitset up to 4096) is corrected.
typedef std::function<int(uint32_t, uint32_t, uint32_t)> Chooser;

// runcookie: announce run containers even if there are none (readers take the flags as they are)
inline Bytes encode32(const ISet &s, const Chooser &choose, int *kinds_used = nullptr, bool runcookie = false) {
    std::vector<Chunk> ch = split(s);
    std::vector<int> kind;
    bool anyrun = runcookie && !ch.empty();
    for (auto &c : ch) {
        uint32_t card = (uint32_t)c.s.card();
        int k = choose(c.key, card, (uint32_t)c.s.v.size());
        if (k != RUN) k = card <= 4096 ? ARRAY : BITSET;
        if (kinds_used) *kinds_used |= 1 << k;
        kind.push_back(k);
        anyrun |= k == RUN;
    }
    Bytes b;
    uint32_t n = (uint32_t)ch.size();
    if (anyrun) {
        put32(b, 12347u | ((n - 1) << 16));
        Bytes flags((n + 7) / 8, 0);
        for (uint32_t i = 0; i < n; i++)
            if (kind[i] == RUN) flags[i / 8] |= 1 << (i % 8);
        b.insert(b.end(), flags.begin(), flags.end());
    } else {
        put32(b, 12346);
        put32(b, n);
    }
    for (auto &c : ch) {
        put16(b, c.key);
        put16(b, (uint32_t)c.s.card() - 1);
    }
    bool offs = !anyrun || n >= 4;
    size_t offpos = b.size();
    if (offs) b.resize(b.size() + 4 * (size_t)n);
    for (uint32_t i = 0; i < n; i++) {
        if (offs) {
            uint32_t o = (uint32_t)b.size();
            for (int k = 0; k < 4; k++) b[offpos + 4 * i + k] = (o >> (8 * k)) & 255;
        }
        const ISet &cs = ch[i].s;
        if (kind[i] == RUN) {
            put16(b, (uint32_t)cs.v.size());
            for (auto &iv : cs.v) {
                put16(b, (uint32_t)iv.lo);
                put16(b, (uint32_t)(iv.hi - iv.lo));
            }
        } else if (kind[i] == ARRAY) {
            for (auto &iv : cs.v)
                for (uint64_t x = iv.lo; x <= iv.hi; x++) put16(b, (uint32_t)x);
        } else {
            size_t p = b.size();
            b.resize(p + 8192);
            for (auto &iv : cs.v)
                for (uint64_t x = iv.lo; x <= iv.hi; x++) b[p + x / 8] |= 1 << (x % 8);
        }
    }
    return b;
}

struct Reader {
    const uint8_t *p;
    size_t n, pos = 0;
    bool ok = true;
    bool need(size_t k) {
        if (n - pos < k) ok = false;
        return ok;
    }
    uint32_t u16() {
        if (!need(2)) return 0;
        uint32_t x = p[pos] | (p[pos + 1] << 8);
        pos += 2;
        return x;
    }
    uint32_t u32() {
        uint32_t a = u16(), b = u16();
        return a | (b << 16);
    }
    uint64_t u64() {
        uint64_t a = u32(), b = u32();
        return a | (b << 32);
    }
};

// Decodes and checks every rule of the specification. Returns "" or a reason.
inline std::string decode32(const uint8_t *data, size_t len, ISet *out, size_t *consumed) {
    Reader r{data, len};
    out->clear();
    uint32_t cookie = r.u32();
    if (!r.ok) return "no cookie";
    uint32_t n;
    bool runs = false;
    const uint8_t *flags = nullptr;
    if ((cookie & 0xffff) == 12347) {
        runs = true;
        n = (cookie >> 16) + 1;
        size_t nb = (n + 7) / 8;
        if (!r.need(nb)) return "no flags";
        flags = data + r.pos;
        r.pos += nb;
    } else if (cookie == 12346) {
        n = r.u32();
        if (n > 65536) return "too many containers";
    } else {
        return "bad cookie";
    }
    std::vector<std::pair<uint32_t, uint32_t>> d(n);
    for (auto &x : d) {
        x.first = r.u16();
        x.second = r.u16() + 1;
    }
    if (!r.ok) return "truncated header";
    for (size_t i = 1; i < n; i++)
        if (d[i].first <= d[i - 1].first) return "keys not increasing";
    std::vector<uint32_t> off;
    if (!runs || n >= 4)
        for (uint32_t i = 0; i < n; i++) off.push_back(r.u32());
    if (!r.ok) return "truncated offsets";
    bool any = false;
    for (uint32_t i = 0; i < n; i++) {
        if (!off.empty() && off[i] != r.pos) return "wrong offset of container " + std::to_string(i);
        uint64_t base = (uint64_t)d[i].first << 16;
        bool isrun = runs && (flags[i / 8] >> (i % 8)) & 1;
        any |= isrun;
        uint32_t card = d[i].second;
        if (isrun) {
            uint32_t k = r.u16();
            if (!r.need(4 * (size_t)k)) return "truncated runs";
            int64_t last = -1;
            uint32_t tot = 0;
            for (uint32_t j = 0; j < k; j++) {
                uint32_t st = r.u16(), l = r.u16();
                if ((int64_t)st <= last) return "runs not increasing";
                if (st + l > 65535) return "run beyond the chunk";
                out->append(base + st, base + st + l);
                last = (int64_t)st + l;
                tot += l + 1;
            }
            if (tot != card) return "run cardinality differs from the header";
            if (k == 0) return "empty run container";
        } else if (card <= 4096) {
            if (!r.need(2 * (size_t)card)) return "truncated array";
            int64_t last = -1;
            for (uint32_t j = 0; j < card; j++) {
                uint32_t x = r.u16();
                if ((int64_t)x <= last) return "array not increasing";
                last = x;
                out->append(base + x, base + x);
            }
        } else {
            if (!r.need(8192)) return "truncated bitset";
            uint32_t tot = 0;
            for (uint32_t wi = 0; wi < 1024; wi++) {
                uint64_t w;
                memcpy(&w, data + r.pos + wi * 8, 8);
                tot += (uint32_t)__builtin_popcountll(w);
                uint32_t at = wi * 64;
                if (w == ~0ull) { out->append(base + at, base + at + 63); continue; }
                while (w) {
                    int s = __builtin_ctzll(w);
                    uint64_t t = w >> s;
                    int l = t == ~0ull ? 64 : __builtin_ctzll(~t);
                    out->append(base + at + s, base + at + s + l - 1);
                    if (s + l >= 64) break;
                    w &= ~0ull << (s + l);
                }
            }
            if (tot != card) return "bitset cardinality differs from the header";
            r.pos += 8192;
        }
        if (!r.ok) return "truncated container";
    }
    if (runs && !any) return "run cookie without run containers";
    if (consumed) *consumed = r.pos;
    return "";
}

// 64-bit: u64 count, then (u32 high, 32-bit stream) in increasing order.
inline std::vector<std::pair<uint32_t, ISet>> split64(const ISet &s) {
    std::vector<std::pair<uint32_t, ISet>> out;
    for (auto &iv : s.v) {
        uint64_t lo = iv.lo;
        for (;;) {
            uint32_t key = (uint32_t)(lo >> 32);
            uint64_t end = std::min<uint64_t>(iv.hi, ((uint64_t)key << 32) | 0xffffffffu);
            if (out.empty() || out.back().first != key) out.push_back({key, {}});
            out.back().second.append(lo & 0xffffffffu, end & 0xffffffffu);
            if (end == iv.hi) break;
            lo = end + 1;
        }
    }
    return out;
}
inline Bytes encode64(const ISet &s, const Chooser &choose) {
    auto parts = split64(s);
    Bytes b;
    put64(b, parts.size());
    for (auto &p : parts) {
        put32(b, p.first);
        Bytes x = encode32(p.second, choose);
        b.insert(b.end(), x.begin(), x.end());
    }
    return b;
}
inline std::string decode64(const uint8_t *data, size_t len, ISet *out, size_t *consumed, bool allow_empty = false) {
    Reader r{data, len};
    out->clear();
    uint64_t n = r.u64();
    if (!r.ok) return "no count";
    int64_t last = -1;
    for (uint64_t i = 0; i < n; i++) {
        uint32_t key = r.u32();
        if (!r.ok) return "truncated key";
        if ((int64_t)key <= last) return "buckets not increasing";
        last = key;
        ISet s;
        size_t used = 0;
        std::string e = decode32(data + r.pos, len - r.pos, &s, &used);
        if (!e.empty()) return "bucket " + std::to_string(i) + ": " + e;
        if (s.empty() && !allow_empty) return "empty bucket";
        for (auto &iv : s.v) out->append(((uint64_t)key << 32) + iv.lo, ((uint64_t)key << 32) + iv.hi);
        r.pos += used;
    }
    if (consumed) *consumed = r.pos;
    return "";
}

}  // namespace fmt
