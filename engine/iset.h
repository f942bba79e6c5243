// Reference model: a set of 64-bit integers as sorted, disjoint, non-adjacent
// closed intervals.  Deliberately naive and unrelated to the code under test.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

struct ISet {
    typedef uint64_t u64;
    typedef unsigned __int128 u128;
    struct Iv {
        u64 lo, hi;
        bool operator==(const Iv &o) const { return lo == o.lo && hi == o.hi; }
    };
    std::vector<Iv> v;

    bool operator==(const ISet &o) const { return v == o.v; }
    bool operator!=(const ISet &o) const { return !(*this == o); }
    bool empty() const { return v.empty(); }
    void clear() { v.clear(); }
    u64 min() const { return v.front().lo; }
    u64 max() const { return v.back().hi; }

    // index of first interval with hi >= x
    size_t at(u64 x) const {
        size_t lo = 0, hi = v.size();
        while (lo < hi) {
            size_t m = (lo + hi) / 2;
            if (v[m].hi >= x) hi = m; else lo = m + 1;
        }
        return lo;
    }
    bool contains(u64 x) const {
        size_t i = at(x);
        return i < v.size() && v[i].lo <= x;
    }
    // closed ranges
    bool contains_range(u64 lo, u64 hi) const {
        size_t i = at(lo);
        return i < v.size() && v[i].lo <= lo && v[i].hi >= hi;
    }
    bool intersects(u64 lo, u64 hi) const {
        size_t i = at(lo);
        return i < v.size() && v[i].lo <= hi;
    }
    // appends an interval that starts at or after everything present
    void append(u64 lo, u64 hi) {
        if (!v.empty() && v.back().hi != UINT64_MAX && v.back().hi + 1 >= lo) {
            if (hi > v.back().hi) v.back().hi = hi;
            return;
        }
        v.push_back({lo, hi});
    }
    bool add(u64 x) {
        if (contains(x)) return false;
        add(x, x);
        return true;
    }
    void add(u64 lo, u64 hi) {
        size_t i = at(lo);
        if (i > 0 && v[i - 1].hi + 1 == lo) i--;  // left neighbour adjacent
        size_t j = i;
        u64 nlo = lo, nhi = hi;
        while (j < v.size() && (v[j].lo <= hi || (hi != UINT64_MAX && v[j].lo == hi + 1))) {
            nlo = std::min(nlo, v[j].lo);
            nhi = std::max(nhi, v[j].hi);
            j++;
        }
        if (j == i) {
            v.insert(v.begin() + i, Iv{nlo, nhi});
        } else {
            v[i] = Iv{nlo, nhi};
            v.erase(v.begin() + i + 1, v.begin() + j);
        }
    }
    bool remove(u64 x) {
        if (!contains(x)) return false;
        remove(x, x);
        return true;
    }
    void remove(u64 lo, u64 hi) {
        size_t i = at(lo), j = i;
        std::vector<Iv> keep;
        while (j < v.size() && v[j].lo <= hi) {
            if (v[j].lo < lo) keep.push_back({v[j].lo, lo - 1});
            if (v[j].hi > hi) keep.push_back({hi + 1, v[j].hi});
            j++;
        }
        v.erase(v.begin() + i, v.begin() + j);
        v.insert(v.begin() + i, keep.begin(), keep.end());
    }
    void flip(u64 lo, u64 hi) {
        ISet r;
        r.v.push_back({lo, hi});
        *this = op(*this, r, 3);
    }
    u128 card128() const {
        u128 c = 0;
        for (auto &i : v) c += (u128)i.hi - i.lo + 1;
        return c;
    }
    u64 card() const { return (u64)card128(); }
    u64 range_card(u64 lo, u64 hi) const {  // closed
        u64 c = 0;
        for (size_t i = at(lo); i < v.size() && v[i].lo <= hi; i++)
            c += std::min(hi, v[i].hi) - std::max(lo, v[i].lo) + 1;
        return c;
    }
    u64 rank(u64 x) const {  // number of values <= x
        u64 c = 0;
        for (auto &i : v) {
            if (i.lo > x) break;
            c += std::min(i.hi, x) - i.lo + 1;
        }
        return c;
    }
    bool select(u64 k, u64 *out) const {
        for (auto &i : v) {
            u64 n = i.hi - i.lo;  // size - 1
            if (k <= n) { *out = i.lo + k; return true; }
            k -= n + 1;
        }
        return false;
    }
    bool next(u64 x, u64 *out) const {  // smallest >= x
        size_t i = at(x);
        if (i == v.size()) return false;
        *out = std::max(x, v[i].lo);
        return true;
    }
    bool prev(u64 x, u64 *out) const {  // largest <= x
        size_t i = at(x);
        if (i < v.size() && v[i].lo <= x) { *out = x; return true; }
        if (i == 0) return false;
        *out = v[i - 1].hi;
        return true;
    }
    // op: 0 and, 1 or, 2 a-b, 3 xor
    static ISet op(const ISet &a, const ISet &b, int o) {
        // sweep over the sorted interval boundaries (as 65-bit positions)
        ISet r;
        size_t i = 0, j = 0;
        bool ina = false, inb = false, inr = false;
        u128 start = 0;
        auto pos = [](const std::vector<Iv> &w, size_t k) -> u128 {
            if (k >= 2 * w.size()) return ~(u128)0;
            return (k & 1) ? (u128)w[k / 2].hi + 1 : (u128)w[k / 2].lo;
        };
        for (;;) {
            u128 pa = pos(a.v, i), pb = pos(b.v, j);
            u128 p = std::min(pa, pb);
            if (p == ~(u128)0) break;
            while (pos(a.v, i) == p) { ina = !ina; i++; }
            while (pos(b.v, j) == p) { inb = !inb; j++; }
            bool now = o == 0 ? (ina && inb) : o == 1 ? (ina || inb) : o == 2 ? (ina && !inb) : (ina != inb);
            if (now && !inr) { start = p; inr = true; }
            else if (!now && inr) { r.append((u64)start, (u64)(p - 1)); inr = false; }
        }
        return r;
    }
    bool subset_of(const ISet &b) const { return op(*this, b, 2).empty(); }
    // shift by signed offset, dropping what leaves [0, dom]
    ISet shifted(__int128 off, u64 dom) const {
        ISet r;
        for (auto &i : v) {
            __int128 lo = (__int128)i.lo + off, hi = (__int128)i.hi + off;
            if (hi < 0 || lo > (__int128)dom) continue;
            if (lo < 0) lo = 0;
            if (hi > (__int128)dom) hi = dom;
            r.append((u64)lo, (u64)hi);
        }
        return r;
    }
    std::vector<u64> values(u64 limit) const {
        std::vector<u64> o;
        for (auto &i : v)
            for (u64 x = i.lo;; x++) {
                if (o.size() >= limit) return o;
                o.push_back(x);
                if (x == i.hi) break;
            }
        return o;
    }
    std::string str(size_t maxiv = 6) const {
        std::string s = "{";
        for (size_t i = 0; i < v.size() && i < maxiv; i++) {
            if (i) s += ",";
            s += std::to_string(v[i].lo);
            if (v[i].hi != v[i].lo) s += "-" + std::to_string(v[i].hi);
        }
        if (v.size() > maxiv) s += ",..(" + std::to_string(v.size()) + " runs)";
        return s + "}#" + std::to_string((u64)card128());
    }
};
