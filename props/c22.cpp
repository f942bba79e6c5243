#include "ops2.h"
#include "queries32.h"
#include "iter32.h"
#include "mach64.h"
#include "queries64.h"
#include <roaring/bitset/bitset.h>

// The linker redirects the library's calls here (see checks.py: --wrap).
extern "C" {
int __real_croaring_hardware_support(void) __attribute__((weak));
static int g_level = -1;
static unsigned long g_asked = 0;
int __wrap_croaring_hardware_support(void) {
    g_asked++;
    return g_level >= 0 ? g_level : __real_croaring_hardware_support();
}
}

// Values in a common small universe, in numbers next to vector widths.
static ISet vec22(Ctx &c, u32 universe, u32 base) {
    static const u32 W[] = {4, 8, 16, 32, 64, 128, 256, 1024, 4096};
    u32 n = W[c.t.draw(9)] * (1 + (u32)c.t.draw(5)) + (u32)c.t.draw(5);
    n = n > 2 ? n - 2 : 1;
    if (n > 4096 && c.t.draw(3)) n = 4096;
    if (n > universe) n = universe - (u32)c.t.draw(universe / 4 + 1);
    Rng r(c.t.seed());
    std::vector<u32> v(universe);
    for (u32 i = 0; i < universe; i++) v[i] = i;
    for (u32 i = 0; i < n; i++) std::swap(v[i], v[i + r.below(universe - i)]);
    v.resize(n);
    std::sort(v.begin(), v.end());
    ISet s;
    for (u32 x : v) s.append(base + x, base + x);
    return s;
}
static ISet vecs22(Ctx &c, const gen::Pool &p, u32 universe, u32 base) {
    ISet s;
    for (u64 k : p.keys) if (c.t.draw(5)) gen::append_chunk(s, k, c.t.draw(6) ? vec22(c, universe, base) : gen::chunk(c));
    return s;
}
static void exports22(Ctx &c, const RB *r, const ISet &m) {
    std::string a(4 * m.card(), '\0');
    if (m.card() <= 300000) {
        roaring_bitmap_to_uint32_array(r, (u32 *)&a[0]);
        c.note("to_uint32_array", a);
        if (m.card()) {
            u64 off = c.t.draw(m.card()), lim = 1 + c.t.draw(m.card() + 20);
            std::string b(4 * std::min<u64>(lim, m.card() - off), '\0');
            roaring_bitmap_range_uint32_array(r, off, std::min<u64>(lim, m.card() - off), (u32 *)&b[0]);
            PCHECK(c, !memcmp(b.data(), a.data() + 4 * off, b.size()), "range_uint32_array(%llu,%llu)", (unsigned long long)off, (unsigned long long)lim);
        }
    }
    if (!m.empty() && m.max() < (1u << 22)) {
        bitset_t *b = bitset_create();
        PCHECK(c, roaring_bitmap_to_bitset(r, b) && bitset_count(b) == m.card(), "to_bitset");
        std::string w((char *)b->array, 8 * b->arraysize);
        c.note("to_bitset", w);
        bitset_free(b);
    }
    roaring_statistics_t st;
    roaring_bitmap_statistics(r, &st);
    PCHECK(c, st.cardinality == m.card(), "statistics");
    c.note("statistics", std::string((char *)&st.n_containers, 9 * 4));
    std::string f(roaring_bitmap_frozen_size_in_bytes(r), '\0'), g(roaring_bitmap_size_in_bytes(r), '\0');
    std::vector<u64> al(f.size() / 8 + 8);
    char *at = (char *)(((uintptr_t)al.data() + 31) / 32 * 32);
    roaring_bitmap_frozen_serialize(r, at);
    c.note("frozen_serialize", std::string(at, f.size()));
    roaring_bitmap_serialize(r, &g[0]);
    c.note("serialize", g);
}

static bool scenario22(Ctx &c) {
    u64 what = c.t.pick({6, 4, 3, 2, 3});
    if (what == 0 || what == 1) {
        gen::Pool p = gen::pool32(c, what == 0 ? 2 : 4);
        ISet ma, mb;
        if (what == 0) {
            static const u32 U[] = {16, 40, 100, 300, 1000, 5000, 20000, 65536};
            u32 u = U[c.t.draw(8)], base = c.t.draw(2) ? (u32)c.t.draw(65537 - u) : 65536 - u;
            ma = vecs22(c, p, u, base);
            mb = c.t.draw(5) ? vecs22(c, p, u, base) : gen::related(c, p, ma);
        } else {
            ma = gen::set32(c, p);
            mb = gen::related(c, p, ma);
        }
        c.log("A=%s B=%s", ma.str().c_str(), mb.str().c_str());
        RB *a = build32(c, ma), *b = build32(c, mb);
        op2(c, a, ma, b, mb, false, "A,B");
        op2(c, b, mb, a, ma, false, "B,A");
        twins2(c, a, ma, 12);
        for (int k = 0; k < 4; k++) {
            RB *t;
            if (k < 2) t = roaring_bitmap_lazy_or(a, b, k); else if (k == 2) t = roaring_bitmap_lazy_xor(a, b);
            else { t = roaring_bitmap_copy(b); roaring_bitmap_lazy_or_inplace(t, a, c.t.draw(2)); }
            roaring_bitmap_repair_after_lazy(t);
            expect32(c, t, ISet::op(ma, mb, k == 2 ? 3 : 1), "lazy");
            roaring_bitmap_free(t);
        }
        u64 lo = gen::near(c, ma, p, MAX32), hi = std::min<u64>(MAX32 + 1, lo + c.t.draw(140000));
        RB *f = roaring_bitmap_flip(a, lo, hi);
        ISet mf = ma;
        if (hi > lo) mf.flip(lo, hi - 1);
        expect32(c, f, mf, "flip");
        roaring_bitmap_run_optimize(f);
        expect32(c, f, mf, "flip, run_optimize");
        exports22(c, f, mf);
        roaring_bitmap_remove_run_compression(f);
        expect32(c, f, mf, "remove_run_compression");
        exports22(c, f, mf);
        roaring_bitmap_free(f);
        exports22(c, a, ma);
        RB *q = roaring_bitmap_add_offset(a, (int64_t)c.t.draw(70000) - 100);
        c.note("add_offset", bytes_of(q));
        roaring_bitmap_free(q);
        roaring_bitmap_free(a);
        roaring_bitmap_free(b);
        return !ISet::op(ma, mb, 0).empty() && !ISet::op(ma, mb, 3).empty();
    }
    if (what == 2) {
        Mach32 m(c);
        m.pool = gen::pool32(c, 3);
        m.start(2);
        m.max_slots = 3;
        Mach32::Weights w = Mach32::everything();
        for (u32 k = 0, n = 4 + (u32)c.t.draw(16); k < n; k++) {
            m.step(w);
            m.check_touched();
        }
        m.check_all("at the end");
        if (!m.s.empty()) exports22(c, m.s[0].r, m.s[0].m);
        bool nt = m.changed >= 2;
        m.finish();
        return nt;
    }
    if (what == 3) {
        gen::Pool p = gen::pool32(c, 3);
        ISet m = c.t.draw(2) ? gen::set32(c, p) : vecs22(c, p, 2000, (u32)c.t.draw(60000));
        RB *r = build32(c, m);
        Queries32 q(c, r, m, p);
        for (u32 k = 0; k < 25; k++) q.one();
        exports22(c, r, m);
        roaring_bitmap_free(r);
        return !m.empty();
    }
    Mach64 m(c);
    m.pool = gen::pool64(c, 5);
    m.start(2);
    m.max_slots = 3;
    Mach64::Weights w = Mach64::everything();
    for (u32 k = 0, n = 3 + (u32)c.t.draw(10); k < n; k++) {
        m.step(w);
        m.check_touched();
    }
    m.check_all("at the end");
    Queries64 q(c, m.s[0].r, m.s[0].m, m.pool);
    for (u32 k = 0; k < 10; k++) q.one();
    bool nt = m.changed >= 2;
    m.finish();
    return nt;
}

PROPERTY(C22, "one generated scenario (pair operations on arrays with sizes next to vector widths, bitmap histories, queries, exports; 32 and 64 bits) is run once per instruction-set level the processor offers, the library's feature test being answered by the harness; every run is compared with the model, and the serialized bytes, exports and statistics of all results are compared between the runs; "
              "non-trivial: at least two levels ran and the scenario's operands overlapped or its history changed the sets") {
    typedef std::vector<std::pair<std::string, u64>> Notes;
    std::vector<int> levels;
    int hw = 0;
    if (&__real_croaring_hardware_support) {
        g_level = -1;
        hw = __real_croaring_hardware_support();
        __builtin_cpu_init();
        bool avx2 = __builtin_cpu_supports("avx2");
        PCHECK(c, !(hw & 1) || avx2, "the library selects AVX2 code, the processor lacks it");
        PCHECK(c, !(hw & 2) || (__builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512bw") && __builtin_cpu_supports("avx512dq") && __builtin_cpu_supports("avx512vbmi2") && __builtin_cpu_supports("avx512bitalg") && __builtin_cpu_supports("avx512vpopcntdq")),
               "the library selects AVX-512 code, the processor lacks it");
    }
    levels.push_back(0);
    if (hw & 1) levels.push_back(1);
    if (hw == 3) levels.push_back(3);
    std::vector<u64> rec;
    Notes first;
    c.t.rec = &rec;
    c.notes = &first;
    g_level = levels[0];
    bool nt = scenario22(c);
    c.t.rec = nullptr;
    c.notes = nullptr;
    for (size_t k = 1; k < levels.size(); k++) {
        Ctx d;
        d.t.mode = REPLAY;
        d.t.in = rec;
        d.thorough = c.thorough;
        d.verbose = c.verbose;
        Notes n;
        d.notes = &n;
        g_level = levels[k];
        scenario22(d);
        PCHECK(d, n.size() == first.size(), "level %d observes %zu results, level 0 %zu", levels[k], n.size(), first.size());
        for (size_t i = 0; i < n.size(); i++)
            PCHECK(d, n[i] == first[i], "%s: level %d gives other bytes than level 0", n[i].first.c_str(), levels[k]);
    }
    g_level = -1;
    c.count("levels", levels.size());
    c.count("feature_tests_answered", g_asked);
    c.count("results_compared", levels.size() > 1 ? first.size() : 0);
    c.nontrivial = nt && levels.size() > 1;
}
