#include "queries32.h"
#include "text.h"

// printing: the values in ascending order; per block its key, kind and count
static void printed(Ctx &c, const RB *r, const ISet &m) {
    c.log("printf");
    std::string got = text::captured([&] { roaring_bitmap_printf(r); }), want = text::listed(m);
    size_t k = 0;
    while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
    PCHECK(c, got == want, "printf differs from the sorted values at character %zu: '%.20s', expected '%.20s'", k, got.c_str() + k, want.c_str() + k);
    std::string d = text::captured([&] { roaring_bitmap_printf_describe(r); });
    c.log("describe %s", d.c_str());
    PCHECK(c, d.size() >= 2 && d[0] == '{' && d.back() == '}', "printf_describe is not bracketed");
    const char *q = d.c_str() + 1;
    u32 kinds[3] = {0, 0, 0};
    u64 vals[3] = {0, 0, 0};
    for (auto &part : fmt::split(m)) {
        char kind[16];
        long key, card;
        int used = 0;
        PCHECK(c, sscanf(q, "%ld: %15[a-z] %n", &key, kind, &used) == 2 && used, "printf_describe: cannot read '%.30s'", q);
        q += used;
        if (!strncmp(q, "(shared) ", 9)) q += 9;
        used = 0;
        PCHECK(c, sscanf(q, "(%ld)%n", &card, &used) == 1 && used, "printf_describe: no count at '%.30s'", q);
        q += used;
        if (!strncmp(q, "(shared count = ", 16)) {
            long n;
            used = 0;
            PCHECK(c, sscanf(q, "(shared count = %ld )%n", &n, &used) == 1 && used && n >= 1, "printf_describe: bad sharing count at '%.30s'", q);
            q += used;
        }
        PCHECK(c, key == (long)part.key && card == (long)part.s.card(), "printf_describe: block %ld (%ld), expected %ld (%ld)", key, card, (long)part.key, (long)part.s.card());
        int t = !strcmp(kind, "array") ? 0 : !strcmp(kind, "run") ? 1 : !strcmp(kind, "bitset") ? 2 : -1;
        PCHECK(c, t >= 0, "printf_describe: unknown kind %s", kind);
        kinds[t]++;
        vals[t] += card;
        if (!strncmp(q, ", ", 2)) q += 2;
    }
    PCHECK(c, !strcmp(q, "}"), "printf_describe goes on with '%.30s'", q);
    roaring_statistics_t st;
    roaring_bitmap_statistics(r, &st);
    PCHECK(c, st.n_array_containers == kinds[0] && st.n_run_containers == kinds[1] && st.n_bitset_containers == kinds[2], "statistics and printf_describe disagree about the kinds of blocks");
    PCHECK(c, st.n_values_array_containers == vals[0] && st.n_values_run_containers == vals[1] && st.n_values_bitset_containers == vals[2], "statistics and printf_describe disagree about the values per kind");
}

PROPERTY(C04, "20-60 generated queries per generated 32-bit bitmap, arguments drawn next to interval, word and chunk edges, against the sorted model; "
              "non-trivial: the bitmap is non-empty and at least one query fell before, one inside and one beyond the stored values") {
    c.wide = true;
    gen::Pool p = gen::pool32(c);
    bool cow = c.t.chance(1, 6);
    std::vector<RB *> keep;
    ISet m = gen::set32(c, p);
    RB *r = build32(c, m, cow, &keep);
    c.log("B=%s", m.str().c_str());
    Queries32 q(c, r, m, p);
    u32 n = 20 + (u32)c.t.draw(40);
    for (u32 i = 0; i < n; i++) q.one();
    if (m.card() <= 6000 && c.t.chance(1, 4)) printed(c, r, m);
    expect32(c, r, m, "after the queries");
    c.count("queries", n);
    c.nontrivial = !m.empty() && q.inside && q.before && q.beyond;
    for (RB *k : keep) roaring_bitmap_free(k);
    roaring_bitmap_free(r);
}
