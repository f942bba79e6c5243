#include "reads.h"
#include "guard.h"
#include "threads26.h"
#include <roaring/isadetection.h>
#include <roaring/portability.h>
typedef unsigned long long ull;
#if !CROARING_IS_X64
inline int croaring_hardware_support() { return 0; }
#else
using roaring::internal::croaring_hardware_support;
#endif

// One thread's work: its own family of bitmaps (copies of what other threads
// hold too), and reads of bitmaps nobody changes.
struct Base26 { RB *r; ISet m; };
struct Reader26 { std::vector<Base26> anc; RB *r; const RB *view; RB64 *w; ISet m, m64; gen::Pool p, p64; bool fit; };

static u64 work26(Ctx &c, Mach32 &m, const Mach32::Weights &w, u32 steps, const Reader26 &ro, u32 reads) {
    for (u32 k = 0; k < steps; k++) {
        if (c.t.draw(100) < reads) {
            switch (c.t.draw(13)) {
                case 12: {  // a 64-bit bitmap of this thread alone
                    Mach64 q(c);
                    q.pool = ro.p64;
                    q.start(1);
                    Mach64::Weights w64 = Mach64::everything();
                    for (int i = 0; i < 4; i++) q.step(w64);
                    q.check_all("a thread's own 64-bit bitmap");
                    q.finish();
                    break;
                }
                case 8: case 9: {  // any read-only operation
                    Pair32 x = {ro.r, ro.view, ro.m, ro.m}, y = {ro.view, ro.r, ro.m, ro.m};
                    for (int i = 0; i < 3; i++) read32(c, c.t.draw(2) ? x : y, ro.p, true, true, false);
                    break;
                }
                case 10: case 11: {
                    Pair64 x = {ro.w, ro.w, ro.m64, ro.m64};
                    for (int i = 0; i < 2; i++) read64(c, x, ro.p64, ro.fit, true);
                    break;
                }
                case 7: {  // a copy-on-write bitmap others hold copies of
                    if (ro.anc.empty()) break;
                    const Base26 &b = ro.anc[c.t.draw(ro.anc.size())];
                    Queries32 q(c, b.r, b.m, ro.p);
                    for (int i = 0; i < 3; i++) q.one();
                    Iter32 it(c, b.r, b.m, ro.p);
                    for (int i = 0; i < 5; i++) it.step();
                    it.done();
                    PCHECK(c, roaring_bitmap_equals(b.r, b.r) && roaring_bitmap_and_cardinality(b.r, ro.r) == ISet::op(b.m, ro.m, 0).card(), "reading a common ancestor");
                    break;
                }
                case 0: case 1: {
                    Queries32 q(c, c.t.draw(3) ? ro.r : ro.view, ro.m, ro.p);
                    for (int i = 0; i < 4; i++) q.one();
                    break;
                }
                case 2: {
                    Iter32 it(c, c.t.draw(3) ? ro.r : ro.view, ro.m, ro.p);
                    for (int i = 0; i < 5; i++) it.step();
                    it.done();
                    break;
                }
                case 3: { Queries64 q(c, ro.w, ro.m64, ro.p64); for (int i = 0; i < 4; i++) q.one(); break; }
                case 4: { Iter64 it(c, ro.w, ro.m64, ro.p64); for (int i = 0; i < 5; i++) it.step(); it.done(); break; }
                case 5: {  // a reading operand of everybody
                    RB *t = roaring_bitmap_copy(ro.r);
                    expect32(c, t, ro.m, "copy of the common bitmap");
                    roaring_bitmap_free(t);
                    RB *a = roaring_bitmap_or(ro.r, ro.view);
                    expect32(c, a, ro.m, "union with itself of the common bitmap");
                    roaring_bitmap_free(a);
                    break;
                }
                default: {
                    RB64 *t = roaring64_bitmap_and(ro.w, ro.w);
                    PCHECK(c, roaring64_bitmap_equals(t, ro.w), "common 64-bit bitmap");
                    roaring64_bitmap_free(t);
                    PCHECK(c, bytes_of(ro.r) == bytes_of(ro.view), "serialised common bitmap");
                }
            }
            continue;
        }
        m.step(w);
        m.check_touched();
    }
    m.check_all("a thread's own bitmap, at the end");
    u64 ch = m.changed;
    m.finish();
    return ch;
}

PROPERTY(C26, "2-4 threads, each owning copies (and copies of copies) of common copy-on-write bitmaps, run generated histories of 2-25 operations over their own bitmaps and reads of common unmodified bitmaps (32-bit, view, 64-bit); a generated schedule switches threads at atomic operations and allocation requests; ThreadSanitizer (happens-before) or AddressSanitizer watches, and every thread compares its bitmaps with its own model; "
              "non-trivial: at least 2 threads changed bitmaps that share storage and at least 3 switches took place") {
    static bool hooked = false;
    u64 useed = c.t.seed();
    if (!hooked) {  // the first use of the library in this process: by several threads at once
        sched::install();
        hooked = true;
        static const u64 den[4] = {2, 2, 2, 2};
        int got[4] = {-1, -1, -1, -1}, later[4];
        u64 sum[4] = {};
        sched::run(4, useed, 60, den, [&](int i) {
            got[i] = croaring_hardware_support();
            later[i] = croaring_hardware_support();
            RB *r = roaring_bitmap_from_range(5, 30000, 3);
            RB *q = roaring_bitmap_from_range(6, 9000, 2);
            sum[i] = roaring_bitmap_and_cardinality(r, q) * 7 + roaring_bitmap_or_cardinality(r, q);
            roaring_bitmap_free(r);
            roaring_bitmap_free(q);
        });
        for (int i = 0; i < 4; i++) {
            PCHECK(c, got[i] == later[3] && later[i] == later[3], "first use by several threads: instruction sets %x then %x, elsewhere %x", got[i], later[i], later[3]);
            PCHECK(c, sum[i] == sum[0], "first use by several threads: different results");
        }
    }
    gen::Pool p = gen::pool32(c, 3);
    Reader26 ro;
    ro.p = p;
    ro.m = gen::set32(c, p);
    ro.r = build32(c, ro.m);
    ro.p64 = gen::pool64(c);
    ro.m64 = gen::set64(c, ro.p64);
    ro.w = build64(c, ro.m64);
    ro.fit = c.t.draw(2);
    if (ro.fit) roaring64_bitmap_shrink_to_fit(ro.w);
    size_t fs = roaring_bitmap_frozen_size_in_bytes(ro.r);
    Guard g(fs, 32);
    roaring_bitmap_frozen_serialize(ro.r, g.p);
    ro.view = roaring_bitmap_frozen_view(g.p, fs);
    PCHECK(c, ro.view, "setup");
    // the common ancestors
    typedef Base26 Base;
    std::vector<Base> base;
    for (u64 i = 0, n = 1 + c.t.draw(2); i < n; i++) {
        Base b;
        b.m = gen::set32(c, p);
        b.r = build32(c, b.m, true);
        base.push_back(b);
    }
    int n = 2 + (int)c.t.pick({3, 2, 1});
    u32 reads = (u32)c.t.pick({4, 2, 1}) * 40;
    Mach32::Weights w = Mach32::everything();
    switch (c.t.draw(3)) {
        case 0: w[Mach32::COPY] = 12; w[Mach32::FREE] = 8; w[Mach32::OVERWRITE] = 6; break;
        case 1:  // small changes only
            w = Mach32::Weights(Mach32::NOPS, 0);
            w[Mach32::ADD] = w[Mach32::REM] = w[Mach32::ADDC] = w[Mach32::REMC] = 3; w[Mach32::REMMANY] = w[Mach32::ADDMANY] = 1;
            w[Mach32::FREE] = 3; w[Mach32::COPY] = 3; w[Mach32::ADDCHUNK] = 1; w[Mach32::ORI] = w[Mach32::ANDNOTI] = 1; w[Mach32::RUNOPT] = 1;
            break;
        default: break;
    }
    struct Th { Ctx c; Mach32 *m; u32 steps; u64 changed; };
    std::vector<std::unique_ptr<Th>> th;
    for (int i = 0; i < n; i++) {
        th.emplace_back(new Th());
        Th &t = *th.back();
        t.c.t.rng = Rng(c.t.seed() * 31 + i);
        t.c.t.mode = GENERATE;
        t.steps = 2 + (u32)c.t.draw(c.t.chance(1, 3) ? 24 : 8);
        t.changed = 0;
        t.m = new Mach32(t.c);
        t.m->pool = p;
        t.m->cow = true;
        for (auto &b : base)
            if (c.t.draw(5)) {
                RB *r = roaring_bitmap_copy(b.r);
                t.m->s.push_back({r, b.m});
                if (c.t.chance(1, 4)) t.m->s.push_back({roaring_bitmap_copy(r), b.m});
            }
    }
    for (auto &b : base)  // the ancestors go to a thread, are freed, or stay
        switch (c.t.draw(3)) {
            case 0: th[c.t.draw(n)]->m->s.push_back({b.r, b.m}); b.r = nullptr; break;
            case 1: roaring_bitmap_free(b.r); b.r = nullptr; break;
            default: break;
        }
    for (auto &b : base) if (b.r) ro.anc.push_back(b);
    for (auto &t : th)
        if (t->m->s.empty()) t->m->s.push_back({[&] { RB *r = roaring_bitmap_create(); roaring_bitmap_set_copy_on_write(r, true); return r; }(), ISet()});
    static const u64 dens[6][4] = {{2, 8, 16, 0}, {1, 4, 8, 200}, {4, 2, 4, 50}, {3, 0, 0, 0}, {20, 40, 80, 400}, {1, 1, 1, 20}};
    const u64 *den = dens[c.t.draw(6)];
    u64 budget = c.t.draw(4) ? 2 + c.t.draw(14) : c.t.draw(400);
    u64 seed = c.t.seed();
    c.log("%d threads, budget %llu", n, (ull)budget);
    sched::run(n, seed, budget, den, [&](int i) {
        Th &t = *th[i];
        t.changed = work26(t.c, *t.m, w, t.steps, ro, reads);
    });
    int active = 0;
    for (auto &t : th) { active += t->changed > 0; delete t->m; }
    for (auto &b : base) if (b.r) { expect32(c, b.r, b.m, "the common ancestor"); expect_valid(c, b.r, "the common ancestor"); roaring_bitmap_free(b.r); }
    expect32(c, ro.r, ro.m, "the common bitmap");
    roaring_bitmap_free(ro.view);
    roaring_bitmap_free(ro.r);
    roaring64_bitmap_free(ro.w);
    c.count("switches", sched::S.switches);
    c.count("atomic_points", sched::S.points[sched::REFCOUNT]);
    c.count("allocation_points", sched::S.points[sched::ALLOC]);
    c.count("threads", n);
    c.nontrivial = active >= 2 && sched::S.switches >= 3;
}
