// Small property-based testing engine: every random decision of a generated
// case is one entry of a "tape".  A tape is generated from a seed, recorded,
// shrunk by editing its entries, and replayed; the same property functions run
// from a seed, from a tape file and from libFuzzer bytes.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt {

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

struct Rng {  // splitmix64
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
};

static const u64 kTapeCap = 1u << 18;

// Lives in a shared file mapping so that it survives a crash of the process.
struct Shared {
    u64 case_index;
    u64 len;        // entries recorded for the running case
    u64 status;     // 0 running, 1 property failed, 2 cpu limit
    char msg[4096];
    u64 data[kTapeCap];
};

enum Mode { GENERATE, REPLAY, BYTES };

class Tape {
   public:
    Mode mode = GENERATE;
    Rng rng{0};
    std::vector<u64> in;
    size_t pos = 0;
    const u8 *bytes = nullptr;
    size_t nbytes = 0;
    Shared *shm = nullptr;
    std::vector<u64> *rec = nullptr;
    u64 hash = 1469598103934665603ull;

    // Uniform in [0, n); n == 0 means the full 64-bit range.
    u64 draw(u64 n) {
        u64 v;
        if (n == 1) return 0;
        if (mode == GENERATE) {
            v = n ? rng.next() % n : rng.next();
        } else if (mode == REPLAY) {
            v = pos < in.size() ? in[pos++] : 0;
            if (n) v %= n;
        } else {
            int w = (n && n <= 256) ? 1 : (n && n <= 65536) ? 2 : (n && n <= (1ull << 32)) ? 4 : 8;
            v = 0;
            for (int i = 0; i < w; i++) {
                v |= (u64)(pos < nbytes ? bytes[pos] : 0) << (8 * i);
                pos++;
            }
            if (n) v %= n;
        }
        if (rec) rec->push_back(v);
        if (shm && shm->len < kTapeCap) shm->data[shm->len++] = v;
        hash = (hash ^ v) * 1099511628211ull;
        hash ^= hash >> 29;
        return v;
    }
    bool exhausted() const { return mode == BYTES && pos >= nbytes; }
    u64 range(u64 lo, u64 hi) { return lo + draw(hi - lo + 1); }  // inclusive
    // true with probability num/den; shrinks towards false
    bool chance(u32 num, u32 den) { return draw(den) >= den - num; }
    // index by weights; shrinks towards the first entries
    size_t pick(std::initializer_list<u32> w) {
        u64 tot = 0;
        for (u32 x : w) tot += x;
        u64 v = draw(tot);
        size_t i = 0;
        for (u32 x : w) {
            if (v < x) return i;
            v -= x;
            i++;
        }
        return 0;
    }
    u64 seed() { return draw(1ull << 24); }
};

struct Ctx {
    Tape t;
    bool verbose = false;  // keep a trace of the case
    std::string trace;
    bool nontrivial = false;
    std::map<std::string, u64> *counters = nullptr;
    u64 seed = 0;
    bool thorough = false;
    bool wide = false;  // sets over all 2^16 chunks may be generated
    // what a run observed, for comparing several runs of one case
    std::vector<std::pair<std::string, u64>> *notes = nullptr;
    void note(const std::string &what, const std::string &bytes) {
        if (notes) notes->push_back({what, std::hash<std::string>()(bytes)});
    }

    void count(const char *name, u64 by = 1) {
        if (counters) (*counters)[name] += by;
    }
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!verbose || trace.size() > 20000) return;
        char buf[512];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        trace += buf;
        trace += "; ";
    }
};

[[noreturn]] void fail(Ctx &c, const char *file, int line, const char *fmt, ...)
    __attribute__((format(printf, 4, 5)));

#define PCHECK(ctx, cond, ...)                                   \
    do {                                                         \
        if (!(cond)) ::pbt::fail((ctx), __FILE__, __LINE__, __VA_ARGS__); \
    } while (0)

typedef void (*PropFn)(Ctx &);
struct Prop {
    const char *id;
    PropFn fn;
    const char *rule;
};
std::vector<Prop> &registry();
struct Register {
    Register(const char *id, PropFn fn, const char *rule) {
        registry().push_back({id, fn, rule});
    }
};
// rule: how cases are made and what makes one non-trivial.
#define PROPERTY(ID, RULE)                                  \
    static void prop_##ID(::pbt::Ctx &);                    \
    static ::pbt::Register reg_##ID(#ID, prop_##ID, RULE);  \
    static void prop_##ID(::pbt::Ctx &c)

}  // namespace pbt
