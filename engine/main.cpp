// Driver: run | replay | shrink.  See pbt.h.
#include "pbt.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <unordered_set>

using namespace pbt;

namespace pbt {
std::vector<Prop> &registry() {
    static std::vector<Prop> r;
    return r;
}
static Shared *g_shm = nullptr;
static bool g_print_fail = true;

void fail(Ctx &c, const char *file, int line, const char *fmt, ...) {
    char buf[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    const char *base = strrchr(file, '/');
    base = base ? base + 1 : file;
    if (g_shm) {
        g_shm->status = 1;
        snprintf(g_shm->msg, sizeof g_shm->msg, "%s:%d: %s", base, line, buf);
    }
    if (g_print_fail) {
        if (c.verbose) fprintf(stderr, "trace: %s\n", c.trace.c_str());
        fprintf(stderr, "FAILED %s:%d: %s\n", base, line, buf);
    }
#ifdef PBT_LIBFUZZER
    abort();
#else
    fflush(stderr);
    _exit(10);
#endif
}
static void call(PropFn fn, Ctx &c) {
    try {
        fn(c);
    } catch (const std::exception &e) {
        fail(c, "uncaught", 0, "exception: %s", e.what());
    }
}
}  // namespace pbt

#ifdef PBT_LIBFUZZER
static const Prop *g_prop;
extern "C" int LLVMFuzzerInitialize(int *argc, char ***argv) {
    (void)argc; (void)argv;
    const char *id = getenv("PBT_PROP");
    for (auto &p : registry())
        if (id && !strcmp(p.id, id)) g_prop = &p;
    if (!g_prop) abort();
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const u8 *data, size_t size) {
    Ctx c;
    c.t.mode = BYTES;
    c.t.bytes = data;
    c.t.nbytes = size;
    c.thorough = true;
    call(g_prop->fn, c);
    return 0;
}
// Writes the tape of a byte input so that `replay`/`shrink` of the normal
// binary can take over.
#else

static const Prop *find_prop(const char *id) {
    for (auto &p : registry())
        if (!strcmp(p.id, id)) return &p;
    fprintf(stderr, "unknown property %s\n", id);
    exit(3);
}

static Shared *map_shared(const char *path) {
    int fd = path ? open(path, O_RDWR | O_CREAT | O_TRUNC, 0644) : -1;
    void *m;
    if (path) {
        if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror(path); exit(3); }
        m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    } else {
        m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared *)m;
}

static void on_cpu(int) {
    if (g_shm) {
        g_shm->status = 2;
        snprintf(g_shm->msg, sizeof g_shm->msg, "case exceeded its CPU limit (does not terminate)");
    }
    _exit(11);
}
static void arm_cpu(long secs) {
    struct itimerval tv = {};
    tv.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

static u64 case_seed(u64 seed, const char *id, u64 idx) {
    u64 h = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    for (const char *p = id; *p; p++) h = (h ^ (u8)*p) * 1099511628211ull;
    h ^= idx * 0xD6E8FEB86659FD93ull;
    Rng r(h);
    r.next();
    return r.next();
}

static std::string json_escape(const std::string &s) {
    std::string o;
    for (char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if ((u8)ch < 0x20) o += ' ';
        else o += ch;
    }
    return o;
}

static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::vector<u64> load_tape(const char *path) {
    std::vector<u64> v;
    FILE *f = fopen(path, "r");
    if (!f) { perror(path); exit(3); }
    char line[256];
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') continue;
        char *p = line;
        while (*p) {
            char *e;
            u64 x = strtoull(p, &e, 10);
            if (e == p) break;
            v.push_back(x);
            p = e;
        }
    }
    fclose(f);
    return v;
}

static const char *opt(int argc, char **argv, const char *name, const char *def) {
    for (int i = 2; i + 1 < argc; i++)
        if (!strcmp(argv[i], name)) return argv[i + 1];
    return def;
}

static long g_cpu = 40;
static const std::string *g_bytes;  // replay libFuzzer bytes instead of a tape
static bool g_thorough = false;

// Runs one tape in a forked child. Returns 0 pass, 1 failed, 2 hang. `rec`
// receives what was actually drawn (a canonical tape).
static int attempt(const Prop *p, const std::vector<u64> &tape, Shared *shm,
                   std::vector<u64> *rec, std::string *msg, bool quiet, bool verbose,
                   long cpu, u64 seed) {
    shm->len = 0;
    shm->status = 0;
    shm->msg[0] = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        if (quiet) {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            dup2(dn, 2);
        }
        g_shm = shm;
        signal(SIGPROF, on_cpu);
        arm_cpu(cpu);
        Ctx c;
        c.t.mode = REPLAY;
        c.t.in = tape;
        if (g_bytes) {
            c.t.mode = BYTES;
            c.t.bytes = (const u8 *)g_bytes->data();
            c.t.nbytes = g_bytes->size();
        }
        c.t.shm = shm;
        c.verbose = verbose;
        c.seed = seed;
        c.thorough = g_thorough;
        call(p->fn, c);
        if (verbose && !quiet) fprintf(stderr, "trace: %s\n", c.trace.c_str());
        fflush(stderr);
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0) {}
    if (rec) rec->assign(shm->data, shm->data + std::min<u64>(shm->len, kTapeCap));
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (msg) {
        if (shm->status) *msg = shm->msg;
        else if (WIFEXITED(st)) *msg = "process ended with code " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report)";
        else *msg = "process killed by signal " + std::to_string(WTERMSIG(st));
    }
    return shm->status == 2 ? 2 : 1;
}

static int cmd_run(int argc, char **argv) {
    const Prop *p = find_prop(opt(argc, argv, "--prop", ""));
    u64 seed = strtoull(opt(argc, argv, "--seed", "1"), 0, 10);
    u64 from = strtoull(opt(argc, argv, "--from", "0"), 0, 10);
    u64 to = strtoull(opt(argc, argv, "--to", "100"), 0, 10);
    u64 stride = strtoull(opt(argc, argv, "--stride", "1"), 0, 10);
    double budget = atof(opt(argc, argv, "--budget", "1e9"));
    const char *stats = opt(argc, argv, "--stats", nullptr);
    g_shm = map_shared(opt(argc, argv, "--shm", nullptr));
    signal(SIGPROF, on_cpu);
    std::map<std::string, u64> counters;
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
    u64 evals = 0, nontriv = 0;
    double t0 = now(), slow = 0;
    u64 slow_idx = 0;
    bool stopped = false;
    for (u64 i = from; i < to; i += stride) {
        double a = now();
        if (a - t0 > budget) { stopped = true; break; }
        g_shm->case_index = i;
        g_shm->len = 0;
        g_shm->status = 0;
        arm_cpu(g_cpu);
        Ctx c;
        c.t.rng = Rng(case_seed(seed, p->id, i));
        c.t.shm = g_shm;
        c.counters = &counters;
        c.seed = seed;
        c.thorough = g_thorough;
        c.verbose = samples.size() < 2;
        call(p->fn, c);
        evals++;
        if (c.nontrivial) {
            nontriv++;
            distinct.insert(c.t.hash);
            if (c.verbose) {
                std::string s = "case " + std::to_string(i) + ": " + c.trace;
                if (s.size() > 700) s = s.substr(0, 700) + " ...";
                samples.push_back(s);
            }
        }
        double d = now() - a;
        if (d > slow) { slow = d; slow_idx = i; }
    }
    arm_cpu(0);
    if (stats) {
        FILE *f = fopen(stats, "w");
        fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"stopped\": %s, \"slowest_s\": %.3f, \"slowest_case\": %llu, \"wall_s\": %.2f, \"rule\": \"%s\",\n \"counters\": {",
                (unsigned long long)evals, (unsigned long long)nontriv, stopped ? "true" : "false", slow, (unsigned long long)slow_idx, now() - t0,
                json_escape(p->rule).c_str());
        bool first = true;
        for (auto &kv : counters) {
            fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", json_escape(kv.first).c_str(), (unsigned long long)kv.second);
            first = false;
        }
        fprintf(f, "},\n \"samples\": [");
        for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", json_escape(samples[i]).c_str());
        fprintf(f, "],\n \"hashes\": [");
        first = true;
        for (u64 h : distinct) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
        fprintf(f, "]}\n");
        fclose(f);
    }
    return 0;
}

static int cmd_replay(int argc, char **argv) {
    const Prop *p = find_prop(opt(argc, argv, "--prop", ""));
    const char *tp = opt(argc, argv, "--tape", nullptr);
    u64 seed = strtoull(opt(argc, argv, "--seed", "1"), 0, 10);
    bool quiet = atoi(opt(argc, argv, "--quiet", "0"));
    Shared *shm = map_shared(nullptr);
    std::string msg;
    const char *bp = opt(argc, argv, "--bytes", nullptr), *out = opt(argc, argv, "--rec", nullptr);
    std::string bytes;
    if (bp) {
        FILE *f = fopen(bp, "rb");
        if (!f) { perror(bp); return 3; }
        int ch;
        while ((ch = fgetc(f)) != EOF) bytes += (char)ch;
        fclose(f);
        g_bytes = &bytes;
    }
    std::vector<u64> rec;
    int r = attempt(p, bp ? std::vector<u64>() : load_tape(tp), shm, &rec, &msg, quiet, !quiet, g_cpu, seed);
    if (out) {
        FILE *f = fopen(out, "w");
        for (size_t i = 0; i < rec.size(); i++) fprintf(f, "%llu%c", (unsigned long long)rec[i], i % 12 == 11 ? '\n' : ' ');
        fprintf(f, "\n");
        fclose(f);
    }
    printf("RESULT %d %s\n", r, msg.c_str());
    return r ? 1 : 0;
}

static int cmd_shrink(int argc, char **argv) {
    const Prop *p = find_prop(opt(argc, argv, "--prop", ""));
    u64 seed = strtoull(opt(argc, argv, "--seed", "1"), 0, 10);
    double budget = atof(opt(argc, argv, "--budget", "60"));
    const char *out = opt(argc, argv, "--out", nullptr);
    Shared *shm = map_shared(nullptr);
    std::vector<u64> best = load_tape(opt(argc, argv, "--tape", nullptr)), rec;
    std::string msg, m2;
    int kind = attempt(p, best, shm, &rec, &msg, true, false, g_cpu, seed);
    if (kind == 0) { printf("NOREPRO\n"); return 4; }
    if (rec.size() < kTapeCap) best = rec;
    double t0 = now();
    int tries = 0;
    long cpu = kind == 2 ? g_cpu : 20;
    auto ok = [&](const std::vector<u64> &cand) {
        if (now() - t0 > budget) return false;
        tries++;
        std::vector<u64> r2;
        std::string mm;
        int k = attempt(p, cand, shm, &r2, &mm, true, false, cpu, seed);
        if (k != kind) return false;
        if (r2.size() > best.size() || (r2.size() == best.size() && !(r2 < best))) {
            // The canonical tape is what counts as simpler.
            if (!(cand.size() < best.size() || (cand.size() == best.size() && cand < best))) return false;
            best = cand;
        } else {
            best = r2.size() <= cand.size() ? r2 : cand;
        }
        msg = mm;
        return true;
    };
    bool progress = true;
    if (kind != 2)
    while (progress && now() - t0 < budget) {
        progress = false;
        for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {
            for (size_t i = best.size(); i >= blk && now() - t0 < budget;) {
                if (i > best.size()) { i = best.size(); if (i < blk) break; }
                std::vector<u64> cand(best.begin(), best.begin() + (i - blk));
                cand.insert(cand.end(), best.begin() + i, best.end());
                if (ok(cand)) progress = true;
                i = i > blk ? i - blk : 0;
            }
            if (blk == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() - t0 < budget; i++) {
            if (best[i] == 0) continue;
            auto cand = best;
            cand[i] = 0;
            if (ok(cand)) { progress = true; continue; }
            u64 lo = 0, hi = i < best.size() ? best[i] : 0;
            for (int k = 0; k < 12 && hi - lo > 1 && i < best.size(); k++) {
                u64 mid = lo + (hi - lo) / 2;
                cand = best;
                cand[i] = mid;
                if (ok(cand)) { progress = true; hi = mid; } else lo = mid;
            }
            if (i < best.size() && best[i] > 0) {
                cand = best;
                cand[i]--;
                if (ok(cand)) progress = true;
            }
        }
    }
    FILE *f = fopen(out, "w");
    fprintf(f, "# property %s: %s\n# shrunk in %d attempts; one choice per entry\n", p->id, msg.c_str(), tries);
    for (size_t i = 0; i < best.size(); i++) fprintf(f, "%llu%c", (unsigned long long)best[i], i % 12 == 11 ? '\n' : ' ');
    fprintf(f, "\n");
    fclose(f);
    printf("SHRUNK %zu %s\n", best.size(), msg.c_str());
    return 0;
}

int main(int argc, char **argv) {
    if (argc < 2) return 3;
    g_cpu = atol(opt(argc, argv, "--cpu", "40"));
    g_thorough = !strcmp(opt(argc, argv, "--tier", "quick"), "thorough");
    std::string cmd = argv[1];
    if (cmd == "run") return cmd_run(argc, argv);
    if (cmd == "replay") return cmd_replay(argc, argv);
    if (cmd == "shrink") return cmd_shrink(argc, argv);
    if (cmd == "list") {
        for (auto &p : registry()) printf("%s\n", p.id);
        return 0;
    }
    return 3;
}
#endif
