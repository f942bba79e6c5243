// What the library prints.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
#include "iset.h"

namespace text {
// the bytes a function sends to the standard output
template <class F> std::string captured(F f) {
    char *p = nullptr;
    size_t n = 0;
    FILE *mem = open_memstream(&p, &n);
    if (!mem) abort();
    fflush(stdout);
    FILE *old = stdout;
    stdout = mem;
    f();
    stdout = old;
    fclose(mem);
    std::string s(p, n);
    free(p);
    return s;
}
inline std::string listed(const ISet &m, const char *sep = ",", const char *after = "") {
    std::string s = "{";
    bool first = true;
    for (auto &iv : m.v)
        for (uint64_t x = iv.lo;; x++) {
            if (!first) s += sep;
            s += std::to_string(x);
            s += after;
            first = false;
            if (x == iv.hi) break;
        }
    return s + "}";
}
}
