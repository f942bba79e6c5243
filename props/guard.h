// Memory whose overrun, underrun or (read-only) modification faults.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <cstdint>
#include <cstring>

struct Guard {  // data ends exactly at an inaccessible page
    char *base = nullptr;
    size_t total = 0;
    char *p = nullptr;
    size_t n;
    // align: alignment of the start; the slack up to the guard page is then < align
    explicit Guard(size_t bytes, size_t align = 1) : n(bytes) {
        size_t pg = 4096, room = (bytes + pg - 1) / pg * pg + pg;
        total = room + 2 * pg;
        base = (char *)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) abort();
        mprotect(base, pg, PROT_NONE);
        mprotect(base + total - pg, pg, PROT_NONE);
        uintptr_t end = (uintptr_t)base + total - pg;
        p = (char *)((end - bytes) / align * align);
        // nothing may rely on fresh memory being zero
        memset(p, 0xc3, bytes < 65536 ? bytes : 65536);
    }
    void readonly() { mprotect(base + 4096, total - 8192, PROT_READ); }
    ~Guard() { munmap(base, total); }
    Guard(const Guard &) = delete;
};
