#ifndef GUARD_HPP
#define GUARD_HPP
#include <sys/mman.h>
#include <cstring>
#include <cstdlib>
// Memory whose end (or begin) touches an inaccessible page: any access past the given range faults.
template <class T> struct Guarded {
    static constexpr std::size_t page = 4096, pages = 16;
    char* base;
    Guarded() {
        base = (char*)mmap(nullptr, page * (pages + 2), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) std::abort();
        mprotect(base, page, PROT_NONE);
        mprotect(base + page * (pages + 1), page, PROT_NONE);
    }
    T* last() { return (T*)(base + page * (pages + 1)); }
    T* end_range(std::size_t n) { return last() - n; }     // [p, p+n) ends at the guard page
    T* begin_range() { return (T*)(base + page); }          // starts right after a guard page
    Guarded(const Guarded&) = delete;
};
#endif
