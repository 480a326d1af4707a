// Allocation-failure injection: the C allocation functions of everything linked statically into the
// program (the library under test) go through the __wrap functions (see CMakeLists.txt), the C++
// operators are replaced.  Failures happen only while armed, in the armed thread.
#ifndef ALLOC_HPP
#define ALLOC_HPP
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <new>

extern "C" {
void* __real_malloc(std::size_t);
void* __real_calloc(std::size_t, std::size_t);
void* __real_realloc(void*, std::size_t);
void  __real_free(void*);
}

namespace alloc {
struct State
{
    bool armed = false;        // failures may be injected, allocations are counted
    long count = 0;            // allocations since armed
    long failAt = -1;          // 1-based; -1 never
    bool sticky = false;       // all later ones fail too
    long injected = 0;          // failures injected
    long soft = 0;             // of these: in the non-throwing C++ operator (the caller may have a fallback)
    long live = 0;             // outstanding C blocks (malloc family)
    long liveNew = 0;          // outstanding C++ blocks
    bool badFree = false;
};
inline State& st() { static State s; return s; }

inline bool fails()
{
    State& s = st();
    if (!s.armed) { return false; }
    ++s.count;
    if (s.failAt > 0 && (s.count == s.failAt || (s.sticky && s.count > s.failAt))) { ++s.injected; return true; }
    return false;
}
inline void arm(long failAt, bool sticky) { State& s = st(); s.count = 0; s.injected = 0; s.soft = 0; s.failAt = failAt; s.sticky = sticky; s.armed = true; }
inline void disarm() { st().armed = false; }
} // namespace alloc

extern "C" {
void* __wrap_malloc(std::size_t n) { if (alloc::fails()) { errno = ENOMEM; return nullptr; } void* p = __real_malloc(n); if (p) { ++alloc::st().live; } return p; }
void* __wrap_calloc(std::size_t a, std::size_t b) { if (alloc::fails()) { errno = ENOMEM; return nullptr; } void* p = __real_calloc(a, b); if (p) { ++alloc::st().live; } return p; }
void* __wrap_realloc(void* q, std::size_t n) { if (alloc::fails()) { errno = ENOMEM; return nullptr; } void* p = __real_realloc(q, n); if (p && !q) { ++alloc::st().live; } return p; }
void  __wrap_free(void* p) { if (p) { --alloc::st().live; } __real_free(p); }
}

#ifdef ALLOC_REPLACE_NEW
static void* newImpl(std::size_t n)
{
    if (alloc::fails()) { throw std::bad_alloc(); }
    void* p = __real_malloc(n ? n : 1);
    if (!p) { throw std::bad_alloc(); }
    ++alloc::st().liveNew;
    return p;
}
static void delImpl(void* p) noexcept { if (p) { --alloc::st().liveNew; __real_free(p); } }
void* operator new(std::size_t n) { return newImpl(n); }
void* operator new[](std::size_t n) { return newImpl(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return newImpl(n); } catch (...) { ++alloc::st().soft; return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return newImpl(n); } catch (...) { ++alloc::st().soft; return nullptr; } }
void operator delete(void* p) noexcept { delImpl(p); }
void operator delete[](void* p) noexcept { delImpl(p); }
void operator delete(void* p, std::size_t) noexcept { delImpl(p); }
void operator delete[](void* p, std::size_t) noexcept { delImpl(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { delImpl(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { delImpl(p); }
#endif
#endif
