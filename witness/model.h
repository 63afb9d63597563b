// Model components shared by the witness units.
#pragma once
#include <cstdlib>
#include <cstring>
#include "kt.h"

constexpr size_t AL = alignof(std::max_align_t);
inline bool aligned(const void* p) { return (reinterpret_cast<uintptr_t>(p) & (AL - 1)) == 0; }
inline size_t round_up(size_t n) { return (n + (AL - 1)) & ~(AL - 1); }

// an object at an address aligned for its type and for nothing stricter, as a member or
// an array element may be
template<typename T> struct Placed
{
    char* raw;
    T* obj;
    template<typename... A> Placed(A&&... a) : raw((char*)kt_raw_block(sizeof(T) + alignof(T), 4096, "storage"))
    {
        obj = new (raw + alignof(T)) T(static_cast<A&&>(a)...);
    }
    ~Placed() { obj->~T(); kt_release(raw); }
    T& operator*() { return *obj; }
};

constexpr size_t NOTAG = 0;
struct Slot { char* p; size_t n; size_t tag; };

template<size_t N>
inline bool apart(const Slot (&s)[N], const char* p, size_t n)
{
    for (size_t j = 0; j < N; j++)
        if (s[j].p && s[j].n && n && !(s[j].p + s[j].n <= p || p + n <= s[j].p))
            return false;
    return true;
}
