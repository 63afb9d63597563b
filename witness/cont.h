// Model allocator (std allocator requirements) and helpers for the containers.
#pragma once
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <memory>
#include "model.h"

enum : size_t { K_OWNER = 1, K_SIZE = 2 };
constexpr size_t TOP = size_t(1) << 40;      // element counts stay below this

// identity id; copies compare equal.  A copied container continues on id + 100.
template<typename T> struct CA
{
    using value_type = T;
    size_t id;
    CA() noexcept : id(1) {}
    explicit CA(size_t i) noexcept : id(i) {}
    T* allocate(size_t n)
    {
        if (n == 0 && kt_choice(2, "null for an empty block"))
            return nullptr;
        void* p = kt_block(n * sizeof(T), AL, "buffer");
        kt_set(p, K_OWNER, id);
        kt_set(p, K_SIZE, n);
        return (T*)p;
    }
    void deallocate(T* p, size_t n)
    {
        if (!p && n == 0)
            return;
        kt_check(kt_is_block(p), "C21: a buffer is released once, by its start");
        kt_check(kt_get(p, K_OWNER) == id, "C21: a buffer goes back to the allocator that produced it");
        kt_check(kt_get(p, K_SIZE) == n, "C21: a buffer goes back with the count it was requested with");
        kt_release(p);
    }
    CA select_on_container_copy_construction() const { return CA(id + 100); }
    bool operator==(const CA& o) const noexcept { return id == o.id; }
    bool operator!=(const CA& o) const noexcept { return id != o.id; }
};
// the same without identity: always equal
template<typename T> struct CE : CA<T>
{
    CE() noexcept {}
    CE select_on_container_copy_construction() const { return *this; }
};

// element types: W bytes that identify the value
struct Big { uint64_t a, b; };
inline bool operator==(const Big& x, const Big& y) { return x.a == y.a && x.b == y.b; }
inline Big value(Big*, const char*) { return Big{ kt_size("a"), kt_size("b") }; }
inline uint32_t value(uint32_t*, const char* n) { return kt_u32(n); }
inline uint8_t value(uint8_t*, const char* n) { return kt_u8(n); }
template<typename T> T any(const char* n) { return value((T*)nullptr, n); }
// element i of a named ghost sequence
inline void at(Big* r, const char* n, size_t i) { *r = Big{ kt_content_at(n, i * 16, 8), kt_content_at(n, i * 16 + 8, 8) }; }
inline void at(uint32_t* r, const char* n, size_t i) { *r = (uint32_t)kt_content_at(n, i * 4, 4); }
inline void at(uint8_t* r, const char* n, size_t i) { *r = (uint8_t)kt_content_at(n, i, 1); }
template<typename T> T ghost(const char* n, size_t i) { T r; at(&r, n, i); return r; }
