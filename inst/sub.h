// Sub-allocators with any set of capabilities and any operation that may throw.
#pragma once
#include <cstddef>
#include <new>
#include <tuple>
#include <type_traits>
#include <utility>

namespace w
{
// capabilities
enum : unsigned { OWNS = 1, MAXS = 2, CONS = 4, DEST = 8, ALLCAPS = 15 };
// operations that may throw
enum : unsigned { AL = 1, DE = 2, OW = 4, MX = 8, CO = 16, DS = 32, EQ = 64, NE = 128, DC = 256, CP = 512, MV = 1024, CA = 2048, MA = 4096, XT = 8192,
    DT = 16384, ALLOPS = 32767 };

template<unsigned C, unsigned M> struct Base
{
    Base() noexcept(!(M & DC)) {}
    Base(int*) noexcept(!(M & XT)) {}
    Base(int*, char) noexcept(!(M & XT)) {}
    Base(const Base&) noexcept(!(M & CP)) {}
    Base(Base&&) noexcept(!(M & MV)) {}
    Base& operator=(const Base&) noexcept(!(M & CA)) { return *this; }
    Base& operator=(Base&&) noexcept(!(M & MA)) { return *this; }
    ~Base() noexcept(!(M & DT)) {}
    void* allocate(size_t n) noexcept(!(M & AL)) { return n == 7 ? this : nullptr; }
    void deallocate(void*, size_t) noexcept(!(M & DE)) {}
};
template<unsigned C, unsigned M, bool = (C & OWNS) != 0> struct WithOwns : Base<C, M> { using Base<C, M>::Base; };
template<unsigned C, unsigned M> struct WithOwns<C, M, true> : Base<C, M>
{
    using Base<C, M>::Base;
    bool owns(void* p) const noexcept(!(M & OW)) { return p == this; }
};
template<unsigned C, unsigned M, bool = (C & MAXS) != 0> struct WithMax : WithOwns<C, M> { using WithOwns<C, M>::WithOwns; };
template<unsigned C, unsigned M> struct WithMax<C, M, true> : WithOwns<C, M>
{
    using WithOwns<C, M>::WithOwns;
    size_t max_size() const noexcept(!(M & MX)) { return 1; }
};
template<unsigned C, unsigned M, bool = (C & CONS) != 0> struct WithCons : WithMax<C, M> { using WithMax<C, M>::WithMax; };
template<unsigned C, unsigned M> struct WithCons<C, M, true> : WithMax<C, M>
{
    using WithMax<C, M>::WithMax;
    template<typename T, typename... Args, typename = std::enable_if_t<std::is_constructible_v<T, Args...>>>
    void construct(T* p, Args&&... args) noexcept(!(M & CO)) { ::new ((void*)p) T(std::forward<Args>(args)...); }
};
template<unsigned C, unsigned M, bool = (C & DEST) != 0> struct WithDest : WithCons<C, M> { using WithCons<C, M>::WithCons; };
template<unsigned C, unsigned M> struct WithDest<C, M, true> : WithCons<C, M>
{
    using WithCons<C, M>::WithCons;
    template<typename T> void destroy(T* p) noexcept(!(M & DS)) { p->~T(); }
};
template<unsigned C, unsigned M = 0> struct Sub : WithDest<C, M>
{
    using WithDest<C, M>::WithDest;
    Sub() = default;
    bool operator==(const Sub&) const noexcept(!(M & EQ)) { return true; }
    bool operator!=(const Sub&) const noexcept(!(M & NE)) { return false; }
};

template<typename A, typename = void> struct owns_t : std::false_type {};
template<typename A> struct owns_t<A, std::void_t<decltype(std::declval<const A&>().owns(std::declval<void*>()))>> : std::true_type {};
template<typename A> constexpr bool offers_owns = owns_t<A>::value;
template<typename A, typename = void> struct max_t : std::false_type {};
template<typename A> struct max_t<A, std::void_t<decltype(std::declval<const A&>().max_size())>> : std::true_type {};
template<typename A> constexpr bool offers_max = max_t<A>::value;
template<typename Void, typename A, typename T, typename... Args> struct cons_t : std::false_type {};
template<typename A, typename T, typename... Args>
struct cons_t<std::void_t<decltype(std::declval<A&>().construct(std::declval<T*>(), std::declval<Args>()...))>, A, T, Args...> : std::true_type {};
template<typename A, typename T, typename... Args> constexpr bool offers_construct = cons_t<void, A, T, Args...>::value;
template<typename A, typename T, typename = void> struct dest_t : std::false_type {};
template<typename A, typename T> struct dest_t<A, T, std::void_t<decltype(std::declval<A&>().destroy(std::declval<T*>()))>> : std::true_type {};
template<typename A, typename T> constexpr bool offers_destroy = dest_t<A, T>::value;
}
