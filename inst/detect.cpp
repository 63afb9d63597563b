// Every composition over parts with every set of capabilities: what it offers is exactly what its parts provide,
// and what it offers compiles when called.
#include "sub.h"
#include "ktl/ktl.h"
#include <ostream>
#include <string>
using namespace w;

struct Mov { Mov(Mov&&) noexcept {} explicit Mov(int&, Mov&&) {} };
// defines construct and destroy for int only
struct IntOnly : Base<0, 0>
{
    bool owns(void*) const noexcept { return true; }
    void construct(int* p, int v) noexcept { *p = v; }
    void destroy(int*) noexcept {}
    bool operator==(const IntOnly&) const noexcept { return true; }
    bool operator!=(const IntOnly&) const noexcept { return false; }
};

#define SAY(name, what) "C31: " name " is offered exactly when the parts provide it"
// expectations of one composition, and the calls
template<typename C, bool O, bool M, bool K, bool D> struct Expect
{
    static_assert(offers_owns<C> == O, "C31: owns is offered exactly when the parts provide it");
    static_assert(offers_max<C> == M, "C31: max_size is offered exactly when the parts provide it");
    static_assert(offers_construct<C, int, int> == K && offers_construct<C, Mov, int&, Mov> == K && offers_construct<C, std::string> == K,
        "C31: construct is offered exactly when the parts provide it");
    static_assert(offers_destroy<C, int> == D && offers_destroy<C, std::string> == D, "C31: destroy is offered exactly when the parts provide it");
    static void use(C& a, const C& c, int* p, Mov* m, std::string* s)
    {
        a.deallocate(a.allocate(1), 1);
        (void)(c == c);
        (void)(c != c);
        if constexpr (O) { bool b = c.owns(p); (void)b; }
        if constexpr (M) { typename C::size_type n = c.max_size(); (void)n; }
        if constexpr (K) { int i = 0; a.construct(p, 3); a.construct(p, i); a.construct(m, i, Mov(std::move(*m))); a.construct(s); a.construct(s, "x"); a.construct(s, size_t(3), 'x'); }
        if constexpr (D) { a.destroy(p); a.destroy(m); a.destroy(s); }
    }
    static constexpr bool ok = (&use != nullptr);
};
template<typename T, typename S, bool O, bool M, bool K, bool D> struct ExpectTyped
{
    using C = ktl::type_allocator<T, S>;
    template<typename A, typename = void> struct towns : std::false_type {};
    template<typename A> struct towns<A, std::void_t<decltype(std::declval<const A&>().owns((T*)nullptr))>> : std::true_type {};
    static_assert(towns<C>::value == O, "C31: type_allocator::owns is offered exactly when the parts provide it");
    static_assert(offers_max<C> == M, "C31: type_allocator::max_size is offered exactly when the parts provide it");
    static_assert(cons_t<void, C, T>::value == K && offers_construct<C, T, T> == K, "C31: type_allocator::construct is offered exactly when the parts provide it");
    static_assert(offers_destroy<C, T> == D, "C31: type_allocator::destroy is offered exactly when the parts provide it");
    static void use(C& a, const C& c, T* p)
    {
        T* q = a.allocate(1);
        a.deallocate(q, 1);
        (void)(c == c);
        (void)(c != c);
        if constexpr (O) { bool b = c.owns(p); (void)b; }
        if constexpr (M) { typename C::size_type n = c.max_size(); (void)n; }
        if constexpr (K) { a.construct(p); a.construct(p, *p); }
        if constexpr (D) a.destroy(p);
    }
    static constexpr bool ok = (&use != nullptr);
};
template<unsigned X> struct One
{
    using S = Sub<X>;
    static constexpr bool o = X & OWNS, m = X & MAXS, k = X & CONS, d = X & DEST;
    static constexpr bool own()
    {
        if constexpr (o)
            return Expect<ktl::cascading<S>, true, m, k, d>::ok;
        return true;
    }
    static constexpr bool ok = Expect<ktl::freelist<0, 16, S>, o, m, k, d>::ok && Expect<ktl::reference<S>, o, m, k, d>::ok && Expect<ktl::shared<S>, o, m, k, d>::ok
        && Expect<ktl::atomic_shared<S>, o, m, k, d>::ok && Expect<ktl::global<S>, o, m, k, d>::ok && Expect<ktl::threaded<S>, o, m, k, d>::ok
        && Expect<ktl::overflow<S>, o, m, true, true>::ok && ExpectTyped<int, S, o, m, k, d>::ok && ExpectTyped<std::string, S, o, m, k, d>::ok && own();
};
template<unsigned P, unsigned F> struct Two
{
    static constexpr bool o = P & OWNS;
    static constexpr bool fb()
    {
        if constexpr (o)
            return Expect<ktl::fallback<Sub<P>, Sub<F>>, (F & OWNS) != 0, (P & F & MAXS) != 0, ((P | F) & CONS) != 0, ((P | F) & DEST) != 0>::ok;
        return true;
    }
    static constexpr bool ok = fb() && Expect<ktl::segragator<8, Sub<P>, Sub<F>>, (P & F & OWNS) != 0, (P & F & MAXS) != 0, o && ((P | F) & CONS), o && ((P | F) & DEST)>::ok;
};
template<unsigned P, size_t... I> constexpr bool row(std::index_sequence<I...>) { return One<P>::ok && (Two<P, I>::ok && ...); }
template<size_t... I> constexpr bool table(std::index_sequence<I...>) { return (row<I>(std::make_index_sequence<16>()) && ...); }
static_assert(table(std::make_index_sequence<16>()));
// instantiate the bodies of the calls
template<typename E> void call() { auto* f = &E::use; (void)f; }
template<unsigned X> void one_calls()
{
    using S = Sub<X>;
    constexpr bool o = X & OWNS, m = X & MAXS, k = X & CONS, d = X & DEST;
    call<Expect<ktl::freelist<0, 16, S>, o, m, k, d>>(); call<Expect<ktl::reference<S>, o, m, k, d>>(); call<Expect<ktl::shared<S>, o, m, k, d>>();
    call<Expect<ktl::atomic_shared<S>, o, m, k, d>>(); call<Expect<ktl::global<S>, o, m, k, d>>(); call<Expect<ktl::threaded<S>, o, m, k, d>>();
    call<Expect<ktl::overflow<S>, o, m, true, true>>(); call<ExpectTyped<int, S, o, m, k, d>>(); call<ExpectTyped<std::string, S, o, m, k, d>>();
    if constexpr (o)
        call<Expect<ktl::cascading<S>, true, m, k, d>>();
}
template<unsigned P, unsigned F> void two_calls()
{
    constexpr bool o = P & OWNS;
    if constexpr (o)
        call<Expect<ktl::fallback<Sub<P>, Sub<F>>, (F & OWNS) != 0, (P & F & MAXS) != 0, ((P | F) & CONS) != 0, ((P | F) & DEST) != 0>>();
    call<Expect<ktl::segragator<8, Sub<P>, Sub<F>>, (P & F & OWNS) != 0, (P & F & MAXS) != 0, o && ((P | F) & CONS), o && ((P | F) & DEST)>>();
}
template<unsigned P, size_t... I> void row_calls(std::index_sequence<I...>) { one_calls<P>(); (two_calls<P, I>(), ...); }
template<size_t... I> void all_calls(std::index_sequence<I...>) { (row_calls<I>(std::make_index_sequence<16>()), ...); }
template void all_calls(std::index_sequence<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>);

// capabilities that depend on the element
template<typename C> struct ForInt
{
    static_assert(offers_construct<C, int, int> && !offers_construct<C, std::string> && !offers_construct<C, int, int, int>, "C31: construct is offered for exactly the types and arguments that the parts provide it for");
    static_assert(offers_destroy<C, int> && !offers_destroy<C, std::string>, "C31: destroy is offered for exactly the types that the parts provide it for");
};
template struct ForInt<IntOnly>;
template struct ForInt<ktl::freelist<0, 16, IntOnly>>;
template struct ForInt<ktl::cascading<IntOnly>>;
template struct ForInt<ktl::reference<IntOnly>>;
template struct ForInt<ktl::shared<IntOnly>>;
template struct ForInt<ktl::global<IntOnly>>;
template struct ForInt<ktl::threaded<IntOnly>>;
template struct ForInt<ktl::fallback<IntOnly, Sub<0>>>;
template struct ForInt<ktl::fallback<Sub<OWNS>, IntOnly>>;
template struct ForInt<ktl::segragator<8, IntOnly, Sub<0>>>;
template struct ForInt<ktl::segragator<8, Sub<OWNS>, IntOnly>>;
static_assert(offers_construct<ktl::type_allocator<int, IntOnly>, int, int> && !offers_construct<ktl::type_allocator<long, IntOnly>, long, int>, "C31: type_allocator::construct is offered for exactly the types that the parts provide it for");
static_assert(offers_destroy<ktl::type_allocator<int, IntOnly>, int> && !offers_destroy<ktl::type_allocator<long, IntOnly>, long>, "C31: type_allocator::destroy is offered for exactly the types that the parts provide it for");

// members of the right name that can't be called as documented
struct Near : Base<0, 0>
{
    bool owns(char*) const noexcept { return true; }
    size_t max_size(int) const noexcept { return 0; }
    void construct() noexcept {}
    void destroy() noexcept {}
    bool operator==(const Near&) const noexcept { return true; }
    bool operator!=(const Near&) const noexcept { return false; }
};
template<typename C> struct Nothing
{
    static_assert(!offers_owns<C> && !offers_max<C> && !offers_construct<C, int, int> && !offers_destroy<C, int>, "C31: nothing is offered that the parts can't be asked for");
};
template struct Nothing<ktl::freelist<0, 16, Near>>;
template struct Nothing<ktl::reference<Near>>;
template struct Nothing<ktl::shared<Near>>;
template struct Nothing<ktl::global<Near>>;
template struct Nothing<ktl::threaded<Near>>;
template struct Nothing<ktl::segragator<8, Near, Near>>;
template struct Nothing<ktl::segragator<8, Sub<ALLCAPS & ~(CONS | DEST)>, Near>>;
// a part that offers construct but not destroy, or the reverse, for a type
struct NoString : Base<0, 0>
{
    bool owns(void*) const noexcept { return true; }
    template<typename T, typename... Args> std::enable_if_t<std::is_constructible_v<T, Args...>> construct(T* p, Args&&... args) { ::new ((void*)p) T(std::forward<Args>(args)...); }
    template<typename T> std::enable_if_t<std::is_trivial_v<T>> destroy(T*) noexcept {}
    bool operator==(const NoString&) const noexcept { return true; }
    bool operator!=(const NoString&) const noexcept { return false; }
};
template<typename C> struct ByType
{
    static_assert(offers_construct<C, std::string> && offers_construct<C, std::string, const char*> && !offers_construct<C, std::string, std::ostream&> && offers_destroy<C, int> && !offers_destroy<C, std::string>,
        "C31: construct and destroy are offered for exactly the types and arguments that the parts provide them for");
};
template struct ByType<NoString>;
template struct ByType<ktl::freelist<0, 16, NoString>>;
template struct ByType<ktl::cascading<NoString>>;
template struct ByType<ktl::reference<NoString>>;
template struct ByType<ktl::shared<NoString>>;
template struct ByType<ktl::global<NoString>>;
template struct ByType<ktl::threaded<NoString>>;
template struct ByType<ktl::fallback<NoString, Sub<0>>>;
template struct ByType<ktl::fallback<Sub<OWNS>, NoString>>;
template struct ByType<ktl::segragator<8, NoString, Sub<0>>>;
template struct ByType<ktl::segragator<8, Sub<OWNS>, NoString>>;

// the raw allocators
#define RAW(C, o, m) static_assert(offers_owns<C> == o && offers_max<C> == m && !offers_construct<C, int, int> && !offers_destroy<C, int>, "C31: what the raw allocators offer")
using Lin = ktl::linear_allocator<64>;
using Sta = ktl::stack_allocator<64>;
RAW(Lin, true, true);
RAW(Sta, true, true);
RAW(ktl::mallocator, false, false);
static_assert(offers_owns<ktl::null_allocator>, "C31: null_allocator offers owns");

// what may be copied and moved
#define COPIES(...) static_assert(std::is_copy_constructible_v<__VA_ARGS__> && std::is_copy_assignable_v<__VA_ARGS__> && std::is_move_constructible_v<__VA_ARGS__>, "C31: allocators with shared state can be copied")
#define NOCOPY(...) static_assert(!std::is_copy_constructible_v<__VA_ARGS__> && !std::is_copy_assignable_v<__VA_ARGS__> && !std::is_constructible_v<__VA_ARGS__, __VA_ARGS__&>, "C31: allocators with contained state can't be copied")
#define MOVES(...) static_assert(std::is_move_constructible_v<__VA_ARGS__> && std::is_move_assignable_v<__VA_ARGS__>, "C31: allocators can be moved")
#define NOMOVE(...) static_assert(!std::is_move_constructible_v<__VA_ARGS__> && !std::is_move_assignable_v<__VA_ARGS__>, "C31: a locked allocator can't be moved")
COPIES(ktl::mallocator); COPIES(ktl::null_allocator); COPIES(Sta);
COPIES(ktl::reference<Lin>); COPIES(ktl::global<Lin>); COPIES(ktl::shared<Lin>); COPIES(ktl::atomic_shared<ktl::threaded<Lin>>);
COPIES(ktl::shared<ktl::cascading<Lin>>); COPIES(ktl::shared<ktl::freelist<0, 16, Lin>>); COPIES(ktl::fallback<ktl::shared<Lin>, ktl::mallocator>);
COPIES(ktl::segragator<8, ktl::shared<Lin>, ktl::mallocator>); COPIES(ktl::type_allocator<int, ktl::shared<Lin>>); COPIES(ktl::type_allocator<int, ktl::mallocator>);
NOCOPY(Lin); NOCOPY(ktl::cascading<Lin>); NOCOPY(ktl::freelist<0, 16, Lin>); NOCOPY(ktl::freelist<0, 16, ktl::mallocator>); NOCOPY(ktl::threaded<Lin>); NOCOPY(ktl::threaded<ktl::mallocator>);
NOCOPY(ktl::fallback<Lin, ktl::mallocator>); NOCOPY(ktl::fallback<ktl::shared<Lin>, Lin>); NOCOPY(ktl::segragator<8, Lin, ktl::mallocator>); NOCOPY(ktl::segragator<8, ktl::mallocator, Lin>);
NOCOPY(ktl::type_allocator<int, Lin>); NOCOPY(ktl::type_allocator<int, ktl::cascading<Lin>>); NOCOPY(ktl::type_allocator<int, ktl::freelist<0, 16, ktl::mallocator>>); NOCOPY(ktl::overflow<Lin>);
MOVES(Lin); MOVES(ktl::cascading<Lin>); MOVES(ktl::freelist<0, 16, Lin>); MOVES(ktl::fallback<Lin, ktl::mallocator>); MOVES(ktl::segragator<8, Lin, ktl::freelist<0, 16, ktl::mallocator>>);
MOVES(ktl::cascading<ktl::threaded<Lin>>);
NOMOVE(ktl::threaded<Lin>); NOMOVE(ktl::threaded<ktl::mallocator>); NOMOVE(ktl::fallback<ktl::threaded<Lin>, ktl::mallocator>);
