// Each noexcept condition against the operations of the parts that the member may call:
// with one operation of one part throwing at a time, the member is noexcept exactly when it does not call it.
#include "sub.h"
#include "ktl/ktl.h"
#include <ostream>
using namespace w;

struct Quiet { Quiet() noexcept {} Quiet(int) noexcept {} Quiet(const Quiet&) noexcept {} Quiet& operator=(const Quiet&) noexcept { return *this; } ~Quiet() noexcept {} bool operator<(const Quiet&) const { return false; } };
struct Noisy { Noisy() noexcept {} Noisy(int) noexcept(false) {} ~Noisy() noexcept(false) {} };

template<typename C> C& obj() noexcept;
template<typename C> const C& cobj() noexcept;

// the members of allocator C, as whether they are noexcept
template<typename C> constexpr bool N_allocate = noexcept(obj<C>().allocate(size_t()));
template<typename C> constexpr bool N_deallocate = noexcept(obj<C>().deallocate(nullptr, size_t()));
template<typename C> constexpr bool N_owns = noexcept(cobj<C>().owns(nullptr));
template<typename C> constexpr bool N_max = noexcept(cobj<C>().max_size());
template<typename C> constexpr bool N_cons = noexcept(obj<C>().construct((Quiet*)nullptr, 1));
template<typename C> constexpr bool N_dest = noexcept(obj<C>().destroy((Quiet*)nullptr));
template<typename C> constexpr bool N_tcons = noexcept(obj<C>().construct((Noisy*)nullptr, 1));
template<typename C> constexpr bool N_tdest = noexcept(obj<C>().destroy((Noisy*)nullptr));
template<typename C> constexpr bool N_eq = noexcept(cobj<C>() == cobj<C>());
template<typename C> constexpr bool N_ne = noexcept(cobj<C>() != cobj<C>());
template<typename C> constexpr bool N_default = std::is_nothrow_default_constructible_v<C>;
template<typename C> constexpr bool N_copy = std::is_nothrow_copy_constructible_v<C>;
template<typename C> constexpr bool N_move = std::is_nothrow_move_constructible_v<C>;
template<typename C> constexpr bool N_cassign = std::is_nothrow_copy_assignable_v<C>;
template<typename C> constexpr bool N_massign = std::is_nothrow_move_assignable_v<C>;

// ROWX skip: operations whose exceptions the row says nothing about
#define ROW(what, N, C, bit, calls) static_assert(N<C> == !((bit) & (calls)), "C30: noexcept of " what " tells whether the parts it calls may throw")
#define ROWX(what, N, C, bit, calls, skip) static_assert(((bit) & (skip)) || N<C> == !((bit) & (calls)), "C30: noexcept of " what " tells whether the parts it calls may throw")

// ---- wrappers of one allocator, B: the one operation that may throw
template<unsigned B> struct One
{
    using S = Sub<ALLCAPS, B>;
    using SM = Sub<OWNS, B>;        // without max_size, construct, destroy
    static constexpr bool check()
    {
        {
            using C = ktl::freelist<0, 16, S>;
            ROW("freelist::allocate", N_allocate, C, B, AL);
            ROW("freelist::deallocate", N_deallocate, C, B, 0);
            ROW("freelist::owns", N_owns, C, B, OW);
            ROW("freelist::max_size", N_max, C, B, MX);
            ROW("freelist::construct", N_cons, C, B, CO);
            ROW("freelist::destroy", N_dest, C, B, DS);
            ROW("freelist::operator==", N_eq, C, B, EQ);
            ROW("freelist::operator!=", N_ne, C, B, NE);
            ROWX("freelist()", N_default, C, B, DC, DT | DE);
            static_assert((B & (DT | DE)) || std::is_nothrow_constructible_v<C, int*> == !(B & XT), "C30: noexcept of freelist(args...) tells whether the parts it calls may throw");
            ROWX("freelist(freelist&&)", N_move, C, B, MV, DT | DE);
            ROW("freelist::operator=(freelist&&)", N_massign, C, B, MA | DE);
        }
        {
            using C = ktl::cascading<S>;
            using CM = ktl::cascading<SM>;
            ROW("cascading::allocate", N_allocate, C, B, DC | AL | MX | DT);
            ROW("cascading::allocate without max_size", N_allocate, CM, B, DC | AL | DT);
            ROW("cascading::deallocate", N_deallocate, C, B, OW | DE | DT);
            ROW("cascading::owns", N_owns, C, B, OW);
            ROWX("cascading::max_size", N_max, C, B, MX | DC, DT);
            ROW("cascading::construct", N_cons, C, B, OW | CO);
            ROW("cascading::destroy", N_dest, C, B, OW | DS);
            ROW("cascading::operator==", N_eq, C, B, 0);
            ROW("cascading::operator!=", N_ne, C, B, 0);
            ROWX("cascading()", N_default, C, B, 0, DT);
            ROWX("cascading(cascading&&)", N_move, C, B, 0, DT);
            ROW("cascading::operator=(cascading&&)", N_massign, C, B, DT);
        }
        {
            using C = ktl::reference<S>;
            ROW("reference::allocate", N_allocate, C, B, AL);
            ROW("reference::deallocate", N_deallocate, C, B, DE);
            ROW("reference::owns", N_owns, C, B, OW);
            ROW("reference::max_size", N_max, C, B, MX);
            ROW("reference::construct", N_cons, C, B, CO);
            ROW("reference::destroy", N_dest, C, B, DS);
            ROW("reference::operator==", N_eq, C, B, EQ);
            ROW("reference::operator!=", N_ne, C, B, NE);
            static_assert(std::is_nothrow_constructible_v<C, S&>, "C30: a reference may be made without calling the allocator");
            ROW("reference(const reference&)", N_copy, C, B, 0);
            ROW("reference(reference&&)", N_move, C, B, 0);
            ROW("reference::operator=(const reference&)", N_cassign, C, B, 0);
            ROW("reference::operator=(reference&&)", N_massign, C, B, 0);
        }
        {
            using C = ktl::shared<S>;
            using CA_ = ktl::atomic_shared<S>;
            ROW("shared::allocate", N_allocate, C, B, AL);
            ROW("shared::deallocate", N_deallocate, C, B, DE);
            ROW("shared::owns", N_owns, C, B, OW);
            ROW("shared::max_size", N_max, C, B, MX);
            ROW("shared::construct", N_cons, C, B, CO);
            ROW("shared::destroy", N_dest, C, B, DS);
            ROW("shared::operator==", N_eq, C, B, EQ);
            ROW("shared::operator!=", N_ne, C, B, NE);
            ROWX("shared()", N_default, C, B, DC, DT);
            static_assert((B & DT) || std::is_nothrow_constructible_v<C, int*> == !(B & XT), "C30: noexcept of shared(args...) tells whether the parts it calls may throw");
            ROWX("shared(const shared&)", N_copy, C, B, 0, DT);
            ROWX("shared(shared&&)", N_move, C, B, 0, DT);
            ROW("shared::operator=(const shared&)", N_cassign, C, B, DT);
            ROW("shared::operator=(shared&&)", N_massign, C, B, DT);
            ROW("atomic_shared::allocate", N_allocate, CA_, B, AL);
            ROW("atomic_shared::deallocate", N_deallocate, CA_, B, DE);
            ROW("atomic_shared::operator=(const shared&)", N_cassign, CA_, B, DT);
            ROW("atomic_shared::operator=(shared&&)", N_massign, CA_, B, DT);
        }
        {
            using C = ktl::global<S>;
            ROW("global::allocate", N_allocate, C, B, AL);
            ROW("global::deallocate", N_deallocate, C, B, DE);
            ROW("global::owns", N_owns, C, B, OW);
            ROW("global::max_size", N_max, C, B, MX);
            ROW("global::construct", N_cons, C, B, CO);
            ROW("global::destroy", N_dest, C, B, DS);
            ROW("global()", N_default, C, B, 0);
            ROW("global(const global&)", N_copy, C, B, 0);
            static_assert(noexcept(obj<C>().set_allocator(std::declval<S>())) == !(B & (MA | DT)) || (B & DT), "C30: noexcept of global::set_allocator tells whether the parts it calls may throw");
        }
        {
            using C = ktl::threaded<S>;
            static_assert(!(B & AL) || !N_allocate<C>, "C30: noexcept of threaded::allocate tells whether the parts it calls may throw");
            static_assert(!(B & DE) || !N_deallocate<C>, "C30: noexcept of threaded::deallocate tells whether the parts it calls may throw");
            static_assert(!(B & OW) || !N_owns<C>, "C30: noexcept of threaded::owns tells whether the parts it calls may throw");
            static_assert(!(B & MX) || !N_max<C>, "C30: noexcept of threaded::max_size tells whether the parts it calls may throw");
            ROW("threaded::construct", N_cons, C, B, CO);
            ROW("threaded::destroy", N_dest, C, B, DS);
            ROW("threaded::operator==", N_eq, C, B, EQ);
            ROW("threaded::operator!=", N_ne, C, B, NE);
            ROWX("threaded()", N_default, C, B, DC, DT);
            static_assert((B & DT) || std::is_nothrow_constructible_v<C, int*> == !(B & XT), "C30: noexcept of threaded(args...) tells whether the parts it calls may throw");
        }
        {
            using C = ktl::overflow<S>;
            using CM = ktl::overflow<SM>;
            ROW("overflow::allocate", N_allocate, C, B, AL);
            ROW("overflow::deallocate", N_deallocate, C, B, DE);
            ROW("overflow::owns", N_owns, C, B, OW);
            ROW("overflow::max_size", N_max, C, B, MX);
            ROW("overflow::construct", N_cons, C, B, CO);
            ROW("overflow::destroy", N_dest, C, B, DS);
            ROW("overflow::construct without construct below", N_cons, CM, B, 0);
            ROW("overflow::destroy without destroy below", N_dest, CM, B, 0);
            static_assert(!N_tcons<CM> && !N_tdest<CM>, "C30: noexcept of overflow::construct and destroy tells whether the element may throw");
            ROW("overflow::operator==", N_eq, C, B, EQ);
            ROW("overflow::operator!=", N_ne, C, B, NE);
            static_assert((B & DT) || std::is_nothrow_constructible_v<C, std::ostream&> == !(B & DC), "C30: noexcept of overflow(stream) tells whether the parts it calls may throw");
            static_assert((B & DT) || std::is_nothrow_constructible_v<C, std::ostream&, int*> == !(B & XT), "C30: noexcept of overflow(stream, args...) tells whether the parts it calls may throw");
            ROWX("overflow(const overflow&)", N_copy, C, B, CP, DT);
            ROWX("overflow(overflow&&)", N_move, C, B, MV, DT);
        }
        if constexpr (!(B & (CP | MV | CA | MA | DT)))     // the others are rejected
        {
            using C = ktl::type_allocator<Quiet, S>;
            static_assert(noexcept(obj<C>().allocate(size_t())) == !(B & AL), "C30: noexcept of type_allocator::allocate tells whether the parts it calls may throw");
            ROW("type_allocator::deallocate", N_deallocate, C, B, DE);
            ROW("type_allocator::owns", N_owns, C, B, OW);
            ROW("type_allocator::max_size", N_max, C, B, MX);
            ROW("type_allocator::construct", N_cons, C, B, CO);
            ROW("type_allocator::destroy", N_dest, C, B, DS);
            ROW("type_allocator's operator==", N_eq, C, B, EQ);
            ROW("type_allocator's operator!=", N_ne, C, B, NE);
            ROW("type_allocator()", N_default, C, B, DC);
            static_assert(std::is_nothrow_constructible_v<C, int*> == !(B & XT), "C30: noexcept of type_allocator(args...) tells whether the parts it calls may throw");
            static_assert(std::is_nothrow_constructible_v<C, const ktl::type_allocator<int, S>&> && std::is_nothrow_constructible_v<C, ktl::type_allocator<int, S>&&>,
                "C30: noexcept of type_allocator's conversions tells whether copying the allocator may throw");
            ROW("type_allocator(const type_allocator&)", N_copy, C, B, 0);
            ROW("type_allocator(type_allocator&&)", N_move, C, B, 0);
            ROW("type_allocator::operator=(const type_allocator&)", N_cassign, C, B, 0);
            ROW("type_allocator::operator=(type_allocator&&)", N_massign, C, B, 0);
        }
        return true;
    }
};

// ---- compositions of two, P and F: what may throw in each
template<typename C, unsigned P, unsigned F, unsigned DeP> struct Pair
{
    static constexpr bool two(unsigned calls) { return !((P | F) & calls); }
    static constexpr bool check()
    {
        constexpr bool nodt = !((P | F) & DT);
        static_assert(N_allocate<C> == two(AL), "C30: noexcept of fallback/segragator::allocate tells whether the parts it calls may throw");
        static_assert(N_deallocate<C> == (two(DE) && !(P & DeP)), "C30: noexcept of fallback/segragator::deallocate tells whether the parts it calls may throw");
        static_assert(N_owns<C> == two(OW), "C30: noexcept of fallback/segragator::owns tells whether the parts it calls may throw");
        static_assert(N_max<C> == two(MX), "C30: noexcept of fallback/segragator::max_size tells whether the parts it calls may throw");
        static_assert(N_cons<C> == (two(CO) && !(P & OW)), "C30: noexcept of fallback/segragator::construct tells whether the parts it calls may throw");
        static_assert(N_dest<C> == (two(DS) && !(P & OW)), "C30: noexcept of fallback/segragator::destroy tells whether the parts it calls may throw");
        static_assert(N_eq<C> == two(EQ), "C30: noexcept of fallback/segragator::operator== tells whether the parts it calls may throw");
        static_assert(N_ne<C> == two(NE), "C30: noexcept of fallback/segragator::operator!= tells whether the parts it calls may throw");
        static_assert(N_default<C> == two(DC) || !nodt, "C30: noexcept of fallback/segragator() tells whether the parts it calls may throw");
        static_assert(N_copy<C> == two(CP) || !nodt, "C30: noexcept of the fallback/segragator copy constructor tells whether the parts it calls may throw");
        static_assert(N_move<C> == two(MV) || !nodt, "C30: noexcept of the fallback/segragator move constructor tells whether the parts it calls may throw");
        static_assert(N_cassign<C> == two(CA), "C30: noexcept of the fallback/segragator copy assignment tells whether the parts it calls may throw");
        static_assert(N_massign<C> == two(MA), "C30: noexcept of the fallback/segragator move assignment tells whether the parts it calls may throw");
        if constexpr (nodt)
        {
            using T1 = std::tuple<int*, char>;
            static_assert(std::is_nothrow_constructible_v<C, int*> == !((P & XT) | (F & DC)), "C30: noexcept of fallback/segragator(primary) tells whether the parts it calls may throw");
            static_assert(std::is_nothrow_constructible_v<C, int*, int*> == two(XT), "C30: noexcept of fallback/segragator(primary, fallback) tells whether the parts it calls may throw");
            static_assert(std::is_nothrow_constructible_v<C, T1> == !((P & XT) | (F & DC)), "C30: noexcept of fallback/segragator(tuple) tells whether the parts it calls may throw");
            static_assert(std::is_nothrow_constructible_v<C, T1, T1> == two(XT), "C30: noexcept of fallback/segragator(tuple, tuple) tells whether the parts it calls may throw");
        }
        return true;
    }
};
// only one part defines construct and destroy: the element's own exceptions count too
template<unsigned CP_, unsigned CF_, unsigned P, unsigned F> struct Half
{
    static constexpr bool check()
    {
        using A = ktl::fallback<Sub<OWNS | CP_, P>, Sub<CF_, F>>;
        using B = ktl::segragator<8, Sub<OWNS | CP_, P>, Sub<CF_, F>>;
        constexpr unsigned t = (CP_ ? P : 0) | (CF_ ? F : 0);
        static_assert(N_cons<A> == !((t & CO) | (P & OW)) && N_cons<B> == N_cons<A>, "C30: noexcept of fallback/segragator::construct tells whether the parts it calls may throw");
        static_assert(N_dest<A> == !((t & DS) | (P & OW)) && N_dest<B> == N_dest<A>, "C30: noexcept of fallback/segragator::destroy tells whether the parts it calls may throw");
        static_assert(!N_tcons<A> && !N_tcons<B>, "C30: noexcept of fallback/segragator::construct tells whether the element may throw");
        static_assert(!N_tdest<A> && !N_tdest<B>, "C30: noexcept of fallback/segragator::destroy tells whether the element may throw");
        return true;
    }
};

template<unsigned B> struct Each
{
    static constexpr bool ok = One<B>::check()
        && Pair<ktl::fallback<Sub<ALLCAPS, B>, Sub<ALLCAPS, 0>>, B, 0, OW>::check()
        && Pair<ktl::fallback<Sub<ALLCAPS, 0>, Sub<ALLCAPS, B>>, 0, B, OW>::check()
        && Pair<ktl::segragator<8, Sub<ALLCAPS, B>, Sub<ALLCAPS, 0>>, B, 0, 0>::check()
        && Pair<ktl::segragator<8, Sub<ALLCAPS, 0>, Sub<ALLCAPS, B>>, 0, B, 0>::check()
        && Half<CONS | DEST, 0, B, 0>::check() && Half<CONS | DEST, 0, 0, B>::check()
        && Half<0, CONS | DEST, B, 0>::check() && Half<0, CONS | DEST, 0, B>::check();
};
static_assert(Each<0>::ok && Each<AL>::ok && Each<DE>::ok && Each<OW>::ok && Each<MX>::ok && Each<CO>::ok && Each<DS>::ok && Each<EQ>::ok && Each<NE>::ok
    && Each<DC>::ok && Each<CP>::ok && Each<MV>::ok && Each<CA>::ok && Each<MA>::ok && Each<XT>::ok && Each<DT>::ok);
static_assert(Each<ALLOPS & ~(CP | MV | CA | MA | DT)>::ok);

// ---- containers: conditions that depend on the element
template<bool C, bool M, bool CAs, bool MAs> struct El
{
    int v = 0;
    El() noexcept {}
    El(const El&) noexcept(!C) {}
    El(El&&) noexcept(!M) {}
    El& operator=(const El&) noexcept(!CAs) { return *this; }
    El& operator=(El&&) noexcept(!MAs) { return *this; }
    bool operator<(const El& o) const { return v < o.v; }
};
template<typename E> using Heap = ktl::binary_heap<E, std::less<E>, std::allocator<E>>;
using Calm = Heap<El<false, false, false, false>>;
static_assert(std::is_nothrow_copy_constructible_v<Calm> && std::is_nothrow_move_constructible_v<Calm> && std::is_nothrow_copy_assignable_v<Calm> && std::is_nothrow_move_assignable_v<Calm>,
    "C30: copying and moving a binary_heap is noexcept when copying and moving its elements is");
using BadCopy = Heap<El<true, false, false, false>>;
static_assert(!std::is_nothrow_copy_constructible_v<BadCopy> && !std::is_nothrow_constructible_v<BadCopy, const BadCopy&, const std::allocator<El<true, false, false, false>>&> && !std::is_nothrow_copy_assignable_v<BadCopy>,
    "C30: copying a binary_heap isn't noexcept when copying an element may throw");
using BadMove = Heap<El<false, true, false, false>>;
static_assert(!std::is_nothrow_constructible_v<BadMove, BadMove&&, const std::allocator<El<false, true, false, false>>&>,
    "C30: moving a binary_heap to another allocator isn't noexcept when moving an element may throw");
