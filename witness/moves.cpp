// What moving an allocator leaves behind on both sides.
#define SUBP "C21,C33"
#include "sub.h"
#include "ktl/allocators/cascading.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/mallocator.h"
#include "ktl/allocators/overflow.h"
#include "ktl/allocators/segragator.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/stack_allocator.h"
#include "ktl/allocators/type_allocator.h"
using namespace ktl;

// an unused bump allocator offers all of its storage, in one piece or in two, again and again
template<size_t Size, typename A> static void whole(A& a)
{
    for (int round = 0; round < 3; round++)
    {
        size_t n = round == 1 ? kt_range(1, Size, "n") : Size;
        // after a round that frees in the order of allocation only the count of live bytes tells that all is free again
        char* p = (char*)a.allocate(n);
        kt_check(p != nullptr, "C05,C33: after a move the whole storage can be used");
        if (!p)
            kt_stop();
        kt_access(p, n, "C01,C33: the block lies inside the storage");
        kt_check(a.owns(p), "C20,C33: owns is true for the block just returned");
        kt_hold(p, n, "C02,C33: disjoint from every live block");
        size_t m = round == 1 ? kt_size("m") : 1;
        char* q = (char*)a.allocate(m);
        if (q)
        {
            kt_access(q, m, "C01,C33: the block lies inside the storage");
            kt_hold(q, m, "C02,C33: disjoint from every live block");
        }
        else
            kt_check(round_up(n) >= Size || m > Size - round_up(n), "C05,C33: a request that fits is served");
        kt_unhold(p, n);
        a.deallocate(p, n);
        if (q)
        {
            kt_unhold(q, m);
            a.deallocate(q, m);
        }
    }
}
// a source in any state without allocations
template<typename A> static void use(A& a)
{
    if (kt_choice(2, "used before"))
    {
        size_t n = kt_range(1, 128, "first");
        char* p = (char*)a.allocate(n);
        if (!p)
            kt_stop();
        size_t m = kt_size("second");
        char* q = (char*)a.allocate(m);
        a.deallocate(p, n);
        if (q)
            a.deallocate(q, m);
    }
}
HARNESS(move_linear_ctor, "C01 C02 C05 C20 C32 C33")
{
    linear_allocator<128> a;
    use(a);
    linear_allocator<128> b(std::move(a));
    char* p = (char*)a.allocate(16);
    char* q = (char*)b.allocate(16);
    kt_check(p && q && !kt_same_object(p, q), "C33: both operands work on their own storage");
    a.deallocate(p, 16);
    b.deallocate(q, 16);
    if (kt_choice(2, "which"))
        whole<128>(a);
    else
        whole<128>(b);
}
HARNESS(move_linear_assign, "C01 C02 C05 C20 C32 C33")
{
    linear_allocator<128> a, b;
    use(a);
    // what the destination held is given up
    size_t n = kt_size("destination");
    b.allocate(n);
    linear_allocator<128>& r = (b = std::move(a));
    kt_check(&r == &b, "C33: assignment returns the allocator");
    if (kt_choice(2, "which"))
        whole<128>(a);
    else
        whole<128>(b);
}
HARNESS(move_stack, "C02 C17 C20 C33")
{
    stack<128> st, st2;
    stack_allocator<128> a(st), c(st2);
    char* p = (char*)a.allocate(kt_range(1, 64, "n") * 0 + 32);
    kt_hold(p, 32, "C02,C33: disjoint from every live block");
    stack_allocator<128> b(std::move(a));
    c = b;
    kt_check(b == c && !(b != c), "C17,C33: copies refer to the same stack");
    kt_check(b.owns(p) && c.owns(p), "C20,C33: owns is true for a live block");
    char* q = (char*)c.allocate(64);
    kt_check(q != nullptr, "C33: the copy serves from the rest of the stack");
    kt_hold(q, 64, "C02,C33: disjoint from every live block");
    char* r = (char*)b.allocate(33);
    kt_check(r == nullptr, "C02,C33: the copies share what is in use");
    kt_unhold(p, 32);
    kt_unhold(q, 64);
    c.deallocate(p, 32);
    b.deallocate(q, 64);
    whole<128>(c);
}

// a part that owns something: exactly one instance answers for it
struct Part : Sub<OWNS>
{
    bool holds = true;
    explicit Part(size_t i) noexcept : Sub<OWNS>(i) {}
    Part(Part&& o) noexcept : Sub<OWNS>(o.id), holds(o.holds) { o.holds = false; o.id = 99; }
    Part& operator=(Part&& o) noexcept { id = o.id; holds = o.holds; o.holds = false; o.id = 99; return *this; }
};
template<typename A> static void pair_of(size_t first, size_t second)
{
    {
        A a{ std::tuple<size_t>{ first }, std::tuple<size_t>{ second } };
        Slot s[2] = {};
        for (size_t i = 0; i < 2; i++)
        {
            s[i].n = i ? 100 : 10;
            s[i].p = (char*)a.allocate(s[i].n);
            if (s[i].p)
                s[i].tag = kt_get(s[i].p, K_OWNER);
        }
        switch (kt_choice(2, "move"))
        {
        case 0:
        {
            A b(std::move(a));
            for (size_t i = 0; i < 2; i++)
                if (s[i].p)
                {
                    probe.reset();
                    b.deallocate(s[i].p, s[i].n);
                    kt_check(probe.deallocs == 1 && probe.lastid == s[i].tag, "C33: the destination releases what the source handed out");
                }
            break;
        }
        default:
        {
            A b{ std::tuple<size_t>{ 7 }, std::tuple<size_t>{ 8 } };
            b = std::move(a);
            for (size_t i = 0; i < 2; i++)
                if (s[i].p)
                {
                    probe.reset();
                    b.deallocate(s[i].p, s[i].n);
                    kt_check(probe.deallocs == 1 && probe.lastid == s[i].tag, "C33: the destination releases what the source handed out");
                }
        }
        }
    }
    kt_check(kt_live_blocks() == 0, "C33: nothing is leaked");
}
HARNESS(move_fallback, "C08 C33") { pair_of<fallback<Part, Part>>(1, 2); }
HARNESS(move_segragator, "C09 C33") { pair_of<segragator<64, Part, Part>>(1, 2); }

// free lists inside compositions: every cached block goes back exactly once
template<typename A> static void cached()
{
    {
        A a;
        Slot s[3] = {};
        for (size_t i = 0; i < 3; i++)
        {
            s[i].n = i == 1 ? 100 : 10;
            s[i].p = (char*)a.allocate(s[i].n);
        }
        for (size_t i = 0; i < 3; i++)
            if (s[i].p && kt_choice(2, "give back"))
            {
                a.deallocate(s[i].p, s[i].n);
                s[i] = Slot{};
            }
        auto rest = [&](A& x)
        {
            for (size_t i = 0; i < 3; i++)
                if (s[i].p)
                    x.deallocate(s[i].p, s[i].n);
        };
        switch (kt_choice(3, "move"))
        {
        case 0: { A b(std::move(a)); rest(b); break; }
        case 1:
        {
            A b;
            void* p = b.allocate(20);
            if (p)
                b.deallocate(p, 20);
            b = std::move(a);
            rest(b);
            break;
        }
        default: rest(a);
        }
    }
    kt_check(kt_live_blocks() == 0 && kt_live_mallocs() == 0, "C07,C33: every cached block is released exactly once");
}
HARNESS(move_segragator_freelist, "C07 C09 C33") { cached<segragator<64, freelist<0, 64, Sub<OWNS>>, Sub<OWNS, 2>>>(); }
HARNESS(move_fallback_freelist, "C07 C08 C33") { cached<fallback<freelist<0, 64, Sub<OWNS>>, Sub<OWNS, 2>>>(); }
HARNESS(move_freelist_mallocator, "C07 C33") { kt_malloc_never_fails(); cached<segragator<64, freelist<0, 64, mallocator>, mallocator>>(); }
