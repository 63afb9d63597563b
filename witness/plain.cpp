// Equality of every allocator, and what the simple allocators and freelist promise besides allocation.
#define SUBP "C17"
#include "sub.h"
#include "ktl/allocators/null_allocator.h"
#include "ktl/allocators/mallocator.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/stack_allocator.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/cascading.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/segragator.h"
#include "ktl/allocators/reference.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/global.h"
#include "ktl/allocators/threaded.h"
#include "ktl/allocators/type_allocator.h"
#include "ktl/allocators/overflow.h"
using namespace ktl;

// the laws every pair of allocators obeys; expect: 1 equal, 0 different, 2 unknown
template<typename A, typename B> static void laws(const A& a, const B& b, int expect)
{
    bool e = a == b;
    kt_check(a == a && b == b, "C17: an allocator equals itself");
    kt_check(!(a != a) && !(b != b), "C17: != is the negation of ==");
    kt_check((b == a) == e, "C17: equality is symmetric");
    kt_check((a != b) == !e && (b != a) == !e, "C17: != is the negation of ==");
    if (expect < 2)
        kt_check(e == (expect == 1), "C17: allocators are equal exactly when they refer to the same state");
}
// equal allocators release each other's blocks
template<typename A, typename B> static void exchange(A& a, B& b, size_t n)
{
    if (!(a == b))
        return;
    void* p = a.allocate(n);
    if (!p)
        return;
    b.deallocate(p, n);
    kt_check(true, "C17: equal allocators release each other's blocks");
}

HARNESS(eq_null, "C17 C18 C20 C32")
{
    null_allocator a, b;
    laws(a, b, 1);
    size_t n = kt_size("n");
    void* p = a.allocate(n);
    kt_check(p == nullptr, "C18: null_allocator serves nothing");
    char x;
    kt_check(!a.owns(&x), "C20: null_allocator owns nothing");
    a.deallocate(nullptr, n);
}
HARNESS(eq_mallocator, "C01 C02 C03 C04 C17 C18")
{
    mallocator a, b;
    laws(a, b, 1);
    Slot s[2] = {};
    for (;;)
    {
        kt_loop(20);
        size_t i = kt_choice(2, "slot");
        mallocator& h = kt_choice(2, "handle") ? b : a;
        size_t before = kt_live_mallocs();
        if (s[i].p)
        {
            kt_unhold(s[i].p, s[i].n);
            h.deallocate(s[i].p, s[i].n);
            kt_check(kt_live_mallocs() == before - 1, "C17: equal allocators release each other's blocks");
            s[i] = Slot{};
        }
        else
        {
            size_t n = kt_size("n");
            char* p = (char*)h.allocate(n);
            kt_check(kt_live_mallocs() == before + (p ? 1 : 0), "C18: a refused request leaves nothing behind");
            if (p)
            {
                kt_hold(p, n, "C01,C02,C04: the block has room for the request");
                kt_check(aligned(p), "C03: aligned to max_align_t");
                s[i] = Slot{ p, n, 0 };
            }
        }
    }
}
HARNESS(malloc_serves, "C35")
{
    kt_malloc_never_fails();
    mallocator a;
    size_t n = kt_size("n"), m = kt_size("m");
    kt_assume(n <= size_t(1) << 45 && m <= size_t(1) << 45);
    void* p = a.allocate(n);
    void* q = a.allocate(m);
    kt_check(p && q, "C35: a request is refused only when malloc refuses it");
    a.deallocate(p, n);
    p = a.allocate(m);
    kt_check(p, "C35: a request is refused only when malloc refuses it");
    a.deallocate(q, m);
    a.deallocate(p, m);
}
HARNESS(eq_linear, "C17 C20")
{
    linear_allocator<64> a, b;
    laws(a, b, 0);
    size_t n = kt_size("n");
    char* p = (char*)a.allocate(n);
    laws(a, b, 0);
    if (p)
        kt_check(a.owns(p) && !b.owns(p), "C20: owns tells the allocators apart");
    linear_allocator<64> c(std::move(b));
    laws(a, c, 0);
    laws(b, c, 0);
}
HARNESS(eq_stack, "C17 C20")
{
    stack<64> s, t;
    stack_allocator<64> a(s), b(&s), c(t), d(a);
    laws(a, b, 1);
    laws(a, c, 0);
    laws(a, d, 1);
    size_t n = kt_size("n");
    exchange(a, b, n);
    exchange(d, b, n);
    char* p = (char*)a.allocate(n);
    if (p)
        kt_check(b.owns(p) && !c.owns(p), "C20: owns tells the allocators apart");
    c = a;
    laws(a, c, 1);
    if (p)
        c.deallocate(p, n);
}
typedef Sub<OWNS | MAXS> S;
HARNESS(eq_freelist, "C17 C20 C32")
{
    size_t ib = kt_choice(2, "other") ? 6 : 5;
    {
        freelist<0, 32, S> a(size_t(5), size_t(32)), b(ib, size_t(32));
        laws(a, b, ib == 5);
        exchange(a, b, 8);
        if (kt_choice(2, "cache"))
            if (void* p = a.allocate(8))
                a.deallocate(p, 8);
        laws(a, b, ib == 5 ? 2 : 0);
        exchange(a, b, 8);
        exchange(b, a, 8);
        size_t n = kt_size("n");
        void* p = a.allocate(n);
        if (p)
        {
            kt_check(a.owns(p), "C20: owns is true for a live block");
            kt_check(b.owns(p) == (ib == 5), "C20: owns tells the allocators apart");
            kt_check(n <= a.max_size(), "C20: nothing above max_size is served");
            a.deallocate(p, n);
        }
    }
    kt_check(kt_live_blocks() == 0, "C17: equal allocators release each other's blocks");
}
// the underlying allocator serves less than Max: max_size still tells the truth
HARNESS(freelist_max_size, "C20")
{
    size_t lim = kt_size("limit");
    freelist<0, 32, S> a(size_t(5), lim);
    for (int i = 0; i < 2; i++)
    {
        size_t n = kt_size("n");
        void* p = a.allocate(n);
        kt_check(!p || n <= a.max_size(), "C20: nothing above max_size is served");
        if (p)
            a.deallocate(p, n);
    }
}
HARNESS(freelist_construct, "C19")
{
    freelist<0, sizeof(Fwd), Sub<CONS>> a(size_t(5));
    Obj* mem = (Obj*)a.allocate(sizeof(Obj));
    if (!mem)
        kt_stop();
    size_t v = kt_size("v");
    probe.reset();
    a.construct(mem, v);
    kt_check(kt_obj_count() == 1 && mem->v == v && probe.cons == 1 && probe.lastp == mem, "C19: construct makes exactly one object from the arguments");
    a.destroy(mem);
    kt_check(kt_obj_count() == 0 && probe.dest == 1, "C19: destroy ends exactly one lifetime");
    forwards(a, mem);
    a.deallocate(mem, sizeof(Obj));
}
HARNESS(eq_cascading, "C17 C20 C32")
{
    kt_malloc_never_fails();
    cascading<linear_allocator<32>> a, b;
    laws(a, b, 2);
    void* p = a.allocate(8);
    laws(a, b, 0);
    void* q = b.allocate(8);
    laws(a, b, 0);
    kt_check(a.owns(p) && !a.owns(q) && b.owns(q) && !b.owns(p), "C20: owns tells the allocators apart");
    a.deallocate(p, 8);
    b.deallocate(q, 8);
    laws(a, b, 2);
}
template<typename A> static void pair(const A& a, const A& b, bool same) { laws(a, b, same); }
HARNESS(eq_compositions, "C17")
{
    kt_malloc_never_fails();
    size_t i = kt_choice(2, "i") + 3, j = kt_choice(2, "j") + 3;
    size_t k = kt_choice(2, "k") + 3, l = kt_choice(2, "l") + 3;
    Sub<0> si(i), sk(k);
    switch (kt_choice(8, "kind"))
    {
    case 0:
    {
        fallback<Sub<OWNS>, Sub<0>> a(std::tuple<size_t>{ i }, std::tuple<size_t>{ j }), b(std::tuple<size_t>{ k }, std::tuple<size_t>{ l });
        laws(a, b, i == k && j == l);
        break;
    }
    case 1:
    {
        segragator<16, Sub<0>, Sub<0>> a(std::tuple<size_t>{ i }, std::tuple<size_t>{ j }), b(std::tuple<size_t>{ k }, std::tuple<size_t>{ l });
        laws(a, b, i == k && j == l);
        break;
    }
    case 2:
    {
        reference<Sub<0>> a(si), b(sk), c(si);
        laws(a, c, 1);
        if (i != k)
            laws(a, b, 0);
        laws(a, b, 2);
        Sub<0> twin(i);          // equal to si, but another object
        reference<Sub<0>> d(twin);
        laws(a, d, 2);
        break;
    }
    case 3:
    {
        shared<Sub<0>> a(i), b(k), c(a);
        laws(a, c, 1);
        if (i != k)
            laws(a, b, 0);
        laws(a, b, 2);
        break;
    }
    case 4:
    {
        threaded<Sub<0>> a(i), b(k);
        laws(a, b, i == k);
        break;
    }
    case 5:
    {
        type_allocator<int, Sub<0>> a(si), b(sk);
        type_allocator<double, Sub<0>> c(si), d(sk);
        laws(a, b, i == k);
        laws(a, c, 1);
        kt_check((a == d) == (i == k) && (a != d) == (i != k), "C17: typed allocators are equal exactly when what they wrap is");
        break;
    }
    case 6:
    {
        atomic_shared<Sub<0>> a(i), b(k), c(a);
        laws(a, c, 1);
        laws(a, b, 2);
        shared<Sub<0>> d(i), e(std::move(d)), f(i);
        laws(d, e, 0);
        laws(e, f, 2);
        break;
    }
    case 7:
    {
        global<Sub<0>> a, b;
        laws(a, b, 1);
        break;
    }
    }
}
