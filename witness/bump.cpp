// linear_allocator / stack_allocator under the most general client.
#include "model.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/stack_allocator.h"

using namespace ktl;

// every history with at most SLOTS live blocks, any sizes, any order
template<size_t Size, size_t SLOTS, typename A>
static void client(A& a, A& b)
{
    Slot s[SLOTS] = {};
    size_t used = 0;    // upper bound of the storage a correct bump allocator has in use
    size_t live = 0;
    for (;;)
    {
        kt_loop(60);
        size_t i = kt_choice(SLOTS, "slot");
        A& h = &a != &b && kt_choice(2, "handle") ? b : a;
        if (s[i].p)
        {
            kt_check(h.owns(s[i].p), "C20: owns is true for a live block");
            kt_unhold(s[i].p, s[i].n);
            h.deallocate(s[i].p, s[i].n);
            if (s[i].tag == used)
                used -= round_up(s[i].n);
            if (s[i].n && --live == 0)
                used = 0;
            s[i] = Slot{};
        }
        else
        {
            size_t n = kt_size("n");
            char* p = (char*)h.allocate(n);
            if (p)
            {
                kt_check(n <= Size, "C04: a request larger than the storage is refused");
                kt_check(n <= h.max_size(), "C20: nothing above max_size is served");
                kt_access(p, n, "C01,C04: the block lies inside the storage");
                kt_check(h.owns(p), "C20: owns is true for the block just returned");
                kt_check(aligned(p), "C03: aligned to max_align_t");
                kt_hold(p, n, "C02: disjoint from every live block");
                s[i].p = p;
                s[i].n = n;
                used += round_up(n);
                s[i].tag = used;
                if (n)
                    live++;
            }
            else
                kt_check(n == 0 || n > Size || round_up(n) > Size - used, "C05,C18,C35: a request that fits is served");
        }
    }
}

HARNESS(linear_256, "C01 C02 C03 C04 C05 C18 C20 C32 C35")
{
    linear_allocator<256> a;
    client<256, 3>(a, a);
}
HARNESS(linear_100, "C01 C02 C03 C04 C05 C18 C20 C32 C35")
{
    linear_allocator<100> a;
    client<100, 2>(a, a);
}
HARNESS(stack_256, "C01 C02 C03 C04 C05 C18 C20 C32 C35")
{
    stack<256> st;
    stack_allocator<256> a(st);
    stack_allocator<256> b(&st);
    client<256, 3>(a, b);
}
HARNESS(stack_100, "C01 C02 C03 C04 C05 C18 C20 C32 C35")
{
    stack<100> st;
    stack_allocator<100> a(st);
    stack_allocator<100> b(a);
    client<100, 2>(a, b);
}

// the object itself is only as aligned as its type asks for
HARNESS(linear_placed, "C01 C02 C03 C04 C20")
{
    Placed<linear_allocator<48>> a;
    client<48, 2>(*a, *a);
}
HARNESS(stack_placed, "C01 C02 C03 C04 C20")
{
    Placed<stack<48>> st;
    stack_allocator<48> a(*st), b(*st);
    client<48, 2>(a, b);
}

// storage beyond every narrower counter
HARNESS(linear_huge, "C01 C02 C04 C05 C18 C20 C35")
{
    linear_allocator<(size_t(1) << 34) + 16> a;
    client<(size_t(1) << 34) + 16, 2>(a, a);
}
HARNESS(stack_huge, "C01 C02 C04 C05 C18 C20 C35")
{
    stack<(size_t(1) << 34) + 16> st;
    stack_allocator<(size_t(1) << 34) + 16> a(st);
    client<(size_t(1) << 34) + 16, 2>(a, a);
}

// the storage is a range of Size bytes: every location in it is owned, none outside it
template<size_t Size, typename A> static void owned(A& a)
{
    size_t n = kt_range(1, Size, "n");
    char* p = (char*)a.allocate(n);
    if (!p)
    {
        kt_check(round_up(n) > Size, "C05: a request that fits is served");
        return;
    }
    size_t k = kt_range(0, n - 1, "offset");
    kt_check(a.owns(p + k), "C20: owns is true for every location in a live block");
    uintptr_t base = (uintptr_t)p;       // the first block starts the storage
    size_t out = kt_size("distance");
    kt_assume(out >= 1 && out < (size_t(1) << 20));
    kt_check(!a.owns((void*)(base - out)), "C20: owns is false for every location before the storage");
    kt_check(!a.owns((void*)(base + Size - 1 + out)), "C20: owns is false for every location behind the storage");
    kt_check(!a.owns(nullptr), "C20: owns is false for null");
}
HARNESS(linear_owned, "C20")
{
    linear_allocator<100> a;
    owned<100>(a);
}
HARNESS(stack_owned, "C20")
{
    stack<100> st;
    stack_allocator<100> a(st);
    owned<100>(a);
}

// handles may be made at any time: they share the stack and disturb nothing
HARNESS(stack_handles, "C02 C05 C17 C20 C33")
{
    stack<96> st;
    stack_allocator<96> a(st);
    size_t n = kt_range(1, 48, "n"), m = kt_range(1, 48, "m");
    char* p = (char*)a.allocate(n);
    kt_check(p, "C05: a request that fits is served");
    kt_hold(p, n, "C02: disjoint from every live block");
    auto use = [&](stack_allocator<96>& b)
    {
        kt_check(a == b && !(a != b) && b == a, "C17: handles of the same stack are equal");
        kt_check(b.owns(p), "C20,C33: every handle of the stack owns its blocks");
        char* q = (char*)b.allocate(m);
        kt_check(q, "C05: a request that fits is served");
        kt_hold(q, m, "C02,C17: disjoint from every live block");
        kt_unhold(q, m);
        a.deallocate(q, m);
        if (kt_choice(2, "all back"))
        {
            kt_unhold(p, n);
            b.deallocate(p, n);
            char* r = (char*)a.allocate(96);
            kt_check(r, "C05,C17: what one handle gave back is available through the others");
        }
    };
    stack<96> other;
    switch (kt_choice(6, "how"))
    {
    case 0: { stack_allocator<96> b(st); use(b); break; }
    case 1: { stack_allocator<96> b(&st); use(b); break; }
    case 2: { stack_allocator<96> b(a); use(b); break; }
    case 3: { stack_allocator<96> c(a), b(std::move(c)); use(b); break; }
    case 4: { stack_allocator<96> b(other); kt_check(a != b && !(a == b) && !b.owns(p), "C17,C20: handles of different stacks are not equal"); b = a; use(b); break; }
    case 5: { stack_allocator<96> b(other), c(a); b = std::move(c); use(b); break; }
    }
}
