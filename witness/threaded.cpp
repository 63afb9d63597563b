#define SUBP "C14"
#define SUBLOCK "C14"
#include "sub.h"
#include "ktl/allocators/threaded.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/linear_allocator.h"
using namespace ktl;

static void unlocked() { kt_check(kt_locks_held() == 0, "C14: the lock is released on every exit"); }

// every operation, with a wrapped allocator that may fail or throw at every call
template<unsigned Caps> static void client()
{
    threaded<Sub<Caps>> t(size_t(3));
    Slot s[2] = {};
    for (;;)
    {
        probe.reset();
        kt_loop(40);
        size_t i = kt_choice(2, "slot");
        if (s[i].p)
        {
            if (kt_choice(2, "ask owns"))
            {
                try { t.owns(s[i].p); }
                catch (...) {}
                unlocked();
            }
            kt_unhold(s[i].p, s[i].n);
            try { t.deallocate(s[i].p, s[i].n); }
            catch (...) {}
            unlocked();
            kt_check(probe.deallocs == 1, "C14: deallocate reaches the wrapped allocator exactly once");
            s[i] = Slot{};
        }
        else
        {
            size_t n = kt_size("n");
            char* p = nullptr;
            try { p = (char*)t.allocate(n); }
            catch (...) {}
            unlocked();
            kt_check(probe.allocs == 1, "C14: allocate reaches the wrapped allocator exactly once");
            kt_check(probe.thrown || p == probe.lastr, "C35: the answer of the wrapped allocator is returned");
            if (p)
            {
                kt_hold(p, n, "C01,C02,C04: the block has room for the request");
                s[i] = Slot{ p, n, 0 };
            }
        }
    }
}
HARNESS(thr_client, "C14 C30 C35") { client<OWNS | MAXS>(); }
HARNESS(thr_throwing, "C14 C30 C35") { client<OWNS | MAXS | THROW>(); }

// two instances do not share one lock: a thread inside one must not stop users of the other
HARNESS(thr_instances, "C14")
{
    threaded<Sub<OWNS>> a(size_t(3)), b(size_t(4));
    sub_lock = nullptr;
    a.allocate(8);
    const void* la = sub_lock;
    sub_lock = nullptr;
    b.allocate(8);
    kt_check(la && sub_lock && la != sub_lock, "C14: each instance has a lock of its own");
}
// const access and the handle most users have: a shared, threaded allocator
HARNESS(thr_shared, "C14 C30")
{
    kt_malloc_never_fails();
    atomic_shared<threaded<Sub<OWNS | THROW>>> a(size_t(3)), b(a);
    void* p = nullptr;
    try { p = a.allocate(kt_size("n")); }
    catch (...) {}
    unlocked();
    try { b.owns(p); }
    catch (...) {}
    unlocked();
    if (p)
    {
        try { b.deallocate(p, kt_get(p, K_SIZE)); }
        catch (...) {}
        unlocked();
    }
}
// an allocator outside the lock
struct Other
{
    void* allocate(size_t n) noexcept { kt_check(kt_locks_held() == 0, "C14: the lock of one part is not held while another part is used"); return kt_choice(2, "sub fails") ? nullptr : kt_too_big(n) ? nullptr : kt_block(n, AL, "block of the other part"); }
    void deallocate(void* p, size_t) noexcept { kt_release(p); }
    bool operator==(const Other&) const noexcept { return true; }
    bool operator!=(const Other&) const noexcept { return false; }
};
// threaded as a part of a composition
HARNESS(thr_fallback, "C14 C30")
{
    fallback<threaded<Sub<OWNS | THROW>>, Other> f;
    void* p = nullptr;
    size_t n = kt_size("n");
    try { p = f.allocate(n); }
    catch (...) {}
    unlocked();
    if (p)
    {
        try { f.deallocate(p, n); }
        catch (...) {}
        unlocked();
    }
}
