#define SUBP "C08,C09"
#include "sub.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/segragator.h"
using namespace ktl;

// ---------------------------------------------------------------- fallback
template<unsigned CP, unsigned CF>
static void fallback_client()
{
    Slot s[3] = {};
    fallback<Sub<CP>, Sub<CF>> a(size_t(1), size_t(2));
    for (;;)
    {
        kt_loop(60);
        size_t i = kt_choice(3, "slot");
        probe.reset();
        if (s[i].p)
        {
            kt_unhold(s[i].p, s[i].n);
            if constexpr ((CP & OWNS) && (CF & OWNS))
                kt_check(a.owns(s[i].p), "C08,C20: owns is true for a block of either part");
            a.deallocate(s[i].p, s[i].n);
            kt_check(probe.deallocs == 1 && probe.lastp == s[i].p && probe.lastn == s[i].n && probe.lastid == s[i].tag,
                     "C08: a block is released exactly once, in the part that produced it, with the same arguments");
            kt_check(probe.allocs == 0, "C08: deallocate does not allocate");
            s[i] = Slot{};
        }
        else
        {
            size_t n = kt_size("n");
            char* p = (char*)a.allocate(n);
            kt_check(probe.lastn == n, "C08: the request reaches the part unchanged");
            kt_check(probe.allocs == 1 || probe.allocs == 2, "C08: each part is asked at most once");
            if (p)
            {
                kt_check(kt_get(p, K_OWNER) == probe.lastid && (probe.allocs == 1) == (probe.lastid == 1),
                         "C08: the fallback is asked only after the primary refused");
                kt_hold(p, n, "C01,C02,C04,C08: the block has room for the request");
                kt_check(aligned(p), "C03: aligned to max_align_t");
                s[i] = Slot{ p, n, probe.lastid };
            }
            else
                kt_check(probe.allocs == 2 && probe.lastid == 2 && !probe.lastr, "C08,C18,C35: null only after both parts refused");
            kt_check(probe.deallocs == 0, "C08: allocate does not release");
        }
    }
}
HARNESS(fallback_plain, "C01 C02 C03 C04 C08 C18 C35") { fallback_client<OWNS, 0>(); }
HARNESS(fallback_owning, "C01 C02 C04 C08 C18 C20 C35") { fallback_client<OWNS | MAXS, OWNS | MAXS>(); }

// construct/destroy through a fallback, for all combinations of parts that define them
template<unsigned CP, unsigned CF, typename A>
static void construct_client(A& a, bool first)
{
    alignas(16) char raw[sizeof(Obj)];
    size_t id = kt_choice(2, "part") + 1;
    void* mem = kt_block(sizeof(Obj), AL, "block");
    kt_set(mem, K_OWNER, id);
    kt_set(mem, K_SIZE, sizeof(Obj));
    size_t v = kt_size("v");
    probe.reset();
    a.construct((Obj*)mem, v);
    bool resp = id == 1 ? (CP & CONS) : (CF & CONS);
    kt_check(kt_obj_count() == 1, "C08,C19: construct begins the lifetime of exactly one object");
    kt_check(((Obj*)mem)->v == v, "C19: the arguments reach the constructor");
    kt_check(probe.cons == (resp ? 1u : 0u) && (!resp || (probe.lastid == id && probe.lastp == mem)), "C08,C19: construction goes to the part responsible for the block, if it defines it");
    probe.reset();
    a.destroy((Obj*)mem);
    kt_check(kt_obj_count() == 0, "C08,C19: destroy ends exactly one lifetime");
    kt_check(probe.dest == (resp ? 1u : 0u) && (!resp || (probe.lastid == id && probe.lastp == mem)), "C08,C19: destruction goes to the part responsible for the block, if it defines it");
    kt_release(mem);
    mem = kt_block(sizeof(Fwd), AL, "block");
    kt_set(mem, K_OWNER, id);
    kt_set(mem, K_SIZE, sizeof(Fwd));
    forwards(a, mem);
    kt_release(mem);
}
template<unsigned CP, unsigned CF> static void fbc() { fallback<Sub<CP>, Sub<CF>> a(size_t(1), size_t(2)); construct_client<CP, CF>(a, true); }
HARNESS(fallback_construct_both, "C08 C19") { fbc<OWNS | CONS, OWNS | CONS>(); }
HARNESS(fallback_construct_primary, "C08 C19") { fbc<OWNS | CONS, 0>(); }
HARNESS(fallback_construct_fallback, "C08 C19") { fbc<OWNS, CONS>(); }

// max_size, equality, copies
HARNESS(fallback_utility, "C17 C20")
{
    size_t l1 = kt_size("limit of the primary"), l2 = kt_size("limit of the fallback");
    size_t i1 = kt_choice(2, "id"), i2 = kt_choice(2, "id"), j1 = kt_choice(2, "id"), j2 = kt_choice(2, "id");
    Sub<OWNS | MAXS> p(i1, l1), f(i2, l2);
    fallback<Sub<OWNS | MAXS>, Sub<OWNS | MAXS>> a(p, f);
    fallback<Sub<OWNS | MAXS>, Sub<OWNS | MAXS>> b{ Sub<OWNS | MAXS>(j1), Sub<OWNS | MAXS>(j2) };
    kt_check(a == a && !(a != a), "C17: an allocator equals itself");
    kt_check((a != b) == !(a == b), "C17: != is the negation of ==");
    kt_check((a == b) == (b == a), "C17: equality is symmetric");
    kt_check((a == b) == (i1 == j1 && i2 == j2), "C17: equal exactly when both parts are equal");
    auto c = a;
    kt_check(c == a, "C17: a copy of an allocator with shared state equals it");
    size_t n = kt_size("n");
    bool over = n > a.max_size();
    void* q = a.allocate(n);
    kt_check(!over || q == nullptr, "C20: nothing above max_size is served");
    kt_check(a.max_size() >= l1 && a.max_size() >= l2, "C20: max_size covers both parts");
    void* other = kt_block(8, AL, "foreign block");
    kt_set(other, K_OWNER, 99);
    kt_check(!a.owns(other), "C20: owns is false for a foreign block");
    if (q)
        kt_check(a.owns(q), "C20: owns is true for a block of either part");
}

// ---------------------------------------------------------------- segragator
template<size_t T, unsigned CP, unsigned CF>
static void seg_client()
{
    Slot s[3] = {};
    segragator<T, Sub<CP>, Sub<CF>> a(size_t(1), size_t(2));
    for (;;)
    {
        kt_loop(60);
        size_t i = kt_choice(3, "slot");
        probe.reset();
        if (s[i].p)
        {
            kt_unhold(s[i].p, s[i].n);
            a.deallocate(s[i].p, s[i].n);
            kt_check(probe.deallocs == 1 && probe.lastp == s[i].p && probe.lastn == s[i].n && probe.lastid == s[i].tag,
                     "C09: a block is released exactly once, in the part that produced it, with the same arguments");
            kt_check(probe.allocs == 0, "C09: deallocate does not allocate");
            s[i] = Slot{};
        }
        else
        {
            size_t n = kt_size("n");
            char* p = (char*)a.allocate(n);
            kt_check(probe.allocs == 1 && probe.lastn == n, "C09: exactly one part is asked, with the size unchanged");
            kt_check(probe.lastid == (n <= T ? 1u : 2u), "C09: sizes up to the threshold go to the primary, larger ones to the fallback");
            kt_check(probe.deallocs == 0, "C09: allocate does not release");
            if (p)
            {
                kt_hold(p, n, "C01,C02,C04,C09: the block has room for the request");
                kt_check(aligned(p), "C03: aligned to max_align_t");
                s[i] = Slot{ p, n, probe.lastid };
            }
            else
                kt_check(probe.allocs == 1 && !probe.lastr, "C09,C35: null only after the part in charge refused");
        }
    }
}
HARNESS(segragator_plain, "C01 C02 C03 C04 C09 C18 C35") { seg_client<64, 0, 0>(); }
HARNESS(segragator_zero, "C02 C09 C18 C35") { seg_client<0, OWNS | MAXS, OWNS | MAXS>(); }
template<unsigned CP, unsigned CF> static void sgc() { segragator<32, Sub<CP>, Sub<CF>> a(size_t(1), size_t(2)); construct_client<CP, CF>(a, true); }
HARNESS(segragator_construct_both, "C09 C19") { sgc<OWNS | CONS, OWNS | CONS>(); }
HARNESS(segragator_construct_primary, "C09 C19") { sgc<OWNS | CONS, 0>(); }
HARNESS(segragator_construct_fallback, "C09 C19") { sgc<OWNS, CONS>(); }
HARNESS(segragator_utility, "C17 C20")
{
    size_t l1 = kt_size("limit of the primary"), l2 = kt_size("limit of the fallback");
    size_t i1 = kt_choice(2, "id"), i2 = kt_choice(2, "id"), j1 = kt_choice(2, "id"), j2 = kt_choice(2, "id");
    Sub<OWNS | MAXS> p(i1, l1), f(i2, l2);
    segragator<48, Sub<OWNS | MAXS>, Sub<OWNS | MAXS>> a(p, f);
    segragator<48, Sub<OWNS | MAXS>, Sub<OWNS | MAXS>> b{ Sub<OWNS | MAXS>(j1), Sub<OWNS | MAXS>(j2) };
    kt_check(a == a && !(a != a), "C17: an allocator equals itself");
    kt_check((a != b) == !(a == b), "C17: != is the negation of ==");
    kt_check((a == b) == (b == a), "C17: equality is symmetric");
    kt_check((a == b) == (i1 == j1 && i2 == j2), "C17: equal exactly when both parts are equal");
    auto c = a;
    kt_check(c == a, "C17: a copy of an allocator with shared state equals it");
    size_t n = kt_size("n");
    bool over = n > a.max_size();
    void* q = a.allocate(n);
    kt_check(!over || q == nullptr, "C20: nothing above max_size is served");
    void* other = kt_block(8, AL, "foreign block");
    kt_set(other, K_OWNER, 99);
    kt_check(!a.owns(other), "C20: owns is false for a foreign block");
    if (q)
        kt_check(a.owns(q), "C20: owns is true for a block of either part");
}
