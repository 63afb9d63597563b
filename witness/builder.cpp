// What the builders expand to, observed through allocate, owns, construct and deallocate.
#include "model.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/segragator.h"
using namespace ktl;

static size_t tried, lastid, released, cons, dest;
static bool in_order;
enum : size_t { K_OWNER = 1 };

template<size_t Id> struct Leaf
{
    void* allocate(size_t n) noexcept
    {
        in_order = in_order && Id > lastid;
        tried++;
        lastid = Id;
        if (kt_too_big(n) || kt_choice(2, "part fails"))
            return nullptr;
        void* p = kt_block(n, AL, "block");
        kt_set(p, K_OWNER, Id);
        return p;
    }
    void deallocate(void* p, size_t) noexcept
    {
        released++;
        kt_check(kt_is_block(p) && kt_get(p, K_OWNER) == Id, "C28: a block goes back to the allocator that produced it");
        kt_release(p);
    }
    bool owns(void* p) const noexcept { return kt_live(p) && kt_get(p, K_OWNER) == Id; }
    template<typename T, typename... Args> void construct(T* p, Args&&... args) { cons++; lastid = Id; ::new ((void*)p) T(std::forward<Args>(args)...); }
    template<typename T> void destroy(T* p) { dest++; lastid = Id; p->~T(); }
    bool operator==(const Leaf&) const noexcept { return true; }
    bool operator!=(const Leaf&) const noexcept { return false; }
};

template<size_t N, typename A> static void fallback_list()
{
    A a;
    tried = lastid = released = cons = dest = 0;
    in_order = true;
    size_t n = kt_size("n");
    void* p = a.allocate(n);
    kt_check(in_order, "C28: a fallback list is tried in the given order, nobody twice");
    if (!p)
    {
        kt_check(tried == N, "C28: a fallback list gives up only after every allocator refused");
        return;
    }
    size_t id = lastid;
    kt_check(tried == id && kt_get(p, K_OWNER) == id, "C28: the first allocator that can serve the request does");
    kt_check(a.owns(p), "C28: a list that knows what it owns owns its blocks");
    if (n >= 4)
    {
        a.construct((int*)p, 7);
        kt_check(cons == 1 && lastid == id, "C28: construction goes to the allocator of the block");
        a.destroy((int*)p);
        kt_check(dest == 1 && lastid == id, "C28: destruction goes to the allocator of the block");
    }
    a.deallocate(p, n);
    kt_check(released == 1, "C28: a block goes back exactly once");
}

template<size_t N, typename A> static void segragator_list(const size_t (&t)[N])
{
    A a;
    tried = lastid = released = cons = dest = 0;
    in_order = true;
    size_t n = kt_size("n");
    size_t want = 1;
    while (want < N && n > t[want - 1])
        want++;
    void* p = a.allocate(n);
    kt_check(tried == 1, "C28: exactly one allocator of a segragator list is asked");
    kt_check(lastid == want, "C28: a request reaches the allocator of the first threshold that holds it");
    if (!p)
        return;
    kt_check(a.owns(p), "C28: a list that knows what it owns owns its blocks");
    if (n >= 4)
    {
        a.construct((int*)p, 7);
        kt_check(cons == 1 && lastid == want, "C28: construction goes to the allocator of the block");
        a.destroy((int*)p);
        kt_check(dest == 1 && lastid == want, "C28: destruction goes to the allocator of the block");
    }
    a.deallocate(p, n);
    kt_check(released == 1, "C28: a block goes back exactly once");
}

// sorted thresholds with neighbours that are equal, adjacent, zero and the largest possible
#define T1 0
#define T2 8
#define T3 8
#define T4 9
#define T5 512
#define T6 4096
#define T7 (~size_t(0) - 1)
#define T8 (~size_t(0))
#define T9 (~size_t(0))
#define F1 Leaf<1>
#define F2 F1, Leaf<2>
#define F3 F2, Leaf<3>
#define F4 F3, Leaf<4>
#define F5 F4, Leaf<5>
#define F6 F5, Leaf<6>
#define F7 F6, Leaf<7>
#define F8 F7, Leaf<8>
#define F9 F8, Leaf<9>
#define F10 F9, Leaf<10>
#define F11 F10, Leaf<11>
#define F12 F11, Leaf<12>
#define F13 F12, Leaf<13>
#define F14 F13, Leaf<14>
#define F15 F14, Leaf<15>
#define F16 F15, Leaf<16>
#define F17 F16, Leaf<17>
#define S1 Leaf<1>
#define S2 S1, threshold<T1>, Leaf<2>
#define S3 S2, threshold<T2>, Leaf<3>
#define S4 S3, threshold<T3>, Leaf<4>
#define S5 S4, threshold<T4>, Leaf<5>
#define S6 S5, threshold<T5>, Leaf<6>
#define S7 S6, threshold<T6>, Leaf<7>
#define S8 S7, threshold<T7>, Leaf<8>
#define S9 S8, threshold<T8>, Leaf<9>
// strictly rising thresholds
#define U1 Leaf<1>
#define U2 U1, threshold<8>, Leaf<2>
#define U3 U2, threshold<16>, Leaf<3>
#define U4 U3, threshold<128>, Leaf<4>
#define U5 U4, threshold<512>, Leaf<5>
#define U6 U5, threshold<1024>, Leaf<6>
#define U7 U6, threshold<4096>, Leaf<7>
#define U8 U7, threshold<4097>, Leaf<8>
#define U9 U8, threshold<65536>, Leaf<9>
#define U10 U9, threshold<65537>, Leaf<10>
#define U11 U10, threshold<100000>, Leaf<11>
#define U12 U11, threshold<200000>, Leaf<12>
#define U13 U12, threshold<300000>, Leaf<13>
#define U14 U13, threshold<400000>, Leaf<14>
#define U15 U14, threshold<500000>, Leaf<15>
#define U16 U15, threshold<600000>, Leaf<16>
#define U17 U16, threshold<700000>, Leaf<17>

static const size_t tS[] = { T1, T2, T3, T4, T5, T6, T7, T8 };
static const size_t tU[] = { 8, 16, 128, 512, 1024, 4096, 4097, 65536, 65537, 100000, 200000, 300000, 400000, 500000, 600000, 700000 };

#define FB(N) { if (kt_choice(2, "leaning")) fallback_list<N, fallback_builder_min<F##N>>(); else fallback_list<N, fallback_builder_max<F##N>>(); }
#define SG(N, L, T) { size_t t[N]; for (size_t i = 0; i + 1 < N; i++) t[i] = T[i]; \
    if (kt_choice(2, "leaning")) segragator_list<N, segragator_builder_min<L##N>>(t); else segragator_list<N, segragator_builder_max<L##N>>(t); }

HARNESS(fallback_lists_1_to_4, "C28")
{
    switch (kt_choice(4, "length")) { case 0: FB(1) break; case 1: FB(2) break; case 2: FB(3) break; case 3: FB(4) break; }
}
HARNESS(fallback_lists_5_to_9, "C28")
{
    switch (kt_choice(5, "length")) { case 0: FB(5) break; case 1: FB(6) break; case 2: FB(7) break; case 3: FB(8) break; case 4: FB(9) break; }
}
HARNESS(fallback_lists_10_to_17, "C28")
{
    switch (kt_choice(8, "length")) { case 0: FB(10) break; case 1: FB(11) break; case 2: FB(12) break; case 3: FB(13) break;
        case 4: FB(14) break; case 5: FB(15) break; case 6: FB(16) break; case 7: FB(17) break; }
}
HARNESS(segragator_lists_edges, "C28")
{
    switch (kt_choice(9, "length")) { case 0: SG(1, S, tS) break; case 1: SG(2, S, tS) break; case 2: SG(3, S, tS) break; case 3: SG(4, S, tS) break;
        case 4: SG(5, S, tS) break; case 5: SG(6, S, tS) break; case 6: SG(7, S, tS) break; case 7: SG(8, S, tS) break; case 8: SG(9, S, tS) break; }
}
HARNESS(segragator_lists_1_to_8, "C28")
{
    switch (kt_choice(8, "length")) { case 0: SG(1, U, tU) break; case 1: SG(2, U, tU) break; case 2: SG(3, U, tU) break; case 3: SG(4, U, tU) break;
        case 4: SG(5, U, tU) break; case 5: SG(6, U, tU) break; case 6: SG(7, U, tU) break; case 7: SG(8, U, tU) break; }
}
HARNESS(segragator_lists_9_to_17, "C28")
{
    switch (kt_choice(9, "length")) { case 0: SG(9, U, tU) break; case 1: SG(10, U, tU) break; case 2: SG(11, U, tU) break; case 3: SG(12, U, tU) break;
        case 4: SG(13, U, tU) break; case 5: SG(14, U, tU) break; case 6: SG(15, U, tU) break; case 7: SG(16, U, tU) break; case 8: SG(17, U, tU) break; }
}
