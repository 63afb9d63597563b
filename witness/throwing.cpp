// Every operation of the parts may throw: the exception reaches the caller of the member.
#define SUBP "C30"
#include "sub.h"
#include "ktl/allocators/cascading.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/global.h"
#include "ktl/allocators/overflow.h"
#include "ktl/allocators/reference.h"
#include "ktl/allocators/segragator.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/threaded.h"
#include "ktl/allocators/type_allocator.h"
using namespace ktl;

static bool caught;
// one call: whatever a part threw arrives here (the analysis reports a call of terminate by itself)
template<typename F> static void call(F f)
{
    probe.thrown = false;
    caught = false;
    try { f(); }
    catch (...) { caught = true; }
    kt_check(caught == probe.thrown, "C30: an exception of a part reaches the caller, and nothing else throws");
}

struct Item { size_t v; Item(size_t x) noexcept : v(x) {} };
enum : unsigned { A_OWNS = 1, A_MAX = 2, A_CONS = 4 };
// any of the members, in any state that calls without an exception bring about
template<unsigned What, typename A> static void members(A& a)
{
    using P = decltype(a.allocate(1));
    P p = nullptr;
    size_t n = 0;
    for (;;)
    {
        probe.reset();
        caught = false;
        kt_loop(30);
        size_t op = kt_choice(5, "member");
        if (op == 0 && !p)
        {
            n = kt_size("n");
            call([&] { p = a.allocate(n); });
        }
        else if (op == 1 && p)
        {
            P q = p;
            p = nullptr;
            call([&] { a.deallocate(q, n); });
        }
        else if (op == 2 && p)
        {
            if constexpr (What & A_OWNS)
                call([&] { a.owns(p); });
        }
        else if (op == 3)
        {
            if constexpr (What & A_MAX)
                call([&] { a.max_size(); });
        }
        else if (op == 4 && p)
        {
            if constexpr (What & A_CONS)
            {
                if (n < sizeof(Item))
                    continue;
                call([&] { a.construct((Item*)(void*)p, size_t(1)); });
                if (!caught)
                    call([&] { a.destroy((Item*)(void*)p); });
            }
        }
        if (caught)
            return;
    }
}
constexpr unsigned TALL = OWNS | MAXS | CONS | THROW;
typedef Sub<TALL, 1> S1;
typedef Sub<TALL, 2> S2;
typedef Sub<OWNS | MAXS | CONS, 3> Q3;

// destructors are excepted: the allocators are never destroyed
#define FOREVER(T, name, ...) auto& name = *new (kt_raw_block(sizeof(T), 64, "allocator")) T(__VA_ARGS__)
typedef freelist<0, 64, S1> Fl;
HARNESS(throw_freelist, "C30") { FOREVER(Fl, a); members<A_OWNS | A_MAX | A_CONS>(a); }
typedef fallback<S1, S2> Fb;
HARNESS(throw_fallback, "C30") { FOREVER(Fb, a); members<A_OWNS | A_MAX | A_CONS>(a); }
typedef fallback<Q3, S2> FbQ;
HARNESS(throw_fallback_second, "C30") { FOREVER(FbQ, a); members<A_OWNS | A_MAX | A_CONS>(a); }
typedef segragator<32, S1, S2> Sg;
HARNESS(throw_segragator, "C30") { FOREVER(Sg, a); members<A_OWNS | A_MAX | A_CONS>(a); }
typedef segragator<32, Q3, S2> SgQ;
HARNESS(throw_segragator_second, "C30") { FOREVER(SgQ, a); members<A_OWNS | A_MAX | A_CONS>(a); }
struct Out { template<typename T> Out& operator<<(const T&) { return *this; } };
HARNESS(throw_reference, "C30")
{
    S1& s = *new (kt_raw_block(sizeof(S1), 16, "allocator")) S1();
    reference<S1> a(s);
    members<A_OWNS | A_MAX | A_CONS>(a);
}
typedef threaded<S1> Th;
HARNESS(throw_threaded, "C30") { FOREVER(Th, a); members<A_OWNS | A_MAX | A_CONS>(a); }
typedef shared<S1> Sh;
HARNESS(throw_shared, "C30") { FOREVER(Sh, a); members<A_OWNS | A_MAX | A_CONS>(a); }
typedef type_allocator<int, S1> Ta;
HARNESS(throw_type_allocator, "C30") { FOREVER(Ta, a); members<A_OWNS | A_MAX>(a); }
typedef overflow<S1, Out> Ov;
HARNESS(throw_overflow, "C30") { Out o; FOREVER(Ov, a, o); members<A_OWNS | A_MAX | A_CONS>(a); }
HARNESS(throw_global, "C30") { FOREVER(global<S1>, a); a.set_allocator(S1()); members<A_OWNS | A_MAX | A_CONS>(a); }
typedef cascading<S1> Cs;
HARNESS(throw_cascading, "C30") { FOREVER(Cs, a); members<A_OWNS | A_MAX | A_CONS>(a); }
// the cached block is given back during the assignment
HARNESS(throw_freelist_assign, "C30")
{
    FOREVER(Fl, a);
    FOREVER(Fl, b);
    void* p = nullptr;
    call([&] { p = a.allocate(8); });
    if (!p || caught)
        return;
    call([&] { a.deallocate(p, 8); });
    if (!caught)
        call([&] { a = std::move(b); });
}
// A sub-allocator whose constructor throws: the memory it was to live in is given back, and nothing else changed.
struct Born
{
    size_t id;
    explicit Born(size_t i) : id(i) { if (kt_choice(2, "constructor throws")) sub_throws(); kt_obj_new(this, sizeof(Born)); }
    Born() : Born(1) {}
    ~Born() noexcept { kt_obj_del(this); }
    void* allocate(size_t n) noexcept
    {
        if (kt_choice(2, "sub fails") || kt_too_big(n))
            return nullptr;
        void* p = kt_block(n, AL, "block of the underlying allocator");
        kt_set(p, K_OWNER, reinterpret_cast<size_t>(this));
        return p;
    }
    void deallocate(void* p, size_t) noexcept { kt_release(p); }
    bool owns(void* p) const noexcept { return kt_live(p) && kt_get(p, K_OWNER) == reinterpret_cast<size_t>(this); }
    bool operator==(const Born& o) const noexcept { return this == &o; }
    bool operator!=(const Born& o) const noexcept { return this != &o; }
};
template<typename H> static void born_shared()
{
    H* h = nullptr;
    alignas(16) unsigned char raw[sizeof(H)];
    if (kt_choice(2, "with an argument"))
        call([&] { h = ::new ((void*)raw) H(size_t(3)); });
    else
        call([&] { h = ::new ((void*)raw) H(); });
    if (!h)
        kt_check(kt_live_mallocs() == 0 && kt_obj_count() == 0, "C12: a control block whose allocator's constructor throws is freed");
    else
    {
        kt_check(kt_live_mallocs() == kt_obj_count(), "C12: the control block holds the allocator");
        h->~H();
        kt_check(kt_live_mallocs() == 0 && kt_obj_count() == 0, "C12: the control block is destroyed and freed");
    }
}
HARNESS(throw_born_shared, "C12 C30") { born_shared<shared<Born>>(); }
HARNESS(throw_born_atomic, "C12 C30") { born_shared<atomic_shared<Born>>(); }
HARNESS(throw_born_cascading, "C10 C18 C30")
{
    {
        cascading<Born> a;
        void* got[3] = {};
        for (size_t i = 0; i < 3; i++)
        {
            size_t m = kt_live_mallocs(), b = kt_live_blocks();
            void*& p = got[i];
            call([&] { p = a.allocate(24); });
            kt_check(kt_live_mallocs() == kt_obj_count(), "C10,C18: every node that is allocated holds an allocator, also after its constructor threw");
            if (caught)
                kt_check(kt_live_mallocs() <= (m ? m : 1) && kt_live_blocks() == b, "C10,C18: a node that could not be constructed leaves no trace");
            if (p)
                kt_check(a.owns(p), "C10,C20: every live block is owned, also after a node's constructor threw");
        }
        for (size_t i = 0; i < 3; i++)
            if (got[i])
                a.deallocate(got[i], 24);
        kt_check(kt_obj_count() <= 1, "C10: no node but the first one stays once it is empty");
    }
    kt_check(kt_live_mallocs() == 0 && kt_obj_count() == 0, "C10: destruction frees every node once, also after a node's constructor threw");
}

// an assignment that was cut short leaves a list of blocks that are still allocated
template<typename F> static void cut_short()
{
    FOREVER(F, a);
    FOREVER(F, b);
    void* p[2] = {};
    for (size_t i = 0; i < 2; i++)
    {
        call([&] { p[i] = a.allocate(8); });
        if (caught)
            return;
    }
    for (size_t i = 0; i < 2; i++)
        if (p[i])
            a.deallocate(p[i], 8);
    call([&] { a = std::move(b); });
    for (size_t i = 0; i < 3; i++)
    {
        void* q = nullptr;
        call([&] { q = a.allocate(8); });
        if (q)
            kt_check(kt_is_block(q), "C06,C07: a block that was given back to the underlying allocator is not in the list any more, also after an exception");
    }
}
struct MoveThrows : SubBase<0>
{
    MoveThrows() noexcept { id = 1; limit = UNLIMITED; }
    MoveThrows(const MoveThrows&) = default;
    MoveThrows& operator=(const MoveThrows&) { if (kt_choice(2, "assignment throws")) sub_throws(); return *this; }
};
typedef freelist<0, 64, Sub<THROW, 1>> FlT;
typedef freelist<0, 64, MoveThrows> FlM;
HARNESS(throw_freelist_release, "C06 C07 C30 C33") { cut_short<FlT>(); }
HARNESS(throw_freelist_move, "C06 C07 C30 C33") { cut_short<FlM>(); }
