#define SUBP "C11"
#include "sub.h"
#include "ktl/allocators/reference.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/global.h"
#include "ktl/allocators/threaded.h"
#include "ktl/allocators/type_allocator.h"
using namespace ktl;

// w: the wrapper under use, w2: a second handle that must act on the same allocator.
// U is the size of one unit of the wrapper (1, or sizeof(T) for typed wrappers).
template<size_t U, unsigned Caps, typename W, typename W2>
static void forwarding(W& w, W2& w2, size_t id, size_t limit)
{
    using P = decltype(w.allocate(1));
    using P2 = decltype(w2.allocate(1));
    Slot s[2] = {};
    for (;;)
    {
        kt_loop(40);
        size_t i = kt_choice(2, "slot");
        bool second = kt_choice(2, "which handle");
        probe.reset();
        if (s[i].p)
        {
            if constexpr (Caps & OWNS)
            {
                bool r = second ? w2.owns((P2)s[i].p) : w.owns((P)s[i].p);
                kt_check(probe.owns == 1 && probe.lastp == s[i].p && r == probe.lasto, "C11,C20: owns is forwarded once and its answer returned");
                kt_check(r, "C20: owns is true for a live block");
                probe.reset();
            }
            kt_unhold(s[i].p, s[i].n * U);
            if (second)
                w2.deallocate((P2)s[i].p, s[i].n);
            else
                w.deallocate((P)s[i].p, s[i].n);
            kt_check(probe.deallocs == 1 && probe.lastp == s[i].p && probe.lastn == s[i].n * U && probe.lastid == id,
                     "C11: deallocate is forwarded once with the same pointer and size");
            kt_check(probe.allocs == 0, "C11: deallocate does not allocate");
            s[i] = Slot{};
        }
        else
        {
            size_t n = kt_size("n");
            char* p = second ? (char*)w2.allocate(n) : (char*)w.allocate(n);
            if (U > 1 && n > ~size_t(0) / U)
                kt_check(!p, "C01,C04,C11: a size in bytes that wraps is refused"), kt_check(probe.allocs == 0, "C04,C11: a size in bytes that wraps is not passed on");
            else
            {
                kt_check(probe.allocs == 1 && probe.lastn == n * U && probe.lastid == id, "C11,C35: allocate is forwarded once with the same size");
                kt_check(p == probe.lastr, "C11,C18,C35: the answer of allocate is returned");
            }
            kt_check(probe.deallocs == 0, "C11: allocate does not release");
            if (p)
            {
                kt_hold(p, n * U, "C01,C02,C04,C11: the block has room for the request");
                kt_check(aligned(p), "C03: aligned to max_align_t");
                s[i] = Slot{ p, n, id };
            }
        }
        if constexpr (Caps & MAXS)
        {
            probe.reset();
            kt_check(w.max_size() == limit / U && w2.max_size() == limit / U, "C11,C20: max_size is forwarded");
            kt_check(probe.maxs == 2, "C11: max_size is forwarded once");
        }
    }
}
template<typename W, typename = void> struct typed : std::false_type {};
template<typename W> struct typed<W, std::void_t<typename W::value_type>> : std::true_type {};
// construct and destroy
template<typename W> static void building(W& w, size_t id)
{
    Obj* mem = (Obj*)kt_block(sizeof(Obj), AL, "block");
    kt_set(mem, K_OWNER, id);
    kt_set(mem, K_SIZE, sizeof(Obj));
    size_t v = kt_size("v");
    probe.reset();
    w.construct(mem, v);
    kt_check(kt_obj_count() == 1 && mem->v == v, "C19: construct makes exactly one object from the arguments");
    kt_check(probe.cons == 1 && probe.lastp == mem && probe.lastid == id, "C11,C19: construct is forwarded once with the same pointer");
    probe.reset();
    w.destroy(mem);
    kt_check(kt_obj_count() == 0, "C19: destroy ends exactly one lifetime");
    kt_check(probe.dest == 1 && probe.lastp == mem && probe.lastid == id, "C11,C19: destroy is forwarded once with the same pointer");
    kt_release(mem);
    if constexpr (!typed<W>::value)
    {
        mem = (Obj*)kt_block(sizeof(Fwd), AL, "block");
        forwards(w, mem);
        kt_release(mem);
    }
}
// equality of two handles of the same allocator and one of another
template<typename A, typename B> static void equality(const A& a, const A& same, const B& other)
{
    kt_check(a == a && !(a != a), "C17: an allocator equals itself");
    kt_check(a == same && same == a && !(a != same) && !(same != a), "C11,C17: handles of the same allocator are equal");
    kt_check((a == other) == (other == a) && (a != other) == !(a == other), "C17: != is the negation of ==, equality is symmetric");
    kt_check(!(a == other), "C17: handles of different allocators are not equal");
}
constexpr unsigned ALL = OWNS | MAXS | CONS;
typedef Sub<ALL> S;

HARNESS(wrap_reference, "C01 C02 C03 C04 C11 C18 C20 C35")
{
    size_t limit = kt_size("limit");
    S s(3, limit);
    reference<S> r(s), r2(r);
    forwarding<1, ALL>(r, r2, 3, limit);
}
HARNESS(wrap_reference_assign, "C11 C17 C19")
{
    // other allocators, possibly ones that compare equal
    S s(3), t(3 + kt_choice(2, "id of the other"));
    reference<S> r(s), u(t), v(t);
    equality(r, reference<S>(r), u);
    building(r, 3);
    if (kt_choice(2, "move"))
        u = std::move(r);
    else
        u = r;
    equality(u, reference<S>(s), v);
    building(u, 3);
    kt_check(&u.get_allocator() == &s, "C11: get_allocator is the wrapped allocator");
}
HARNESS(wrap_shared, "C01 C02 C03 C04 C11 C18 C20 C35")
{
    kt_malloc_never_fails();
    size_t limit = kt_size("limit");
    shared<S> r(size_t(3), limit), r2(r);
    forwarding<1, ALL>(r, r2, 3, limit);
}
HARNESS(wrap_atomic_shared, "C11 C18 C20")
{
    kt_malloc_never_fails();
    size_t limit = kt_size("limit");
    atomic_shared<S> r(size_t(3), limit), r2(r);
    forwarding<1, ALL>(r, r2, 3, limit);
}
HARNESS(wrap_shared_assign, "C11 C17 C19")
{
    kt_malloc_never_fails();
    size_t id = 3 + kt_choice(2, "id of the other");
    shared<S> r(size_t(3)), u(id), v(id);
    shared<S> r2(r);
    equality(r, r2, u);
    building(r, 3);
    if (kt_choice(2, "move"))
        u = std::move(r);
    else
        u = r;
    equality(u, r2, v);
    building(u, 3);
    kt_check(&u.get_allocator() == &r2.get_allocator(), "C11: copies share one allocator");
}
HARNESS(wrap_global, "C01 C02 C03 C04 C11 C18 C20 C35")
{
    size_t limit = kt_size("limit");
    global<S> g, h;
    g.set_allocator(S(3, limit));
    global<S> k(h);
    forwarding<1, ALL>(g, k, 3, limit);
}
HARNESS(wrap_global_assign, "C11 C17 C19")
{
    global<S> g, h;
    g.set_allocator(S(3));
    kt_check(g == h && h == g && !(g != h), "C17: all global handles of a type are equal");
    building(h, 3);
    h = g;
    building(h, 3);
    h = std::move(g);
    building(h, 3);
    kt_check(&g.get_allocator() == &h.get_allocator(), "C11: all global handles use one allocator");
}
HARNESS(wrap_threaded, "C01 C02 C03 C04 C11 C18 C20 C35")
{
    size_t limit = kt_size("limit");
    threaded<S> t(size_t(3), limit);
    forwarding<1, ALL>(t, t, 3, limit);
}
HARNESS(wrap_threaded_utility, "C11 C17 C19")
{
    threaded<S> t(size_t(3)), u(size_t(3)), v(size_t(4));
    equality(t, u, v);
    building(t, 3);
}
struct Wide { char c[24]; };
HARNESS(wrap_type, "C01 C02 C04 C11 C18 C20 C35")
{
    size_t limit = kt_size("limit");
    S s(3, limit);
    type_allocator<Wide, S> a(s), b(a);
    forwarding<24, OWNS>(a, b, 3, limit);
}
HARNESS(wrap_type_max, "C11 C20")
{
    size_t limit = kt_size("limit");
    type_allocator<Wide, S> a(S(3, limit));
    size_t m = a.max_size();
    kt_check(m * 24 <= limit && limit - m * 24 < 24, "C11,C20: max_size is divided by the size of the type");
    size_t n = kt_size("n");
    bool over = n > m;
    kt_check(!over || a.allocate(n) == nullptr, "C20: nothing above max_size is served");
}
HARNESS(wrap_type_rebind, "C04 C11 C17 C20")
{
    size_t limit = kt_size("limit");
    S s(3, limit);
    type_allocator<uint64_t, S> a(s);
    typename type_allocator<uint64_t, S>::template rebind<double>::other b(a);
    typename type_allocator<uint64_t, S>::template rebind<double>::other other(S(5));
    kt_check(a == b && b == a && !(a != b), "C11,C17: a rebound allocator equals the original");
    kt_check(!(a == other) && a != other, "C17: allocators over different states differ");
    forwarding<8, OWNS>(a, b, 3, limit);
}
HARNESS(wrap_type_assign, "C11 C17 C19")
{
    type_allocator<Obj, S> a(S(3)), u(S(4)), v(S(4));
    equality(a, type_allocator<Obj, S>(a), u);
    building(a, 3);
    if (kt_choice(2, "move"))
    {
        type_allocator<Obj, S> m(std::move(a));
        kt_check(m == a, "C11,C17: moving a typed allocator leaves both equal");
        u = std::move(m);
        kt_check(u == m, "C11,C17: moving a typed allocator leaves both equal");
    }
    else
        u = a;
    equality(u, a, v);
    building(u, 3);
}
// a shared state behind typed handles: copies and rebound copies act on the same allocator
HARNESS(wrap_type_shared, "C01 C02 C04 C11 C18 C20 C35")
{
    kt_malloc_never_fails();
    size_t limit = kt_size("limit");
    type_allocator<uint64_t, shared<S>> a(size_t(3), limit);
    type_allocator<uint64_t, shared<S>> b(a);
    forwarding<8, OWNS>(a, b, 3, limit);
}
HARNESS(wrap_shared_no_block, "C18")
{
    shared<S> r(size_t(3)), c(r);
    probe.reset();
    void* p = r.allocate(8);
    void* q = c.allocate(8);
    bool o = r.owns(p);
    size_t m = r.max_size();
    kt_check(probe.allocs == 2 || (!p && !q && !o && !m), "C18: without a control block every request is refused");
    if (p)
        c.deallocate(p, 8);
    if (q)
        r.deallocate(q, 8);
}
HARNESS(wrap_type_forward, "C11 C19")
{
    type_allocator<Fwd, S> a(S(3));
    void* mem = kt_block(sizeof(Fwd), AL, "block");
    forwards(a, mem);
    kt_release(mem);
}
