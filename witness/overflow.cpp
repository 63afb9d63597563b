#define SUBP "C15"
#include "sub.h"
#include "ktl/allocators/overflow.h"
#include "ktl/allocators/linear_allocator.h"
using namespace ktl;

// records what is written: the numbers in order, and which of the words below occurs in the text
struct Rec
{
    size_t writes = 0;
    size_t nums = 0;
    size_t num[6] = {};
    const void* ptr = nullptr;
    bool leak = false, logic = false, corrupt = false, before = false, after = false, alloc = false, frees = false, cons = false, dest = false;
    void reset() { *this = Rec{}; }
    static bool has(const char* s, const char* w)
    {
        for (; *s; s++)
            if (*s == *w)
            {
                size_t k = 1;
                while (w[k] && s[k] == w[k])
                    k++;
                if (!w[k])
                    return true;
            }
        return false;
    }
    void put(size_t v) { if (nums < 6) num[nums] = v; nums++; writes++; }
};
inline Rec& operator<<(Rec& r, const char* s)
{
    r.writes++;
    r.leak |= Rec::has(s, "LEAK");
    r.logic |= Rec::has(s, "LOGIC");
    r.corrupt |= Rec::has(s, "CORRUPT");
    r.before |= Rec::has(s, "Before");
    r.after |= Rec::has(s, "After");
    r.alloc |= Rec::has(s, "Allocated");
    r.frees |= Rec::has(s, "frees");
    r.cons |= Rec::has(s, "constructor");
    r.dest |= Rec::has(s, "destructor");
    return r;
}
inline Rec& operator<<(Rec& r, const void* p) { r.writes++; r.ptr = p; return r; }
inline Rec& operator<<(Rec& r, long v) { r.put((size_t)v); return r; }
inline Rec& operator<<(Rec& r, unsigned long v) { r.put(v); return r; }
inline Rec& operator<<(Rec& r, long long v) { r.put((size_t)v); return r; }
inline Rec& operator<<(Rec& r, unsigned long long v) { r.put(v); return r; }
inline Rec& operator<<(Rec& r, int v) { r.put((size_t)v); return r; }
inline Rec& operator<<(Rec& r, unsigned v) { r.put(v); return r; }

typedef Sub<OWNS | MAXS> S;
typedef overflow<S, Rec> O;

// the books and the blocks under a most general client that leaves the guards alone
template<typename A, typename... Args> static void client(Args... args)
{
    Rec rec;
    Slot s[2] = {};
    size_t live = 0;
    size_t balance = 0;
    {
        A a(rec, args...);
        for (;;)
        {
            probe.reset();
            kt_loop(40);
            size_t i = kt_choice(3, "slot");
            if (i == 2)
                break;
            if (s[i].p)
            {
                kt_check(a.owns(s[i].p), "C20: owns is true for a live block");
                kt_unhold(s[i].p, s[i].n);
                kt_havoc(s[i].p, s[i].n);
                a.deallocate(s[i].p, s[i].n);
                kt_check(rec.writes == 0, "C15: nothing is reported when the guards are intact");
                kt_check(probe.deallocs == 1, "C15: the block goes back to the underlying allocator exactly once");
                balance -= s[i].n;
                s[i] = Slot{};
                live--;
            }
            else
            {
                size_t n = kt_size("n");
                char* p = (char*)a.allocate(n);
                if (n > ~size_t(0) - 128)
                    kt_check(!p && probe.allocs == 0, "C04: a size that wraps with the guards is refused");
                else if (!p)
                    kt_check(probe.allocs && !probe.lastr, "C35: a request is refused only after the underlying allocator refused it");
                if (probe.allocs && !probe.lastr)
                    kt_check(!p, "C18: null from the underlying allocator is passed on");
                if (probe.lastr)
                    kt_check(p != nullptr, "C18: a block is only taken when it is handed out");
                if (p)
                {
                    kt_hold(p, n, "C01,C02,C04: the block has room for the request");
                    kt_check(aligned(p), "C03: aligned to max_align_t");
                    kt_check(n <= a.max_size(), "C20: nothing above max_size is served");
                    s[i] = Slot{ p, n, 0 };
                    live++;
                    balance += n;
                }
            }
            kt_check(kt_live_blocks() == live, "C15,C18: a block stays allocated exactly while the client holds it");
        }
    }
    kt_check(rec.leak == (balance != 0), "C16: a leak is reported exactly when allocated and deallocated bytes differ");
    if (balance != 0)
        kt_check(rec.nums == 1 && rec.num[0] == balance && rec.alloc && !rec.frees, "C16: the leak report names the missing bytes");
    kt_check(rec.leak || rec.writes == 0, "C16: balanced books are silent");
}
HARNESS(ovf_client, "C01 C02 C03 C04 C15 C16 C18 C20 C35") { client<O>(size_t(3), kt_size("limit")); }

// over a real allocator: the guards lie inside storage of the underlying allocator
template<size_t N> static bool live(const Slot (&s)[N]) { for (size_t j = 0; j < N; j++) if (s[j].p) return true; return false; }
template<size_t SIZE, size_t N> static void over_linear()
{
    Rec rec;
    Slot s[N] = {};
    overflow<linear_allocator<SIZE>, Rec> a(rec);
    for (;;)
    {
        kt_loop(40);
        size_t i = kt_choice(N, "slot");
        if (s[i].p)
        {
            kt_check(a.owns(s[i].p), "C20: owns is true for a live block");
            kt_unhold(s[i].p, s[i].n);
            a.deallocate(s[i].p, s[i].n);
            s[i] = Slot{};
            // what free storage holds does not matter
            if (!live(s))
                kt_havoc(&a.get_allocator(), SIZE);
        }
        else
        {
            size_t n = kt_size("n");
            char* p = (char*)a.allocate(n);
            if (p)
            {
                kt_hold(p, n, "C01,C02,C04: the block lies in live storage, apart from other blocks");
                kt_check(aligned(p), "C03: aligned to max_align_t");
                kt_check(n <= a.max_size(), "C20: nothing above max_size is served");
                s[i] = Slot{ p, n, 0 };
            }
        }
        kt_check(rec.writes == 0, "C15: nothing is reported when the guards are intact");
    }
}
HARNESS(ovf_linear, "C01 C02 C03 C04 C15 C20") { over_linear<192, 1>(); }

// the client damages guard bytes: i and a nearer one before the block, j and a nearer one after it
static void damage(size_t farb, size_t nearb, size_t fara, size_t neara)
{
    Rec rec;
    {
        O a(rec, size_t(3));
        size_t n = kt_size("n");
        unsigned char* p = (unsigned char*)a.allocate(n);
        if (!p)
            kt_stop();
        uint8_t v = kt_u8("v");
        kt_assume(v != p[-1]);
        if (farb)
            p[-(ptrdiff_t)farb] = v;
        if (nearb)
            p[-(ptrdiff_t)nearb] = v;
        if (fara)
            p[n + fara - 1] = v;
        if (neara)
            p[n + neara - 1] = v;
        probe.reset();
        a.deallocate(p, n);
        kt_check(probe.deallocs == 1, "C15: a damaged block goes back to the underlying allocator exactly once");
        bool any = farb || fara;
        kt_check(rec.corrupt == any, "C15: corruption is reported exactly when a guard byte was modified");
        kt_check(any || rec.writes == 0, "C15: nothing is reported when the guards are intact");
        if (any)
        {
            kt_check(rec.ptr == p && rec.num[0] == n, "C15: the report names the block");
            kt_check(rec.before == (farb != 0) && rec.after == (fara != 0), "C15: the report names the damaged side");
            size_t k = 1;
            if (farb)
                kt_check(rec.num[k++] == farb, "C15: the extent before the block is that of the farthest modified byte");
            if (fara)
                kt_check(rec.num[k++] == fara, "C15: the extent after the block is that of the farthest modified byte");
            kt_check(rec.nums == k, "C15: nothing else is counted");
        }
        rec.reset();
    }
    kt_check(rec.writes == 0, "C16: corruption is not a leak");
}
static size_t nearer(size_t far, size_t deep)
{
    if (far < 2)
        return 0;
    switch (kt_choice(deep ? 4 : 2, "second"))
    {
    case 0: return 0;
    case 1: return far / 2;
    case 2: return 1;
    default: return far - 1;
    }
}
template<bool deep> static void before()
{
    size_t b = kt_choice(65, "before");
    size_t a = kt_choice(deep ? 3 : 2, "after");
    damage(b, nearer(b, deep), a == 2 ? 1 : a ? 64 : 0, 0);
}
template<bool deep> static void after()
{
    size_t a = kt_choice(65, "after");
    size_t b = kt_choice(deep ? 3 : 2, "before");
    damage(b == 2 ? 1 : b ? 64 : 0, 0, a, nearer(a, deep));
}
HARNESS(ovf_before, "C15 C16") { before<false>(); }
HARNESS(ovf_after, "C15 C16") { after<false>(); }
HARNESS(ovf_before_all, "C15 C16", "thorough") { before<true>(); }
HARNESS(ovf_after_all, "C15 C16", "thorough") { after<true>(); }

// construct/destroy books
static void count(bool fwd)
{
    typedef overflow<Sub<CONS>, Rec> OC;
    typedef overflow<Sub<0>, Rec> OP;
    Rec rec;
    size_t c = 0, d = 0;
    auto go = [&](auto& a)
    {
        Obj* mem = (Obj*)kt_block(sizeof(Obj), AL, "block");
        size_t steps = kt_choice(5, "calls");
        bool alive = false;
        for (size_t k = 0; k < steps; k++)
        {
            if (!alive)
            {
                size_t v = kt_size("v");
                if (kt_choice(2, "bare"))
                    ::new ((void*)mem) Obj(v);
                else
                {
                    probe.reset();
                    a.construct(mem, v);
                    c++;
                    kt_check(probe.cons == (fwd ? 1u : 0u), "C19: construct goes to the underlying allocator exactly when it defines it");
                }
                kt_check(kt_obj_count() == 1 && mem->v == v, "C19: construct makes exactly one object from the arguments");
            }
            else
            {
                if (kt_choice(2, "bare"))
                    mem->~Obj();
                else
                {
                    probe.reset();
                    a.destroy(mem);
                    d++;
                    kt_check(probe.dest == (fwd ? 1u : 0u), "C19: destroy goes to the underlying allocator exactly when it defines it");
                }
                kt_check(kt_obj_count() == 0, "C19: destroy ends exactly one lifetime");
            }
            alive = !alive;
        }
        if (alive)
            mem->~Obj();
        kt_release(mem);
    };
    if (fwd)
    {
        OC a(rec, size_t(3));
        go(a);
    }
    else
    {
        OP a(rec, size_t(3));
        go(a);
    }
    kt_check(rec.logic == (c != d), "C16: a construct/destroy report is written exactly when their numbers differ");
    if (c != d)
        kt_check(rec.nums == 1 && rec.num[0] == (c > d ? c - d : d - c) && rec.cons == (c > d) && rec.dest == (c < d),
                 "C16: the construct/destroy report names the difference");
    kt_check(!rec.leak && (rec.logic || rec.writes == 0), "C16: balanced books are silent");
}
// a constructor that throws leaves nothing to destroy, so it does not count
struct Thrower { Thrower(bool t) { if (t) kt_throw(); } };
struct Builds : SubBase<0>
{
    explicit Builds(size_t i) noexcept { id = i; limit = UNLIMITED; }
    template<typename T, typename... Args> void construct(T* p, Args&&... args) { ::new ((void*)p) T(std::forward<Args>(args)...); }
    template<typename T> void destroy(T* p) { p->~T(); }
};
template<typename A> static void ovf_forwards()
{
    Rec rec;
    overflow<A, Rec> a(rec, size_t(3));
    void* mem = kt_block(sizeof(Fwd), AL, "block");
    forwards(a, mem);
    kt_release(mem);
}
HARNESS(ovf_forwards_own, "C11 C19") { ovf_forwards<Sub<0>>(); }
HARNESS(ovf_forwards_sub, "C11 C19") { ovf_forwards<Sub<CONS>>(); }
template<typename A> static void count_throws()
{
    Rec rec;
    size_t c = 0, d = 0;
    {
        overflow<A, Rec> a(rec, size_t(3));
        Thrower* mem = (Thrower*)kt_block(sizeof(Thrower), AL, "block");
        for (size_t k = 0; k < 3; k++)
        {
            bool caught = false, t = kt_choice(2, "throws");
            try { a.construct(mem, t); c++; }
            catch (...) { caught = true; }
            kt_check(caught == t, "C16: an exception of the constructor reaches the caller");
            if (!caught && kt_choice(2, "destroy"))
            {
                a.destroy(mem);
                d++;
            }
        }
        kt_release(mem);
    }
    kt_check(rec.logic == (c != d) && (c == d || (rec.nums == 1 && rec.num[0] == c - d)), "C16: a construction that threw does not count");
}
HARNESS(ovf_count_throws_own, "C16") { count_throws<Sub<0>>(); }
HARNESS(ovf_count_throws_sub, "C16") { count_throws<Builds>(); }
HARNESS(ovf_count_own, "C16 C19") { kt_check(true, "C16: reached"); count(false); }
HARNESS(ovf_count_sub, "C16 C19") { count(true); }

// responsibility under copy and move
static void expect(const Rec& r, size_t got, size_t gave)
{
    kt_check(r.leak == (got != gave), "C16: each instance reports exactly what went through it");
    if (got > gave)
        kt_check(r.nums == 1 && r.num[0] == got - gave && r.alloc && !r.frees, "C16: the leak report names the missing bytes");
    if (got < gave)
        kt_check(r.nums == 1 && r.num[0] == gave - got && r.frees && !r.alloc, "C16: too many frees are named as such");
}
HARNESS(ovf_copies, "C16 C17 C33")
{
    Rec ra, rb;
    size_t n = kt_range(0, 1 << 20, "n"), m = kt_range(0, 1 << 20, "m");
    size_t ina = 0, outa = 0, inb = 0, outb = 0;
    // one object per stream so that the reports can be told apart
    alignas(O) unsigned char sa[sizeof(O)], sb[sizeof(O)];
    O* a = ::new ((void*)sa) O(ra, size_t(3));
    void* p = a->allocate(n);
    if (p)
        ina += n;
    bool mv = kt_choice(2, "move");
    O* b = mv ? ::new ((void*)sb) O(std::move(*a)) : ::new ((void*)sb) O(*a);
    kt_check(*a == *b && !(*a != *b), "C17: a copy equals its original");
    if (mv)
    {
        inb = ina;
        ina = 0;
    }
    void* q = b->allocate(m);
    if (q)
        inb += m;
    if (p && kt_choice(2, "release p"))
    {
        if (kt_choice(2, "through"))
        {
            a->deallocate(p, n);
            outa += n;
        }
        else
        {
            b->deallocate(p, n);
            outb += n;
        }
    }
    if (q && kt_choice(2, "release q"))
    {
        b->deallocate(q, m);
        outb += m;
    }
    kt_check(ra.writes == 0, "C16: nothing is reported before destruction");
    a->~O();
    expect(ra, ina, outa);
    kt_check(ra.leak || ra.writes == 0, "C16,C33: a moved-from or balanced instance is silent");
    ra.reset();
    b->~O();
    expect(ra, inb, outb);
}
HARNESS(ovf_copies_count, "C16 C33")
{
    Rec ra;
    typedef overflow<Sub<0>, Rec> OP;
    alignas(OP) unsigned char sa[sizeof(OP)], sb[sizeof(OP)];
    OP* a = ::new ((void*)sa) OP(ra, size_t(3));
    size_t x = 0, y = 0;
    a->construct(&x, size_t(1));
    bool mv = kt_choice(2, "move");
    OP* b = mv ? ::new ((void*)sb) OP(std::move(*a)) : ::new ((void*)sb) OP(*a);
    bool thr = kt_choice(2, "destroy through copy");
    (thr ? b : a)->destroy(&x);
    long da = (mv ? 0 : 1) - (thr ? 0 : 1), db = (mv ? 1 : 0) - (thr ? 1 : 0);
    a->~OP();
    kt_check(ra.logic == (da != 0) && ra.cons == (da > 0) && ra.dest == (da < 0), "C16: each instance reports exactly its own constructions");
    ra.reset();
    b->~OP();
    kt_check(ra.logic == (db != 0) && ra.cons == (db > 0) && ra.dest == (db < 0), "C16: each instance reports exactly its own constructions");
}
HARNESS(ovf_null, "C16 C18", "nodebug")
{
    Rec rec;
    {
        O a(rec, size_t(3));
        probe.reset();
        a.deallocate(nullptr, kt_size("n"));
        kt_check(probe.deallocs == 0, "C18: null is not handed to the underlying allocator");
    }
    kt_check(rec.writes == 0, "C16: deallocations of null do not count");
}
HARNESS(ovf_equal, "C17 C20")
{
    Rec r1, r2;
    O a(r1, size_t(3)), b(r2, size_t(3)), c(r1, size_t(4));
    kt_check(a == a && !(a != a), "C17: an allocator equals itself");
    kt_check(a == b && b == a && !(a != b), "C17: allocators over the same state are equal");
    kt_check(!(a == c) && !(c == a) && a != c, "C17: allocators over different states differ");
    void* p = c.allocate(8);
    if (p)
    {
        kt_check(!a.owns(p) && c.owns(p), "C20: owns tells the allocators apart");
        c.deallocate(p, 8);
    }
}
