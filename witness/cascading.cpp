#define SUBP "C10"
#include "sub.h"
#include "ktl/allocators/cascading.h"
#include "ktl/allocators/linear_allocator.h"
using namespace ktl;

static char elsewhere[16];        // not a block of any node
static bool tearing = false;      // the client is destroying the cascade
static size_t nodes = 0;

// one instance per node; its identity is its address.  An instance that holds no block
// serves every request up to Limit, one that holds blocks may be full at any time.
constexpr size_t BIG = size_t(1) << 40;
template<size_t Limit>
struct Inst
{
    size_t out = 0;
    Inst() noexcept { nodes++; }
    Inst(const Inst&) = delete;
    ~Inst() noexcept
    {
        nodes--;
        kt_check(out == 0 || tearing, "C10: a node is kept while it has live blocks");
    }
    void* allocate(size_t n) noexcept
    {
        if (n > Limit || (out && kt_choice(2, "node full")))
            return nullptr;
        void* p = kt_block(n, AL, "block of a node");
        kt_set(p, K_OWNER, (size_t)this);
        kt_set(p, K_SIZE, n);
        out++;
        return p;
    }
    void deallocate(void* p, size_t n) noexcept
    {
        kt_check(kt_is_block(p), "C10: a node gets back the start of a block that is still allocated");
        kt_check(kt_get(p, K_OWNER) == (size_t)this, "C10: a block goes back to the node that produced it");
        kt_check(kt_get(p, K_SIZE) == n, "C10: a block goes back with the size it was requested with");
        kt_release(p);
        out--;
    }
    bool owns(void* p) const noexcept { return kt_live(p) && kt_get(p, K_OWNER) == (size_t)this; }
    bool operator==(const Inst& o) const noexcept { return this == &o; }
    bool operator!=(const Inst& o) const noexcept { return this != &o; }
};
template<size_t Limit> struct InstMax : Inst<Limit>
{
    size_t max_size() const noexcept { return Limit; }
};

template<typename A, size_t SLOTS, size_t Limit, bool MayFail>
static void client()
{
    Slot s[SLOTS] = {};
    size_t live = 0;
    {
        A a;
        for (;;)
        {
            kt_loop(60);
            size_t i = kt_choice(SLOTS + 1, "slot");
            if (i == SLOTS)
                break;
            if (s[i].p)
            {
                kt_check(a.owns(s[i].p), "C10,C20: owns is true for a live block");
                kt_unhold(s[i].p, s[i].n);
                a.deallocate(s[i].p, s[i].n);
                s[i] = Slot{};
                live--;
            }
            else
            {
                size_t n = kt_size("n");
                size_t before = nodes;
                char* p = (char*)a.allocate(n);
                if (!MayFail)
                    kt_check(!p == (n > Limit), "C10,C35: exactly the requests that fit an empty node are served");
                if (p)
                {
                    kt_hold(p, n, "C01,C02,C04,C10: the block has room for the request");
                    kt_check(a.owns(p), "C20: owns is true for the block just returned");
                    s[i].p = p;
                    s[i].n = n;
                    live++;
                }
                else
                    kt_check(nodes == before || before == 0, "C10,C18: a refused request leaves no extra node");
            }
            kt_check(kt_live_blocks() == live, "C10: deallocate releases exactly the given block");
            kt_check(nodes == kt_live_mallocs(), "C10: every node's storage is released exactly when the node is destroyed");
            kt_check(nodes <= live + 1, "C10: an empty node other than the head is released");
            kt_check(!a.owns(elsewhere), "C20: owns is false for a location that is not the cascade's");
        }
        for (size_t i = 0; i < SLOTS; i++)
            if (s[i].p)
            {
                kt_unhold(s[i].p, s[i].n);
#ifdef KTL_DEBUG_ASSERT            // with assertions on, forgetting blocks is reported
                a.deallocate(s[i].p, s[i].n);
#endif
            }
        tearing = true;
    }
    kt_check(nodes == 0 && kt_live_mallocs() == 0, "C10: destruction releases every node exactly once");
}
HARNESS(cascading_any, "C01 C02 C04 C10 C18 C20") { client<cascading<Inst<BIG>>, 2, BIG, true>(); }
HARNESS(cascading_max, "C10 C18 C20") { client<cascading<InstMax<64>>, 2, 64, true>(); }
HARNESS(cascading_three, "C10 C35") { kt_malloc_never_fails(); client<cascading<InstMax<64>>, 3, 64, false>(); }

// many nodes: each request opens a node of its own, all blocks come back in some order, with
// some kept for longer
struct One : Inst<64>
{
    void* allocate(size_t n) noexcept
    {
        return out || n > 64 ? nullptr : Inst<64>::allocate(n);
    }
};
template<size_t N> static void many()
{
    kt_malloc_never_fails();
    char* p[N];
    {
        cascading<One> a;
        for (size_t i = 0; i < N; i++)
        {
            p[i] = (char*)a.allocate(8 + i);
            kt_check(p[i], "C10,C35: any request up to the node size is served");
            kt_hold(p[i], 8 + i, "C01,C02,C04,C10: the block has room for the request");
        }
        kt_check(nodes == N, "C10: a node is made only when no node can serve the request");
        size_t left = N;
        bool gone[N] = {};
        while (left)
        {
            size_t k = kt_choice(left, "next to go");
            for (size_t i = 0; i < N; i++)
                if (!gone[i] && k-- == 0)
                {
                    gone[i] = true;
                    kt_check(a.owns(p[i]), "C10,C20: owns is true for a live block");
                    kt_unhold(p[i], 8 + i);
                    a.deallocate(p[i], 8 + i);
                    break;
                }
            left--;
            kt_check(kt_live_blocks() == left, "C10: deallocate releases exactly the given block");
            kt_check(nodes == kt_live_mallocs() && nodes >= left && nodes <= left + 1, "C10: an empty node other than the head is released");
            kt_check(!a.owns(elsewhere), "C20: owns is false for a location that is not the cascade's");
        }
        tearing = true;
    }
    kt_check(nodes == 0 && kt_live_mallocs() == 0, "C10: destruction releases every node exactly once");
}
HARNESS(cascading_many5, "C01 C02 C10 C20 C35") { many<5>(); }
HARNESS(cascading_many6, "C01 C02 C10 C20 C35", "thorough") { many<6>(); }

// nodes of two blocks each, which come back in any order; room that becomes free serves later requests
struct Two : Inst<64>
{
    void* allocate(size_t n) noexcept
    {
        if (out == 2 || n > 64)
            return nullptr;
        void* p = kt_block(n, AL, "block of a node");
        kt_set(p, K_OWNER, (size_t)this);
        kt_set(p, K_SIZE, n);
        out++;
        return p;
    }
};
template<size_t N> static void pairs()
{
    kt_malloc_never_fails();
    char* p[N + 1][2];
    size_t left[N + 1], owner[N + 1];
    {
        cascading<Two> a;
        for (size_t i = 0; i < N; i++)
        {
            for (size_t j = 0; j < 2; j++)
            {
                p[i][j] = (char*)a.allocate(8 + i);
                kt_check(p[i][j], "C10,C35: any request up to the node size is served");
                kt_hold(p[i][j], 8 + i, "C01,C02,C04,C10: the block has room for the request");
            }
            left[i] = 2;
            owner[i] = kt_get(p[i][0], K_OWNER);
        }
        kt_check(nodes == N, "C10: a node is made only when no node can serve the request");
        size_t more = kt_choice(2, "allocate again") ? kt_choice(2 * N, "when") + 1 : 0, sum = 2 * N, count = N;
        while (sum)
        {
            size_t i = kt_choice(count, "node");
            kt_assume(left[i]);
            left[i]--;
            sum--;
            char* x = p[i][left[i]];
            kt_check(a.owns(x), "C10,C20: owns is true for a live block");
            kt_unhold(x, 8 + i);
            a.deallocate(x, 8 + i);
            kt_check(!a.owns(elsewhere), "C20: owns is false for a location that is not the cascade's");
            kt_check(kt_live_blocks() == sum, "C10: deallocate releases exactly the given block");
            size_t used = 0;
            for (size_t k = 0; k < count; k++)
            {
                bool seen = left[k] == 0;
                for (size_t j = 0; j < k; j++)
                    seen = seen || (left[j] && owner[j] == owner[k]);
                used += !seen;
            }
            kt_check(nodes == kt_live_mallocs() && nodes >= used && nodes <= used + 1, "C10: an empty node other than the head is released");
            if (more && --more == 0)
            {
                p[N][0] = (char*)a.allocate(8 + N);
                kt_check(p[N][0], "C10,C35: any request up to the node size is served");
                kt_hold(p[N][0], 8 + N, "C01,C02,C04,C10: the block has room for the request");
                left[N] = 1;
                owner[N] = kt_get(p[N][0], K_OWNER);
                sum++;
                count++;
            }
        }
        tearing = true;
    }
    kt_check(nodes == 0 && kt_live_mallocs() == 0, "C10: destruction releases every node exactly once");
}
HARNESS(cascading_pairs3, "C01 C02 C10 C20 C35") { pairs<3>(); }
HARNESS(cascading_pairs4, "C01 C02 C10 C20 C35", "thorough") { pairs<4>(); }

// any number of blocks in one node: blocks of zero bytes, so that they can all have one address
static size_t many_out = 0;
static char many_home[16];
static bool many_closed = false;
struct Many
{
    bool first;
    Many() noexcept : first(nodes == 0) { nodes++; }
    Many(const Many&) = delete;
    ~Many() noexcept
    {
        kt_check(!first || many_out == 0 || tearing, "C10: a node is kept while it has live blocks");
    }
    void* allocate(size_t) noexcept
    {
        if (!first)
            return many_home + 8;
        if (many_closed)
            return nullptr;
        many_out++;
        return many_home;
    }
    void deallocate(void*, size_t) noexcept { many_out--; }
    bool owns(void* p) const noexcept { return first == (p == many_home); }
};
template<size_t N> static void count()
{
    kt_malloc_never_fails();
    cascading<Many> a;
    for (size_t i = 0; i < N; i++)
        a.allocate(0);
    kt_check(nodes == 1 && many_out == N, "C10: a node is made only when no node can serve the request");
    many_closed = true;
    kt_check(a.allocate(0) == many_home + 8, "C10,C35: any request up to the node size is served");
    a.deallocate(many_home, 0);
    kt_check(a.owns(many_home), "C10,C20: owns is true for a live block");
    while (many_out)
        a.deallocate(many_home, 0);
    kt_check(!a.owns(many_home) && kt_live_mallocs() == 1, "C10: an empty node other than the head is released");
    tearing = true;
}
HARNESS(cascading_count8, "C10 C35", "loops=1000") { count<257>(); }
HARNESS(cascading_count16, "C10", "nodebug loops=70000") { count<65537>(); }

// a real composition: blocks stay inside the nodes' storage and apart
template<size_t N> static void over_linear()
{
    kt_malloc_never_fails();
    Slot s[N] = {};
    cascading<linear_allocator<32>> a;
    for (;;)
    {
        kt_loop(40);
        size_t i = kt_choice(N, "slot");
        if (s[i].p)
        {
            kt_check(a.owns(s[i].p), "C10,C20: owns is true for a live block");
            kt_unhold(s[i].p, s[i].n);
            a.deallocate(s[i].p, s[i].n);
            s[i] = Slot{};
        }
        else
        {
            size_t n = kt_size("n");
            char* p = (char*)a.allocate(n);
            kt_check(!p == (n > 32), "C10,C35: any request up to the node size is served, others are refused");
            if (p)
            {
                kt_hold(p, n, "C01,C02,C04,C10: the block lies in live storage, apart from other blocks");
                kt_check(aligned(p), "C03: aligned to max_align_t");
                s[i].p = p;
                s[i].n = n;
            }
        }
    }
}
HARNESS(cascading_linear, "C01 C02 C03 C04 C10 C20 C35") { over_linear<2>(); }
HARNESS(cascading_linear3, "C01 C02 C03 C04 C10 C20 C35", "thorough") { over_linear<3>(); }

// moves
template<typename A>
static size_t put(A& a, Slot (&s)[2])
{
    size_t c = 0;
    for (size_t i = 0; i < 2; i++)
        if (kt_choice(2, "allocate"))
        {
            s[i].n = 8;
            s[i].p = (char*)a.allocate(8);
            if (s[i].p)
                c++;
        }
    return c;
}
HARNESS(cascading_move_ctor, "C10 C17 C33")
{
    {
        cascading<InstMax<64>> a;
        Slot s[2] = {};
        put(a, s);
        size_t n0 = nodes;
        cascading<InstMax<64>> b(std::move(a));
        kt_check(nodes == n0, "C10,C33: moving keeps every node");
        kt_check(b == b && !(b != b), "C17: an allocator equals itself");
        kt_check((a != b) == !(a == b), "C17: != is the negation of ==");
        for (size_t i = 0; i < 2; i++)
            if (s[i].p)
            {
                kt_check(b.owns(s[i].p) && !a.owns(s[i].p), "C10,C33: the destination owns the blocks, the source none");
                b.deallocate(s[i].p, 8);
            }
        if (kt_choice(2, "reuse source"))
        {
            void* p = a.allocate(8);
            if (p)
                a.deallocate(p, 8);
        }
        tearing = true;
    }
    kt_check(nodes == 0 && kt_live_mallocs() == 0 && kt_live_blocks() == 0, "C10,C33: every node is released exactly once");
}
HARNESS(cascading_move_assign, "C10 C33")
{
    {
        cascading<InstMax<64>> a, b;
        Slot s[2] = {}, t[2] = {};
        put(a, s);
        size_t n0 = nodes;
        put(b, t);
        for (size_t i = 0; i < 2; i++)
            if (t[i].p)
                b.deallocate(t[i].p, 8);
        b = std::move(a);
        kt_check(nodes == n0, "C10,C33: assignment keeps the source's nodes and releases the destination's");
        for (size_t i = 0; i < 2; i++)
            if (s[i].p)
            {
                kt_check(b.owns(s[i].p), "C10,C33: the destination owns the blocks");
                b.deallocate(s[i].p, 8);
            }
        tearing = true;
    }
    kt_check(nodes == 0 && kt_live_mallocs() == 0 && kt_live_blocks() == 0, "C10,C33: every node is released exactly once");
}
// max_size before and after the first allocation
HARNESS(cascading_max_size, "C20")
{
    cascading<InstMax<64>> a;
    kt_check(a.max_size() == 64, "C20: max_size may be asked before the first allocation");
    size_t n = kt_size("n");
    void* p = a.allocate(n);
    kt_check(a.max_size() == 64, "C20: max_size may be asked after an allocation");
    kt_check(!p || n <= 64, "C20: nothing above max_size is served");
    tearing = true;
}
// construct and destroy go to the node that owns the storage
template<size_t Limit> struct InstCons : Inst<Limit>
{
    template<typename T, typename... Args> void construct(T* p, Args&&... args)
    {
        probe.cons++;
        probe.lastid = (size_t)this;
        ::new ((void*)p) T(std::forward<Args>(args)...);
    }
    template<typename T> void destroy(T* p)
    {
        probe.dest++;
        probe.lastid = (size_t)this;
        p->~T();
    }
};
HARNESS(cascading_construct, "C10 C19")
{
    kt_malloc_never_fails();
    cascading<InstCons<BIG>> a;
    Obj* p[2] = {};
    for (int i = 0; i < 2; i++)
        p[i] = (Obj*)a.allocate(sizeof(Obj));
    size_t k = kt_choice(2, "object");
    size_t v = kt_size("v");
    if (p[k])
    {
        probe.reset();
        a.construct(p[k], v);
        kt_check(kt_obj_count() == 1 && p[k]->v == v && probe.cons == 1, "C19: construct makes exactly one object from the arguments");
        kt_check(probe.lastid == kt_get(p[k], K_OWNER), "C10,C19: construction goes to the node that owns the storage");
        a.destroy(p[k]);
        kt_check(kt_obj_count() == 0 && probe.dest == 1, "C19: destroy ends exactly one lifetime");
        kt_check(probe.lastid == kt_get(p[k], K_OWNER), "C10,C19: destruction goes to the node that owns the storage");
    }
    for (int i = 0; i < 2; i++)
        if (p[i])
            a.deallocate(p[i], sizeof(Obj));
    void* mem = a.allocate(sizeof(Fwd));
    if (mem)
        forwards(a, mem);
    tearing = true;
}
