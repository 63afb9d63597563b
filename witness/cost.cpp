// How the work of an operation grows with the number of blocks, nodes, copies or elements.
#define SUBP "C36"
#include "sub.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/stack_allocator.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/cascading.h"
#include "ktl/allocators/shared.h"
#include "ktl/containers/binary_heap.h"
#include "ktl/containers/trivial_vector.h"
using namespace ktl;

// instructions analysed on the way
template<typename F> static size_t cost(F f)
{
    size_t b = kt_steps();
    f();
    return kt_steps() - b;
}
// the most an operation costs early and late in a long history
struct Both
{
    size_t early = 0, late = 0;
    template<typename F> void run(size_t i, size_t n, F f)
    {
        size_t c = cost(f);
        if (i < n / 10 && c > early)
            early = c;
        if (i >= n - n / 10 && c > late)
            late = c;
    }
    bool constant() const { return late <= 2 * early + 200; }
};

template<typename A> static void bump(A& a, size_t N)
{
    char* p[200];
    Both get, own, put;
    for (size_t i = 0; i < N; i++)
        get.run(i, N, [&] { p[i] = (char*)a.allocate(16); });
    for (size_t i = 0; i < N; i++)
        own.run(i, N, [&] { a.owns(p[i]); });
    for (size_t i = 0; i < N; i++)
        put.run(i, N, [&] { a.deallocate(p[N - 1 - i], 16); });
    kt_check(get.constant() && own.constant() && put.constant(), "C36: a bump allocator's operations take the same time however many blocks there are");
}
HARNESS(cost_linear, "C36", "loops=1000") { linear_allocator<3200> a; bump(a, 200); }
HARNESS(cost_stack, "C36", "loops=1000") { stack<3200> s; stack_allocator<3200> a(s); bump(a, 200); }
HARNESS(cost_freelist, "C36", "loops=1000")
{
    constexpr size_t N = 200;
    void* p[N];
    {
        freelist<0, 16, Sub<NOFAIL>> a(size_t(1));
        Both get, put, again;
        for (size_t i = 0; i < N; i++)
            get.run(i, N, [&] { p[i] = a.allocate(16); });
        for (size_t i = 0; i < N; i++)
            put.run(i, N, [&] { a.deallocate(p[i], 16); });
        for (size_t i = 0; i < N; i++)
            again.run(i, N, [&] { p[i] = a.allocate(16); });
        kt_check(get.constant() && put.constant() && again.constant(), "C36: freelist's operations take the same time however many blocks there are");
    }
}
// serves one request
struct Once
{
    bool out = false;
    void* allocate(size_t) noexcept { if (out) return nullptr; out = true; return mem; }
    void deallocate(void*, size_t) noexcept { out = false; }
    bool owns(void* p) const noexcept { return p == mem; }
    bool operator==(const Once& o) const noexcept { return this == &o; }
    bool operator!=(const Once& o) const noexcept { return this != &o; }
    alignas(16) char mem[16];
};
HARNESS(cost_cascading, "C36", "loops=1000")
{
    constexpr size_t N = 100;
    kt_malloc_never_fails();
    void* p[N];
    cascading<Once> a;
    Both get;
    for (size_t i = 0; i < N; i++)
        get.run(i, N, [&] { p[i] = a.allocate(16); });
    kt_check(get.constant(), "C36: cascading makes a new node in the same time however many nodes there are");
    Both newest;
    for (size_t i = N; i-- > 0;)        // each of them in the first node but one
        newest.run(N - 1 - i, N, [&] { a.deallocate(p[i], 16); });
    kt_check(newest.constant(), "C36: a block of a node in front is found in the same time however many nodes there are behind it");
}
template<typename H> static void copies()
{
    constexpr size_t N = 100;
    kt_malloc_never_fails();
    alignas(H) char mem[N * sizeof(H)];
    H* h = (H*)mem;
    Both make, drop;
    new ((void*)h) H(size_t(1));
    for (size_t i = 1; i < N; i++)
        make.run(i, N, [&] { new ((void*)(h + i)) H(h[i - 1]); });
    for (size_t i = N; i-- > 1;)
        drop.run(N - 1 - i, N - 1, [&] { h[i].~H(); });
    kt_check(make.constant() && drop.constant(), "C36: copying and destroying a shared handle takes the same time however many there are");
}
HARNESS(cost_shared, "C36", "loops=1000") { copies<shared<Sub<0>>>(); }
HARNESS(cost_atomic_shared, "C36", "loops=1000") { copies<atomic_shared<Sub<0>>>(); }

// counts the requests for memory
static size_t taken = 0;
template<typename T> struct Taker
{
    using value_type = T;
    T* allocate(size_t n) { taken++; return (T*)kt_block(n * sizeof(T), AL, "buffer"); }
    void deallocate(T* p, size_t) { if (p) kt_release(p); }
    bool operator==(const Taker&) const noexcept { return true; }
    bool operator!=(const Taker&) const noexcept { return false; }
};
// growing by a factor of 1.2 each time would be 35 requests for 600 elements
template<typename F> static void appends(size_t N, F f, size_t limit = 60)
{
    for (size_t i = 0; i < N; i++)
        f(i);
    kt_check(taken <= limit, "C36: appending n elements asks for memory O(log n) times");
}
typedef trivial_vector<uint32_t, Taker<uint32_t>> Vec;
HARNESS(cost_push_back, "C36", "loops=2000") { Vec v; appends(600, [&](size_t i) { v.push_back((uint32_t)i); }); }
HARNESS(cost_emplace_back, "C36", "loops=2000") { Vec v; appends(600, [&](size_t i) { v.emplace_back((uint32_t)i); }); }
HARNESS(cost_emplace, "C36", "loops=2000") { Vec v; appends(600, [&](size_t i) { v.emplace(v.end(), (uint32_t)i); }); }
HARNESS(cost_push_range, "C36", "loops=2000")
{
    Vec v;
    uint32_t x[2] = { 1, 2 };
    appends(30, [&](size_t) { v.push_back(x, x + 2); }, 16);
}
HARNESS(cost_vector_end, "C36", "loops=2000")
{
    constexpr size_t N = 300;
    Vec v;
    v.reserve(N);
    Both add, look, drop;
    for (size_t i = 0; i < N; i++)
        add.run(i, N, [&] { v.push_back((uint32_t)i); });
    for (size_t i = 0; i < N; i++)
        look.run(i, N, [&] { (void)v[i]; });
    for (size_t i = 0; i < N; i++)
        drop.run(i, N, [&] { v.pop_back(); });
    kt_check(add.constant() && look.constant() && drop.constant(), "C36: adding, reading and removing at the end of a vector takes the same time however long it is");
}

static size_t compared = 0;
struct Counting { bool operator()(uint32_t a, uint32_t b) const noexcept { compared++; return a < b; } };
typedef binary_heap<uint32_t, Counting, Taker<uint32_t>> CHeap;
static size_t logarithm(size_t n) { size_t r = 0; while (n >>= 1) r++; return r; }
// order: 0 ascending, 1 descending, 2 mixed
template<size_t N> static void heap()
{
    size_t order = kt_choice(3, "order");
    CHeap h;
    bool few = true;
    size_t small = 0, big = 0;
    for (size_t i = 0; i < N; i++)
    {
        uint32_t k = uint32_t(order == 0 ? i : order == 1 ? N - i : i * 37 % N);
        compared = 0;
        h.insert(k);
        few &= compared <= 2 * logarithm(i + 1) + 4;
    }
    kt_check(few, "C36: insert compares O(log n) elements");
    kt_check(taken <= 40, "C36: inserting n elements asks for memory O(log n) times");
    for (size_t i = N; i > 0; i--)
    {
        compared = 0;
        size_t c = cost([&] { h.pop(); });
        few &= compared <= 4 * logarithm(i) + 6;
        if (i <= 8 && c > small)
            small = c;
        if (i > N - 8 && c > big)
            big = c;
    }
    kt_check(few, "C36: pop compares O(log n) elements");
    // the tree is at most logarithm(N) / 3 times as high
    kt_check(big <= (logarithm(N) / 3 + 1) * small + 200, "C36: pop works along one path of the heap");
}
HARNESS(cost_heap, "C36", "loops=2000") { heap<256>(); }

// a full vector of any size grows by a share of its capacity
template<typename F> static void grow(F f)
{
    Vec v;
    size_t c = kt_range(64, size_t(1) << 40, "capacity");
    v.reserve(c);
    size_t full = v.capacity();
    v.resize(full);
    f(v);
    kt_check(v.capacity() - full >= full / 8, "C36: a full vector grows by a share of its capacity");
}
HARNESS(cost_grow_push_back, "C36") { grow([](Vec& v) { v.push_back(1u); }); }
HARNESS(cost_grow_emplace_back, "C36") { grow([](Vec& v) { v.emplace_back(1u); }); }
HARNESS(cost_grow_emplace, "C36") { grow([](Vec& v) { v.emplace(v.begin() + kt_range(0, v.size(), "at"), 1u); }); }
HARNESS(cost_grow_range, "C36") { grow([](Vec& v) { uint32_t x[2] = { 1, 2 }; v.push_back(x, x + 2); }); }
