#include "cont.h"
#include "ktl/containers/binary_heap.h"
using namespace ktl;

// element: key decides the order, id tells it apart, its lifetime is tracked
struct El
{
    size_t key, id;
    bool full;        // false once moved from
    El(size_t k, size_t i) noexcept : key(k), id(i), full(true) { kt_obj_new(this, sizeof(El)); }
    El(const El& o) noexcept : key(o.key), id(o.id), full(o.full) { kt_obj_use(&o, "copy from"); kt_obj_new(this, sizeof(El)); }
    El(El&& o) noexcept : key(o.key), id(o.id), full(o.full) { kt_obj_use(&o, "move from"); kt_obj_new(this, sizeof(El)); o.full = false; }
    El& operator=(const El& o) noexcept { kt_obj_use(this, "assign to"); kt_obj_use(&o, "copy from"); key = o.key; id = o.id; full = o.full; return *this; }
    El& operator=(El&& o) noexcept { kt_obj_use(this, "assign to"); kt_obj_use(&o, "move from"); bool f = o.full; o.full = false; key = o.key; id = o.id; full = f; return *this; }
    ~El() noexcept { kt_obj_del(this); }
    bool operator==(const El& o) const noexcept { kt_obj_use(this, "compare"); kt_obj_use(&o, "compare"); return key == o.key; }
};
struct MoveOnly : El
{
    using El::El;
    MoveOnly(MoveOnly&&) noexcept = default;
    MoveOnly& operator=(MoveOnly&&) noexcept = default;
};
struct Less
{
    bool operator()(const El& a, const El& b) const noexcept
    {
        kt_obj_use(&a, "compare");
        kt_obj_use(&b, "compare");
        kt_check(a.full && b.full, "C25,C26: the comparator is shown only elements that hold a value");
        return a.key < b.key;
    }
};
// the other direction
struct More
{
    bool operator()(const El& a, const El& b) const noexcept { return Less()(b, a); }
};

template<typename E, typename C> using Heap = binary_heap<E, C, CA<E>>;

// what the client knows to be in the heap
template<size_t N> struct Mirror
{
    size_t key[N] = {};
    bool in[N] = {};
    size_t n = 0;
    size_t free() const { size_t i = 0; while (in[i]) i++; return i; }
    void add(size_t i, size_t k) { key[i] = k; in[i] = true; n++; }
    void remove(size_t i) { key[i] = 0; in[i] = false; n--; }
    template<typename C> void first(const El& x)
    {
        kt_check(x.full && x.id < N && in[x.id] && key[x.id] == x.key, "C26: the element is one that was inserted and not yet popped");
        for (size_t j = 0; j < N; j++)
            if (in[j])
                kt_check(!C()(El(key[j], j), x), "C26: no other element precedes the one at the top");
    }
};
template<typename H, size_t N> static void coherent(H& h, const Mirror<N>& m)
{
    const H& c = h;
    kt_check(h.size() == m.n && h.empty() == (m.n == 0) && h.size() <= h.capacity(), "C26: size counts the elements");
    kt_check(h.begin() == h.data() && h.end() == h.data() + m.n && c.begin() == h.data() && c.end() == h.data() + m.n && c.data() == h.data()
             && h.rbegin().base() == h.end() && h.rend().base() == h.begin() && c.rbegin().base() == h.end() && c.rend().base() == h.begin(), "C26: iterators describe the elements");
    kt_check(kt_obj_count() == m.n, "C25: exactly the elements of the heap are alive");
}

template<typename E, typename C, size_t N> static void client()
{
    {
        Mirror<N> m;
        Heap<E, C> h(CA<E>(7));
        for (;;)
        {
            kt_loop(60);
            size_t op = kt_choice(3, "op");
            if (op == 2)
                break;
            if (op == 1)
            {
                if (m.n == N)
                    break;
                size_t i = m.free(), k = kt_size("key");
                auto it = h.insert(E(k, i));
                m.add(i, k);
                kt_check(it >= h.begin() && it < h.end() && it->id == i, "C26: insert returns the new element");
            }
            else
            {
                if (m.n == 0)
                    break;
                m.template first<C>(h.peek());
                size_t id = h.peek().id;
                E x = h.pop();
                kt_check(x.id == id && x.full && x.key == m.key[id], "C26: pop returns the element peek showed");
                m.remove(id);
            }
            coherent(h, m);
        }
    }
    kt_check(kt_obj_count() == 0, "C25: every element is destroyed exactly once");
    kt_check(kt_live_blocks() == 0, "C21: nothing is leaked");
}
HARNESS(heap_min3, "C21 C22 C25 C26") { client<El, Less, 3>(); }
HARNESS(heap_max3, "C25 C26") { client<MoveOnly, More, 3>(); }
HARNESS(heap_min4, "C21 C22 C25 C26", "thorough") { client<El, Less, 4>(); }

// any N keys in, then all out
template<typename E, typename C, size_t N> static void sort()
{
    {
        Mirror<N> m;
        Heap<E, C> h(kt_choice(2, "reserved") ? N : 1, CA<E>(7));
        size_t n = 1 + kt_choice(N, "n");
        for (size_t i = 0; i < n; i++)
        {
            size_t k = kt_size("key");
            h.insert(E(k, i));
            m.add(i, k);
        }
        coherent(h, m);
        while (m.n)
        {
            m.template first<C>(h.peek());
            E x = h.pop();
            m.template first<C>(x);
            m.remove(x.id);
        }
        coherent(h, m);
    }
    kt_check(kt_obj_count() == 0, "C25: every element is destroyed exactly once");
    kt_check(kt_live_blocks() == 0, "C21: nothing is leaked");
}
HARNESS(heap_sort4, "C21 C22 C25 C26") { sort<El, Less, 4>(); }
HARNESS(heap_sort5, "C25 C26") { sort<El, More, 5>(); }
HARNESS(heap_sort6, "C25 C26", "thorough") { sort<El, Less, 6>(); }

// deeper heaps: keys arrive so that none has to rise, then one arbitrary key, then removals
template<typename C, size_t N, size_t POPS> static void deep(size_t lo)
{
    {
        Mirror<N + 1> m;
        Heap<El, C> h(CA<El>(7));
        size_t n = lo + kt_choice(N + 1 - lo, "n");
        for (size_t i = 0; i < n; i++)
        {
            size_t k = kt_size("key");
            if (i)
                kt_assume(!C()(El(k, 0), El(m.key[(i - 1) / 2], 0)));
            h.insert(El(k, i));
            m.add(i, k);
        }
        if (kt_choice(2, "one more"))
        {
            size_t k = kt_size("last key");
            h.insert(El(k, n));
            m.add(n, k);
        }
        for (size_t i = 0; i < POPS && m.n; i++)
        {
            m.template first<C>(h.peek());
            {
                El x = h.pop();
                m.template first<C>(x);
                m.remove(x.id);
            }
            coherent(h, m);
        }
        if (m.n)
            m.template first<C>(h.peek());
    }
    kt_check(kt_obj_count() == 0, "C25: every element is destroyed exactly once");
    kt_check(kt_live_blocks() == 0, "C21: nothing is leaked");
}
HARNESS(heap_deep8, "C25 C26") { deep<Less, 8, 2>(5); }
HARNESS(heap_deep8_max, "C25 C26") { deep<More, 8, 1>(5); }
HARNESS(heap_deep12, "C25 C26") { deep<Less, 12, 1>(9); }
HARNESS(heap_deep16, "C25 C26") { deep<Less, 16, 1>(13); }
HARNESS(heap_deep32, "C25 C26", "thorough") { deep<More, 32, 1>(17); }
HARNESS(heap_deep12_two, "C25 C26", "thorough") { deep<Less, 12, 2>(9); }

// an arbitrary heap of up to N elements with some spare capacity
template<typename E, typename C, size_t N> struct St
{
    Mirror<N + 1> m;
    Heap<E, C> h;
    St() : h(CA<E>(7)) {}
    void fill()
    {
        size_t n = kt_choice(N + 1, "n");
        if (kt_choice(2, "spare"))
            h.reserve(n + 1);
        for (size_t i = 0; i < n; i++)
        {
            size_t k = kt_size("key");
            h.insert(E(k, i));
            m.add(i, k);
        }
    }
    // w holds exactly what m says, in some order, and works
    void drain(Heap<E, C>& w)
    {
        kt_check(w.size() == m.n && w.size() <= w.capacity() && w.empty() == (m.n == 0), "C26: size counts the elements");
        Mirror<N + 1> k = m;
        if (kt_choice(2, "insert more"))
        {
            size_t x = kt_size("more"), i = k.free();
            w.insert(E(x, i));
            k.add(i, x);
        }
        while (k.n)
        {
            k.template first<C>(w.peek());
            E x = w.pop();
            k.template first<C>(x);
            k.remove(x.id);
        }
        kt_check(w.empty(), "C26: the heap is empty once everything was popped");
    }
    void empty(Heap<E, C>& w)
    {
        kt_check(w.size() == 0 && w.empty(), "C26: nothing is left");
        if (kt_choice(2, "reuse"))
        {
            size_t x = kt_size("again");
            w.insert(E(x, 0));
            kt_check(w.size() == 1 && w.peek().key == x, "C25,C26: it can be used again");
        }
    }
};
static void done()
{
    kt_check(kt_obj_count() == 0, "C25: every element is destroyed exactly once");
    kt_check(kt_live_blocks() == 0, "C21: nothing is leaked");
}
template<typename E> static void moves()
{
    {
        St<E, Less, 2> S; S.fill();
        auto& h = S.h;
        CA<E> other(9);
        Heap<E, Less> w(other);
        switch (kt_choice(4, "move"))
        {
        case 0: { Heap<E, Less> u(std::move(h)); S.empty(h); S.drain(u); break; }
        case 1: { Heap<E, Less> u(std::move(h), other); S.empty(h); S.drain(u); break; }
        case 2:
        {
            size_t n = kt_choice(3, "destination holds");
            for (size_t i = 0; i < n; i++)
                w.insert(E(i, i));
            Heap<E, Less>& r = (w = std::move(h));
            kt_check(&r == &w, "C26: assignment returns the heap");
            S.empty(h);
            S.drain(w);
            break;
        }
        default:
        {
            auto& alias = h;
            h = std::move(alias);
            h.clear();
            S.empty(h);
        }
        }
    }
    done();
}
HARNESS(heap_moves, "C21 C22 C25 C26 C33") { moves<El>(); }
HARNESS(heap_moves_only, "C21 C22 C25 C26 C29") { moves<MoveOnly>(); }
HARNESS(heap_copies, "C21 C22 C25 C26")
{
    {
        St<El, Less, 2> S; S.fill();
        auto& h = S.h;
        CA<El> other(9);
        switch (kt_choice(4, "copy"))
        {
        case 0: { Heap<El, Less> u(h); S.drain(u); break; }
        case 1: { Heap<El, Less> u(h, other); S.drain(u); break; }
        case 2:
        {
            Heap<El, Less> w(other);
            size_t n = kt_choice(4, "destination holds");
            for (size_t i = 0; i < n; i++)
                w.insert(El(i, i));
            Heap<El, Less>& r = (w = h);
            kt_check(&r == &w, "C26: assignment returns the heap");
            S.drain(w);
            break;
        }
        default: { auto& alias = h; h = alias; }
        }
        S.drain(h);
    }
    done();
}
HARNESS(heap_other, "C21 C22 C25 C26")
{
    {
        St<El, Less, 3> S; S.fill();
        auto& h = S.h;
        switch (kt_choice(5, "op"))
        {
        case 0: h.clear(); kt_check(kt_obj_count() == 0, "C25: clear destroys every element"); S.empty(h); break;
        case 1:
        {
            size_t c = h.capacity(), n = kt_choice(9, "reserve");
            h.reserve(n);
            kt_check(h.capacity() >= n && h.capacity() >= c, "C26: reserve provides the capacity");
            coherent(h, S.m);
            S.drain(h);
            break;
        }
        case 2:         // insert a copy of an own element
            if (S.m.n)
            {
                size_t i = kt_choice(S.m.n, "i");
                El& x = h.begin()[i];
                size_t k = x.key, id = x.id;
                auto it = h.insert(x);
                kt_check(it->key == k && it->id == id && it->full && h.size() == S.m.n + 1, "C22,C26: the inserted element is a copy of the own one");
                kt_check(kt_obj_count() == S.m.n + 1, "C25: exactly the elements of the heap are alive");
            }
            break;
        case 3:
        {
            size_t k = kt_size("sought");
            bool there = false;
            {
                El x(k, 0);
                const auto& c = h;
                auto it = c.find(x);
                for (size_t i = 0; i < 4; i++)
                    if (S.m.in[i] && S.m.key[i] == k)
                        there = true;
                kt_check((it != h.end()) == there, "C26: find returns an element iff one is equal");
                if (it != h.end())
                    kt_check(it >= h.begin() && it < h.end() && it->key == k, "C26: find returns an equal element");
            }
            coherent(h, S.m);
            break;
        }
        default: S.drain(h);
        }
    }
    done();
}
// equality may be finer than the order: find goes by equality
struct Fine : El
{
    size_t tag;
    Fine(size_t k, size_t i, size_t t) noexcept : El(k, i), tag(t) {}
    bool operator==(const Fine& o) const noexcept { return El::operator==(o) && tag == o.tag; }
};
HARNESS(heap_find_fine, "C22 C26")
{
    {
        Heap<Fine, Less> h(CA<Fine>(7));
        size_t n = kt_choice(4, "n"), key[3] = {}, tag[3] = {};
        for (size_t i = 0; i < n; i++)
        {
            key[i] = kt_size("key");
            tag[i] = kt_size("tag");
            h.insert(Fine(key[i], i, tag[i]));
        }
        size_t k = kt_size("sought key"), t = kt_size("sought tag");
        bool there = false;
        for (size_t i = 0; i < n; i++)
            if (key[i] == k && tag[i] == t)
                there = true;
        Fine x(k, 0, t);
        const auto& c = h;
        auto it = c.find(x);
        kt_check((it != h.end()) == there, "C26: find returns an element iff one is equal");
        if (it != h.end())
            kt_check(it >= h.begin() && it < h.end() && it->key == k && it->tag == t, "C26: find returns an equal element");
    }
    done();
}
HARNESS(heap_ctors, "C21 C22 C25 C26")
{
    {
        size_t a = kt_size("a"), b = kt_size("b"), c = kt_size("c");
        Mirror<4> m;
        m.add(0, a); m.add(1, b); m.add(2, c);
        auto drain = [&](auto& w)
        {
            kt_check(w.size() == 3 && w.capacity() >= 3, "C26: holds the listed values");
            while (m.n)
            {
                m.template first<Less>(w.peek());
                El x = w.pop();
                m.template first<Less>(x);
                m.remove(x.id);
            }
        };
        auto use = [&](auto& w, size_t cap)
        {
            kt_check(w.size() == 0 && w.empty() && w.capacity() >= cap, "C26: starts empty");
            w.insert(El(a, 0));
            kt_check(w.size() == 1 && w.peek().key == a, "C26: the first element is on top");
        };
        switch (kt_choice(7, "ctor"))
        {
        case 0: { Heap<El, Less> w; use(w, 0); break; }
        case 1: { Heap<El, Less> w(CA<El>(5), Less()); use(w, 0); break; }
        case 2: { Heap<El, Less> w(size_t(3)); use(w, 3); break; }
        case 3: { Heap<El, Less> w(kt_choice(3, "capacity"), CA<El>(5), Less()); use(w, 0); break; }
        case 4: { Heap<El, Less> w({ El(a, 0), El(b, 1), El(c, 2) }); drain(w); break; }
        case 5: { Heap<El, Less> w({ El(a, 0), El(b, 1), El(c, 2) }, CA<El>(5)); drain(w); break; }
        default: { Heap<El, Less> w(std::initializer_list<El>{}, CA<El>(5)); use(w, 0); break; }
        }
    }
    done();
}
// copying may throw: nothing is lost, nothing is destroyed that was never made
struct ElT : El
{
    using El::El;
    ElT(const ElT& o) : El(may_throw(o)) {}
    static const El& may_throw(const El& o) { if (kt_choice(2, "copy throws")) kt_throw(); return o; }
    ElT(ElT&&) noexcept = default;
    ElT& operator=(const ElT&) noexcept = default;
    ElT& operator=(ElT&&) noexcept = default;
};
HARNESS(heap_throwing_copies, "C21 C25 C30")
{
    {
        St<ElT, Less, 2> S; S.fill();
        auto& h = S.h;
        CA<ElT> other(9);
        try
        {
            switch (kt_choice(3, "copy"))
            {
            case 0: { Heap<ElT, Less> u(h); break; }
            case 1: { Heap<ElT, Less> u(h, other); break; }
            default:
            {
                Heap<ElT, Less> w(other);
                size_t n = kt_choice(2, "destination holds");
                for (size_t i = 0; i < n; i++)
                    w.insert(ElT(i, i));
                w = h;
            }
            }
        }
        catch (...)
        {
        }
        kt_check(kt_obj_count() == S.m.n, "C25: exactly the elements of the heap are alive");
        kt_check(kt_live_blocks() == (h.data() ? 1 : 0), "C21: a copy that failed leaks no buffer");
        S.drain(h);
    }
    done();
}

// deep heaps, emptied completely: fixed insertion orders with one arbitrary key among them
static size_t rank(size_t order, size_t i, size_t n)
{
    if (order == 0)
        return i;                      // never rises
    if (order == 1)
        return n - i;                  // always rises to the top
    if (order == 2)                    // within a level from right to left
    {
        size_t lo = 0, len = 1;
        while (i >= lo + len) { lo += len; len *= 2; }
        return lo + (len - 1 - (i - lo));
    }
    return (i * 7 + 3) % 32;           // scattered
}
template<typename C, size_t N, bool Extra = true> static void drained(size_t lo)
{
    {
        Mirror<N + 1> m;
        Heap<El, C> h(CA<El>(7));
        size_t order = kt_choice(4, "order"), n = lo + kt_choice(N + 1 - lo, "n"), at = Extra ? kt_choice(3, "at") : 0;
        for (size_t i = 0; i < n; i++)
        {
            size_t k = 10 + 2 * rank(order, i, n);
            h.insert(El(k, i));
            m.add(i, k);
            if ((at == 1 && i == n / 2) || (at == 2 && i == n - 1))
            {
                size_t x = kt_size("key");
                h.insert(El(x, n));
                m.add(n, x);
            }
        }
        size_t last = 0;
        while (m.n)
        {
            size_t key = h.peek().key;
            El x = h.pop();
            kt_check(x.full && x.id <= n && m.in[x.id] && m.key[x.id] == x.key && key == x.key, "C26: the element is one that was inserted and not yet popped");
            kt_check(m.n == n + (at != 0) || !C()(x, El(last, 0)), "C26: elements leave in the comparator's order");
            last = x.key;
            m.remove(x.id);
        }
        kt_check(h.empty(), "C26: size counts the elements");
    }
    kt_check(kt_obj_count() == 0, "C25: every element is destroyed exactly once");
    kt_check(kt_live_blocks() == 0, "C21: nothing is leaked");
}
HARNESS(heap_drain8, "C25 C26") { drained<Less, 8>(6); }
HARNESS(heap_drain15, "C25 C26") { drained<Less, 15>(15); }
HARNESS(heap_drain17, "C25 C26") { drained<More, 17>(17); }
HARNESS(heap_drain31, "C25 C26") { drained<Less, 31, false>(31); }
HARNESS(heap_drain64, "C25 C26") { drained<More, 64, false>(62); }
HARNESS(heap_drain32, "C25 C26", "thorough") { drained<Less, 32>(30); }

// any capacity, and more elements than a narrow counter can hold
struct ByValue { bool operator()(uint32_t a, uint32_t b) const noexcept { return a < b; } };
HARNESS(heap_capacity, "C21 C22 C25 C26")
{
    {
        size_t n = kt_range(0, TOP, "capacity"), k = kt_range(0, TOP, "reserve");
        binary_heap<uint32_t, ByValue, CA<uint32_t>> h(n, CA<uint32_t>(5));
        kt_check(h.capacity() == n && h.size() == 0, "C26: the capacity is what was asked for");
        h.reserve(k);
        kt_check(h.capacity() >= k && h.capacity() >= n, "C26: reserve makes room");
        uint32_t x = kt_u32("x"), y = kt_u32("y");
        h.insert(x);
        h.insert(y);
        kt_check(h.size() == 2 && h.peek() == (y < x ? y : x), "C26: no other element precedes the one at the top");
        if (kt_choice(2, "move"))
        {
            binary_heap<uint32_t, ByValue, CA<uint32_t>> w(std::move(h));
            w.insert(x);
            kt_check(w.size() == 3, "C26: size counts the elements");
        }
        else
        {
            binary_heap<uint32_t, ByValue, CA<uint32_t>> w(h);
            w.insert(x);
            kt_check(w.size() == 3, "C26: size counts the elements");
        }
    }
    kt_check(kt_live_blocks() == 0, "C21: nothing is leaked");
}
template<size_t N> static void count()
{
    {
        binary_heap<uint32_t, ByValue, CA<uint32_t>> h(CA<uint32_t>(5));
        h.reserve(N);
        for (size_t i = 0; i < N; i++)
            h.insert((uint32_t)i);
        kt_check(h.size() == N && h.end() == h.begin() + N && h.begin()[N - 1] == N - 1 && h.capacity() >= N, "C26: size counts the elements");
        h.insert((uint32_t)N);
        kt_check(h.size() == N + 1 && h.capacity() >= N + 1, "C26: size counts the elements");
        kt_check(h.pop() == 0, "C26: pop returns the element peek showed");
        kt_check(h.peek() == 1 && h.size() == N, "C26: no other element precedes the one at the top");
        h.clear();
        kt_check(h.empty(), "C26: size counts the elements");
    }
    kt_check(kt_live_blocks() == 0, "C21: nothing is leaked");
}
HARNESS(heap_count8, "C21 C22 C25 C26", "loops=1000") { count<257>(); }

// a comparator with a state: it decides at run time which way the heap is ordered
struct Way
{
    bool down;
    bool operator()(const El& a, const El& b) const noexcept
    {
        kt_obj_use(&a, "compare");
        kt_obj_use(&b, "compare");
        kt_check(a.full && b.full, "C25,C26: the comparator is shown only elements that hold a value");
        return down ? b.key < a.key : a.key < b.key;
    }
};
typedef Heap<El, Way> WHeap;
static void by(WHeap& h, bool down, size_t n)
{
    El more(n == 0 ? 5 : 50, 99);
    h.insert(more);
    h.insert(El(20, 98));
    h.insert(El(15, 97));
    size_t left = n + 3, last = 0;
    kt_check(h.size() == left, "C26: size counts the elements");
    for (size_t i = 0; i < left; i++)
    {
        size_t k = h.peek().key;
        kt_check(i == 0 || (down ? k <= last : last <= k), "C26: the elements come out in the order of the heap's own comparator");
        kt_check(h.pop().key == k, "C26: pop gives the element at the top");
        last = k;
    }
    kt_check(h.empty(), "C26: the heap is empty once everything was popped");
}
HARNESS(heap_comparators_ctors, "C21 C25 C26")
{
    {
        bool d = kt_choice(2, "down");
        CA<El> a(7);
        Way way{ d };
        switch (kt_choice(3, "how"))
        {
        case 0: { WHeap u(size_t(2), a, way); by(u, d, 0); break; }
        case 1: { WHeap u({ El(4, 1), El(2, 2), El(90, 3) }, a, way); by(u, d, 3); break; }
        default: { WHeap u(a, way); by(u, d, 0); }
        }
    }
    done();
}
HARNESS(heap_comparators, "C21 C25 C26")
{
    {
        bool d = kt_choice(2, "down"), e = kt_choice(2, "other down");
        CA<El> a(7), b(9);
        Way way{ d };
        size_t n = kt_choice(4, "n");
        WHeap h(a, way);
        for (size_t i = 0; i < n; i++)
            h.insert(El(10 * (i == 1 ? 7 : i + 1), i));
        switch (kt_choice(6, "how"))
        {
        case 0: { WHeap u(h); by(u, d, n); by(h, d, n); break; }
        case 1: { WHeap u(h, b); by(u, d, n); by(h, d, n); break; }
        case 2: { WHeap u(std::move(h)); by(u, d, n); break; }
        case 3: { WHeap u(std::move(h), b); by(u, d, n); break; }
        default:
        {
            Way other{ e };
            WHeap w(b, other);
            bool had = kt_choice(2, "destination holds");
            if (had)
                w.insert(El(3, 50));
            if (kt_choice(2, "copy"))
            {
                w = h;
                by(h, d, n);
            }
            else
                w = std::move(h);
            by(w, d, n);
        }
        }
    }
    done();
}
