// Every documented member of every allocator and container, instantiated for the kinds of parameters the documentation allows.
#include "ktl/ktl.h"
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
using namespace ktl;

enum class Colour : unsigned char { red, green };
struct Pod { int a; double b; char c[3]; };
struct Eq { int a; bool operator==(const Eq& o) const { return a == o.a; } bool operator<(const Eq& o) const { return a < o.a; } bool operator>(const Eq& o) const { return a > o.a; } };
struct Str { std::string s; bool operator==(const Str& o) const { return s == o.s; } bool operator<(const Str& o) const { return s < o.s; } bool operator>(const Str& o) const { return s > o.s; } };
struct alignas(16) Wide { long double d; };
struct Order { int dir; template<typename T> bool operator()(const T& a, const T& b) const { return a < b; } };
struct NoEq { int v; NoEq(int x) : v(x) {} bool operator<(const NoEq& o) const { return v < o.v; } };
struct MoveOnly { std::unique_ptr<int> p; MoveOnly() = default; explicit MoveOnly(int v) : p(new int(v)) {} MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; bool operator<(const MoveOnly& o) const { return *p < *o.p; } bool operator>(const MoveOnly& o) const { return *p > *o.p; } };

// ---- containers: all non-template members
#define CONT(T) \
    template class ktl::trivial_vector<T, std::allocator<T>>; template class ktl::trivial_vector<T, type_allocator<T, mallocator>>; \
    template class ktl::trivial_vector<T, type_allocator<T, shared<linear_allocator<256>>>>; \
    template class ktl::trivial_array<T, std::allocator<T>>; template class ktl::trivial_array<T, type_allocator<T, mallocator>>; \
    template class ktl::trivial_array<T, type_allocator<T, global<linear_allocator<256>>>>; \
    template class ktl::trivial_buffer<T, 1>; template class ktl::trivial_buffer<T, 8>;
CONT(int) CONT(unsigned char) CONT(bool) CONT(double) CONT(int*) CONT(const char*) CONT(Colour) CONT(Pod) CONT(Eq) CONT(Wide)
typedef void (*Fn)(int);
CONT(Fn)
#define HEAP(T) \
    template class ktl::binary_heap<T, std::less<T>, std::allocator<T>>; template class ktl::binary_heap<T, std::greater<T>, type_allocator<T, mallocator>>; \
    template class ktl::binary_heap<T, Order, type_allocator<T, shared<linear_allocator<256>>>>; template class ktl::binary_heap<T, bool (*)(T const&, T const&), std::allocator<T>>;
HEAP(int) HEAP(double) HEAP(int*) HEAP(Eq) HEAP(Str) HEAP(std::string)
#define PACK(P, B) template class ktl::packed_ptr<P, B>;
PACK(int*, 0) PACK(int*, 1) PACK(int*, 2) PACK(double*, 3) PACK(char*, 0) PACK(const int*, 2) PACK(Wide*, 4) PACK(int**, 3) PACK(const Pod*, 3)
template class ktl::packed_ptr<void*, 4, 16>; template class ktl::packed_ptr<char*, 10, 1024>;

template<typename V, typename T, typename A> void vector_calls(const T& t, T u, const A& al)
{
    V a, b(al), c(size_t(3)), d(size_t(3), al), e(size_t(3), t), f(size_t(3), t, al), g({ t, u }), h({ t, u }, al), i(&t, &t + 1), j(&t, &t + 1, al);
    V k(a), l(std::move(b)), m(k, al), n(std::move(l), al);
    k = m; k = std::move(n);
    const V& q = k;
    T& r1 = k[0]; const T& r2 = q[0]; T& r3 = q.at(0);
    for (T& x : k) x = t;
    for (const T& x : q) (void)x;
    typename V::iterator it = k.begin(); typename V::const_iterator ct = q.begin();
    typename V::reverse_iterator rt = k.rbegin(); typename V::const_reverse_iterator crt = q.rbegin();
    bool z = it != k.end() && ct != q.end() && rt != k.rend() && crt != q.rend() && q.empty();
    size_t s = q.size() + q.capacity();
    T* p1 = k.data(); const T* p2 = q.data();
    k.clear(); k.reserve(s); k.resize(s);
    k.push_back(t); k.push_back(u); k.push_back(std::move(u)); k.push_back(&t, &t + 1); k.push_back(p1, p2);
    k.emplace_back(t); k.emplace_back(); k.emplace(k.begin(), t); k.emplace(q.end()); k.emplace_back(std::move(u));
    it = k.erase(k.begin()); it = k.erase(q.begin()); it = k.erase(q.begin(), q.end()); it = k.erase(k.begin(), k.end());
    T last = k.pop_back();
    (void)r1; (void)r2; (void)r3; (void)z; (void)last; (void)it;
}
template<typename V, typename T, typename A> void array_calls(const T& t, T u, const A& al)
{
    V a, b(al), c(size_t(3)), d(size_t(3), al), e(size_t(3), t), f(size_t(3), t, al), g({ t, u }), h({ t, u }, al), i(&t, &t + 1), j(&t, &t + 1, al);
    V k(a), l(std::move(b)), m(k, al), n(std::move(l), al);
    k = m; k = std::move(n);
    const V& q = k;
    T& r1 = k[0]; const T& r2 = q[0]; T& r3 = q.at(0);
    for (T& x : k) x = t;
    for (const T& x : q) (void)x;
    typename V::iterator it = k.begin(); typename V::const_iterator ct = q.begin();
    typename V::reverse_iterator rt = k.rbegin(); typename V::const_reverse_iterator crt = q.rbegin();
    bool z = it != k.end() && ct != q.end() && rt != k.rend() && crt != q.rend() && q.empty();
    T* p1 = k.data(); const T* p2 = q.data();
    k.resize(q.size()); k.assign(&t, &t + 1); k.assign(p1, p2);
    (void)r1; (void)r2; (void)r3; (void)z;
}
template<typename T> void buffer_calls(const T& t, T u)
{
    using V = trivial_buffer<T, 4>;
    V a, b(t), c({ t, u }), d(&t, &t + 1), e(a), f(std::move(b));
    e = f; e = std::move(c);
    const V& q = e;
    T& r1 = e[5]; const T& r2 = q[5]; T& r3 = e.at(5); const T& r4 = q.at(5);
    for (T& x : e) x = t;
    for (const T& x : q) (void)x;
    typename V::iterator it = e.begin(); typename V::const_iterator ct = q.begin();
    typename V::reverse_iterator rt = e.rbegin(); typename V::const_reverse_iterator crt = q.rbegin();
    bool z = it != e.end() && ct != q.end() && rt != e.rend() && crt != q.rend();
    static_assert(std::is_same_v<decltype(q.size()), size_t>);
    T* p1 = e.data(); const T* p2 = q.data();
    e.assign(&t, &t + 1); e.assign(p1, p2);
    (void)r1; (void)r2; (void)r3; (void)r4; (void)z; (void)d;
}
template<typename H, typename T> void heap_core(H& k, T&& t, T&& u)
{
    const H& q = k;
    k.insert(std::move(t)); auto at = k.insert(std::move(u));
    typename H::iterator it = at; typename H::const_iterator ct = q.begin();
    typename H::reverse_iterator rt = k.rbegin(); typename H::const_reverse_iterator crt = q.rbegin();
    bool z = it != k.end() && k.begin() != k.end() && ct != q.end() && rt != k.rend() && crt != q.rend() && q.empty();
    for (auto& x : k) (void)x;
    for (const auto& x : q) (void)x;
    auto* p1 = k.data(); const auto* p2 = q.data();
    size_t s = q.size() + q.capacity();
    auto& top = k.peek();
    auto v = k.pop();
    k.reserve(s); k.clear();
    (void)z; (void)p1; (void)p2; (void)top; (void)v;
}
template<typename H, typename T, typename A, typename C> void heap_calls(T t, T u, const A& al, const C& comp)
{
    H a, b(comp), c(al), d(al, comp), e(size_t(3)), f(size_t(3), comp), g(size_t(3), al), h(size_t(3), al, comp), i({ t, u }), j({ t, u }, al);
    H k(a), l(std::move(b)), m(k, al), n(std::move(l), al);
    k = m; k = std::move(n);
    k.insert(t);
    const H& q = k;
    auto it = q.find(t);
    (void)it;
    heap_core(k, std::move(t), std::move(u));
}
template<typename H, typename T> void heap_moves(T t, T u)
{
    H a, b(std::move(a)), c(size_t(3));
    c = std::move(b);
    heap_core(c, std::move(t), std::move(u));
}
template<typename T> void packed_calls(T* p)
{
    packed_ptr<T*, 1, 2> a, b(p, 1u), c(a);
    c = b;
    bool z = bool(a) && !b;
    T* q = c.get_ptr();
    unsigned i = c.template get_int<unsigned>(); uint8_t j = c.template get_int<uint8_t>(); size_t k = c.template get_int<size_t>(); bool l = c.template get_int<bool>();
    c.set_ptr(q); c.set_int(i); c.set_int(j); c.set_int(k); c.set_int(l);
    if (c) z = !z;
}
void containers()
{
    vector_calls<trivial_vector<int>>(1, 2, std::allocator<int>());
    vector_calls<trivial_vector<Pod>>(Pod{}, Pod{}, std::allocator<Pod>());
    vector_calls<trivial_vector<int*>>((int*)nullptr, (int*)nullptr, std::allocator<int*>());
    vector_calls<trivial_vector<double, type_mallocator<double>>>(1.0, 2.0, type_mallocator<double>());
    vector_calls<trivial_vector<Colour, type_shared_linear_allocator<Colour, 1024>>>(Colour::red, Colour::green, type_shared_linear_allocator<Colour, 1024>());
    array_calls<trivial_array<int>>(1, 2, std::allocator<int>());
    array_calls<trivial_array<Pod>>(Pod{}, Pod{}, std::allocator<Pod>());
    array_calls<trivial_array<double, type_mallocator<double>>>(1.0, 2.0, type_mallocator<double>());
    array_calls<trivial_array<Colour, type_shared_linear_allocator<Colour, 1024>>>(Colour::red, Colour::green, type_shared_linear_allocator<Colour, 1024>());
    buffer_calls<int>(1, 2); buffer_calls<Pod>(Pod{}, Pod{}); buffer_calls<Wide>(Wide{}, Wide{}); buffer_calls<char>('a', 'b');
    heap_calls<binary_min_heap<int>>(1, 2, std::allocator<int>(), std::less<int>());
    heap_calls<binary_max_heap<Str>>(Str{ "a" }, Str{ "b" }, std::allocator<Str>(), std::greater<Str>());
    heap_calls<binary_heap<Eq, Order>>(Eq{ 1 }, Eq{ 2 }, std::allocator<Eq>(), Order{ 1 });
    heap_calls<binary_max_heap<std::string, type_shared_linear_allocator<std::string, 1024>>>(std::string("a"), std::string("b"), type_shared_linear_allocator<std::string, 1024>(), std::greater<std::string>());
    heap_calls<binary_min_heap<int, type_mallocator<int>>>(1, 2, type_mallocator<int>(), std::less<int>());
    heap_moves<binary_min_heap<MoveOnly>>(MoveOnly(1), MoveOnly(2));
    heap_moves<binary_max_heap<MoveOnly, type_mallocator<MoveOnly>>>(MoveOnly(1), MoveOnly(2));
    heap_moves<binary_min_heap<NoEq>>(NoEq(1), NoEq(2));
    binary_min_heap<NoEq> ne; NoEq one(1); ne.insert(one); ne.insert(2); binary_min_heap<NoEq> ne2(ne); ne2 = ne;
    // containers over allocators with contained state
    trivial_vector<int, type_linear_allocator<int, 256>> v; v.push_back(1); v.resize(4); v.erase(v.begin()); v.emplace(v.begin(), 2); v.reserve(9);
    trivial_array<int, type_linear_allocator<int, 256>> a; a.resize(3); int x[2] = {}; a.assign(x, x + 2);
    binary_min_heap<int, type_linear_allocator<int, 256>> h; h.insert(3); h.pop(); h.reserve(4); h.clear();
    int i = 0; const char ch = 'x'; struct S { int a; } s{}; packed_calls(&i); packed_calls(&ch); packed_calls(&s); void* vp = &i; packed_ptr<void*, 4, 16> pv(vp, 3u); pv.set_ptr(nullptr);
}

// ---- allocators: all non-template members
using Lin = linear_allocator<64>;
using Fr = freelist<0, 64, Lin>;
template class ktl::linear_allocator<1>; template class ktl::linear_allocator<64>;
template struct ktl::stack<64>; template class ktl::stack_allocator<64>;
template class ktl::cascading<Lin>; template class ktl::cascading<Fr>; template class ktl::cascading<fallback<Lin, Lin>>; template class ktl::cascading<threaded<Lin>>;
template class ktl::freelist<0, 8, mallocator>; template class ktl::freelist<8, 16, Lin>; template class ktl::freelist<0, 64, fallback<Lin, mallocator>>; template class ktl::freelist<0, 64, cascading<Lin>>;
template class ktl::freelist<0, 64, stack_allocator<64>>;
template class ktl::overflow<mallocator>; template class ktl::overflow<Lin, std::ostringstream>; template class ktl::overflow<shared<Lin>, std::ostream>;
template class ktl::reference<Lin>; template class ktl::reference<mallocator>; template class ktl::reference<threaded<cascading<Lin>>>;
template class ktl::shared<Lin>; template class ktl::shared<mallocator>; template class ktl::shared<freelist<0, 64, mallocator>>; template class ktl::shared<cascading<Lin>>; template class ktl::shared<stack_allocator<64>>;
template class ktl::shared<overflow<mallocator>>; template class ktl::shared<threaded<Lin>, std::atomic>; template class ktl::shared<Lin, std::atomic>;
template class ktl::threaded<Lin>; template class ktl::threaded<mallocator>; template class ktl::threaded<freelist<0, 64, mallocator>>; template class ktl::threaded<stack_allocator<64>>;
template class ktl::global<Lin>; template class ktl::global<mallocator>; template class ktl::global<shared<Lin>>; template class ktl::global<freelist<0, 64, mallocator>>; template class ktl::global<cascading<Lin>>;
template class ktl::fallback<stack_allocator<64>, mallocator>; template class ktl::fallback<shared<Lin>, mallocator>; template class ktl::fallback<reference<Lin>, shared<cascading<Lin>>>;
template class ktl::segragator<8, mallocator, mallocator>; template class ktl::segragator<0, shared<Lin>, stack_allocator<64>>;
template class ktl::type_allocator<int, mallocator>; template class ktl::type_allocator<double, shared<Lin>>; template class ktl::type_allocator<std::string, atomic_shared<threaded<Lin>>>;
template class ktl::type_allocator<Pod, fallback<shared<Lin>, mallocator>>; template class ktl::type_allocator<int, stack_allocator<64>>;
template class ktl::type_allocator<int, reference<Lin>>; template class ktl::type_allocator<int, global<Lin>>;

template<typename A> void alloc_calls(A& a, const A& c)
{
    auto p = a.allocate(8);
    a.deallocate(p, 8);
    bool z = a == c && c != a;
    (void)z;
}
template<typename A> void info_calls(A& a, const A& c) { alloc_calls(a, c); typename A::size_type n = c.max_size(); bool o = c.owns(nullptr); (void)n; (void)o; }
template<typename A> void get_calls(A& a, const A& c) { alloc_calls(a, c); auto& x = a.get_allocator(); const auto& y = c.get_allocator(); (void)x; (void)y; }
void allocators(std::ostream& os)
{
    stack<64> block;
    Lin lin, lin2(std::move(lin)); lin2 = Lin(); lin.max_size(); lin.owns(&lin); alloc_calls(lin, lin2);
    stack_allocator<64> st(block), st2(&block), st3(st); st3 = st2; st3 = std::move(st2); alloc_calls(st, st3); st.max_size(); st.owns(nullptr);
    mallocator m, m2(m); m2 = m; alloc_calls(m, m2);
    null_allocator n, n2(n); n2 = n; alloc_calls(n, n2); n.owns(nullptr);
    cascading<Lin> ca, ca2(std::move(ca)); ca2 = std::move(ca); info_calls(ca, ca2);
    freelist<0, 64, mallocator> f, f1(m), f2(std::move(f)); f2 = std::move(f); get_calls(f, f2);
    freelist<0, 64, stack_allocator<64>> f3(block), f4(st); info_calls(f3, f4); get_calls(f3, f4);
    reference<Lin> r(lin), r2(r); r2 = r; info_calls(r, r2); get_calls(r, r2);
    shared<Lin> s, s2(s), s3(std::move(s2)); s2 = s3; s2 = std::move(s3); info_calls(s, s2); get_calls(s, s2);
    shared<stack_allocator<64>> ss(block), ss2(st); info_calls(ss, ss2);
    atomic_shared<threaded<Lin>> at, at2(at); at2 = at; info_calls(at, at2); get_calls(at, at2);
    atomic_shared<threaded<stack_allocator<64>>> ats(block); info_calls(ats, ats);
    threaded<Lin> t; info_calls(t, t); get_calls(t, t);
    threaded<stack_allocator<64>> t2(block), t3(st); info_calls(t2, t3);
    global<Lin> g, g2(g); g2 = g; info_calls(g, g2); get_calls(g, g2); g.set_allocator(Lin());
    overflow<mallocator> o(os), o1(os, m), o2(o), o3(std::move(o)); get_calls(o, o2); std::ostream& q = o.get_stream(); const std::ostream& q2 = static_cast<const overflow<mallocator>&>(o).get_stream(); int i; o.construct(&i, 1); o.destroy(&i);
    overflow<stack_allocator<64>> o4(os, block), o5(os, st); info_calls(o4, o5);
    std::ostringstream oss; overflow<mallocator, std::ostringstream> o6(oss); alloc_calls(o6, o6);
    overflow<shared<Lin>> o7(os, s); info_calls(o7, o7);
    // fallback and segragator: default, one part, two parts, tuples
    fallback<Lin, mallocator> fa; alloc_calls(fa, fa);
    fallback<stack_allocator<64>, mallocator> fb(block), fb1(st), fb2(block, m), fb3(std::make_tuple(&block)), fb4(std::make_tuple(&block), std::tuple<>{}), fb5(fb), fb6(std::tuple<stack<64>&>{ block }); fb5 = fb; alloc_calls(fb, fb5);
    fallback<stack_allocator<64>, stack_allocator<64>> fc(block, block), fc2(std::make_tuple(&block), std::make_tuple(st)); info_calls(fc, fc2);
    fallback<shared<Lin>, freelist<0, 64, mallocator>> fd(s, m), fe(s), ff(std::make_tuple(s), std::make_tuple(m)); alloc_calls(fd, fe); fallback<shared<Lin>, freelist<0, 64, mallocator>> fg(std::move(ff)); fg = std::move(fe);
    segragator<8, Lin, mallocator> sa; alloc_calls(sa, sa);
    segragator<8, stack_allocator<64>, mallocator> sb(block), sb1(st), sb2(block, m), sb3(std::make_tuple(&block)), sb4(std::make_tuple(&block), std::tuple<>{}), sb5(sb), sb6(std::tuple<stack<64>&>{ block }); sb5 = sb; alloc_calls(sb, sb5);
    segragator<8, stack_allocator<64>, stack_allocator<64>> sc(block, block), sc2(std::make_tuple(&block), std::make_tuple(st)); info_calls(sc, sc2);
    segragator<8, freelist<0, 8, mallocator>, freelist<8, 64, mallocator>> sd, se(m, m), sf(std::make_tuple(m), std::make_tuple(m)); alloc_calls(sd, se); segragator<8, freelist<0, 8, mallocator>, freelist<8, 64, mallocator>> sg(std::move(sf)); sg = std::move(se);
    // typed
    type_allocator<int, mallocator> ta, tb(m), tc(tb), td(std::move(tc)); td = ta; td = std::move(tb); type_allocator<char, mallocator> te(ta), tf(std::move(ta)); int* ip = td.allocate(2); td.deallocate(ip, 2); bool z = ta == tb && ta != tb && te == ta && te != ta; get_calls(te, tf);
    type_allocator<int, shared<Lin>> tg, th(s); bool z2 = tg.owns(tg.allocate(1)) && tg.max_size() == 0; type_allocator<int, stack_allocator<64>> ti(block), tj(st), tk(&block);
    type_allocator<int, fallback<shared<Lin>, mallocator>> tl(s), tm(s, m), tn(std::make_tuple(s), std::make_tuple(m));
    using Re = typename std::allocator_traits<type_allocator<int, shared<Lin>>>::template rebind_alloc<double>; static_assert(std::is_same_v<Re, type_allocator<double, shared<Lin>>>); Re re(tg), rf(std::move(tg));
    type_allocator<Str, overflow<mallocator>> to(os); Str* sp = to.allocate(1); to.construct(sp, Str{ "x" }); to.construct(sp); to.destroy(sp); to.deallocate(sp, 1);
    (void)z; (void)z2; (void)q; (void)q2;
}
