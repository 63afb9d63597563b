// Every documented alias, named through the forward headers alone and then used with the definitions; with STL containers; the examples of the documentation.
#include "ktl/ktl_alloc_fwd.h"
#include "ktl/ktl_container_fwd.h"
#include <iosfwd>
namespace k = ktl;
// incomplete is enough to name them
k::type_mallocator<int>* a1;
k::type_linear_allocator<int, 64>* a2; k::type_reference_linear_allocator<int, 64>* a3; k::type_shared_linear_allocator<int, 64>* a4;
k::type_stack_allocator<int, 64>* a5; k::type_shared_stack_allocator<int, 64>* a6;
k::type_cascading_allocator<int, k::linear_allocator<64>>* a7; k::type_shared_cascading_allocator<int, k::linear_allocator<64>>* a8;
k::type_freelist_allocator<int, 0, 64, k::mallocator>* a9; k::type_shared_freelist_allocator<int, 0, 64, k::mallocator>* a10;
k::type_overflow_allocator<int, k::mallocator>* a11; k::type_shared_overflow_allocator<int, k::mallocator>* a12; k::type_overflow_allocator<int, k::mallocator, std::ostringstream>* a13;
k::type_fallback_allocator<int, k::linear_allocator<64>, k::mallocator>* a14; k::type_shared_fallback_allocator<int, k::linear_allocator<64>, k::mallocator>* a15;
k::type_segragator_allocator<int, 8, k::linear_allocator<64>, k::mallocator>* a16; k::type_reference_segragator_allocator<int, 8, k::linear_allocator<64>, k::mallocator>* a17; k::type_shared_segragator_allocator<int, 8, k::linear_allocator<64>, k::mallocator>* a18;
k::type_shared<int, k::mallocator>* a19; k::type_atomic_shared<int, k::mallocator>* a20; k::type_shared_threaded<int, k::mallocator>* a21; k::atomic_shared<k::threaded<k::mallocator>>* a22;
k::segragator_builder_min<k::linear_allocator<64>, k::threshold<8>, k::mallocator>* a23; k::segragator_builder_max<k::linear_allocator<64>, k::threshold<8>, k::mallocator, k::threshold<64>, k::null_allocator>* a24;
k::fallback_builder_min<k::linear_allocator<64>, k::linear_allocator<64>, k::mallocator>* a25; k::fallback_builder_max<k::linear_allocator<64>, k::mallocator>* a26;
k::stack<64>* a27; k::notomic<int>* a28; k::global<k::mallocator>* a29; k::reference<k::mallocator>* a30;
k::binary_min_heap<int>* c1; k::binary_max_heap<int>* c2; k::binary_min_heap<int, k::type_mallocator<int>>* c3; k::binary_heap<int, std::less<int>>* c4;
k::trivial_array<int>* c5; k::trivial_array<int, k::type_mallocator<int>>* c6; k::trivial_vector<int>* c7; k::trivial_vector<int, k::type_mallocator<int>>* c8;

#include "ktl/ktl.h"
#include <deque>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
using namespace ktl;

template<typename A> void stl(A a)
{
    using T = typename A::value_type;
    std::vector<T, A> v(a), w(v), x(std::move(w)); v.push_back(T()); v = x; v = std::move(x); v.swap(x); v.insert(v.begin(), T()); bool z = v == x;
    std::list<T, A> l(a), m(l); l.push_back(T()); l = m; l = std::move(m);
    std::deque<T, A> d(a); d.push_front(T());
    std::set<T, std::less<T>, A> s(a); s.insert(T()); s.erase(T());
    using P = typename std::allocator_traits<A>::template rebind_alloc<std::pair<const T, T>>;
    std::map<T, T, std::less<T>, P> mp{ P(a) }; mp[T()] = T();
    std::unordered_map<T, T, std::hash<T>, std::equal_to<T>, P> um(8, std::hash<T>(), std::equal_to<T>(), P(a)); um[T()] = T();
    using Ch = typename std::allocator_traits<A>::template rebind_alloc<char>;
    std::basic_string<char, std::char_traits<char>, Ch> str("abc", Ch(a)); str += "def";
    auto sp = std::allocate_shared<T>(a);
    (void)z; (void)sp;
}
template<typename V> void use() { V v; v.push_back(1); V w(v); w = v; w.push_back(2); V x(std::move(w)); }
template<typename A> void raw(A& a) { auto p = a.allocate(1); a.deallocate(p, 1); (void)(a == a); (void)(a != a); }
void aliases(std::ostream& os)
{
    stack<64> block;
    linear_allocator<1024> lin; segragator<8, linear_allocator<1024>, mallocator> seg;
    type_mallocator<int> b1; raw(b1); stl(b1);
    type_linear_allocator<int, 64> b2; raw(b2); type_reference_linear_allocator<int, 1024> b3(lin); raw(b3); stl(b3); type_shared_linear_allocator<int, 64> b4; raw(b4); stl(b4);
    type_stack_allocator<int, 64> b5(block); raw(b5); type_shared_stack_allocator<int, 64> b6(block); raw(b6); stl(b6);
    type_cascading_allocator<int, linear_allocator<64>> b7; raw(b7); type_shared_cascading_allocator<int, linear_allocator<64>> b8; raw(b8); stl(b8);
    type_cascading_allocator<int, threaded<linear_allocator<64>>> b7b; raw(b7b); type_shared_cascading_allocator<int, threaded<linear_allocator<64>>> b8b; raw(b8b);
    type_freelist_allocator<int, 0, 64, mallocator> b9; raw(b9); type_shared_freelist_allocator<int, 0, 64, mallocator> b10; raw(b10); std::vector<int, type_shared_freelist_allocator<int, 0, 64, mallocator>> v10(b10); v10.push_back(1);
    type_overflow_allocator<int, mallocator> b11(os); raw(b11); type_shared_overflow_allocator<int, mallocator> b12(os); raw(b12); std::vector<int, type_shared_overflow_allocator<int, mallocator>> v12(b12); v12.push_back(1); std::list<std::string, type_shared_overflow_allocator<std::string, mallocator>> l12{ type_shared_overflow_allocator<std::string, mallocator>(b12) }; l12.push_back("x");
    std::ostringstream oss; type_overflow_allocator<int, mallocator, std::ostringstream> b13(oss); raw(b13);
    type_fallback_allocator<int, linear_allocator<64>, mallocator> b14; raw(b14); type_shared_fallback_allocator<int, linear_allocator<64>, mallocator> b15; raw(b15); stl(b15);
    type_segragator_allocator<int, 8, linear_allocator<64>, mallocator> b16; raw(b16); type_reference_segragator_allocator<int, 8, linear_allocator<1024>, mallocator> b17(seg); raw(b17); stl(b17); type_shared_segragator_allocator<int, 8, linear_allocator<64>, mallocator> b18; raw(b18); stl(b18);
    type_shared<int, mallocator> b19; raw(b19); type_atomic_shared<int, mallocator> b20; raw(b20); type_shared_threaded<int, mallocator> b21; raw(b21); stl(b21); atomic_shared<threaded<mallocator>> b22; raw(b22);
    type_allocator<int, global<linear_allocator<64>>> b29; raw(b29); std::vector<int, type_allocator<int, global<linear_allocator<64>>>> v29; v29.push_back(1);
    segragator_builder_min<linear_allocator<64>, threshold<8>, mallocator> b23; raw(b23); segragator_builder_max<linear_allocator<64>, threshold<8>, mallocator, threshold<64>, null_allocator> b24; raw(b24);
    fallback_builder_min<linear_allocator<64>, linear_allocator<64>, mallocator> b25; raw(b25); fallback_builder_max<linear_allocator<64>, mallocator> b26; raw(b26);
    segragator_builder_min<mallocator> b26b; raw(b26b); fallback_builder_max<mallocator> b26c; raw(b26c);
    use<trivial_vector<int>>(); use<trivial_vector<int, type_mallocator<int>>>(); use<trivial_vector<int, type_shared<int, mallocator>>>(); use<trivial_vector<int, type_shared_threaded<int, mallocator>>>();
    trivial_array<int, type_shared_threaded<int, mallocator>> ta(3); binary_min_heap<int, type_shared_threaded<int, mallocator>> bh; bh.insert(1); binary_max_heap<int, type_shared_cascading_allocator<int, linear_allocator<64>>> bm; bm.insert(1); bm.pop();
    // the documentation's compositions
    type_atomic_shared<int, threaded<linear_allocator<1024>>> d1; stl(d1);
    std::vector<int, type_allocator<int, shared<linear_allocator<1024>>>> d2; d2.push_back(1);
}

void example_fallback() { type_fallback_allocator<double, linear_allocator<8192>, mallocator> alloc; double* p1 = alloc.allocate(3); alloc.deallocate(p1, 3); double* p2 = alloc.allocate(2048); alloc.deallocate(p2, 2048); }
void example_overflow() { type_overflow_allocator<double, mallocator> alloc(std::cerr); double* p = alloc.allocate(1); *(p - 1) = 32; alloc.deallocate(p, 1); }
void example_segragator() { type_segragator_allocator<double, 8192, cascading<linear_allocator<8192>>, mallocator> alloc; double* p1 = alloc.allocate(1024); alloc.deallocate(p1, 1024); }
void example_freelist() { type_segragator_allocator<double, 16, freelist<0, 16, mallocator>, mallocator> alloc; double* p1 = alloc.allocate(1); alloc.deallocate(p1, 1); }
template<size_t Max> using FList = freelist<0, Max, mallocator>;
void example_builder()
{
    using Alloc = segragator_builder_max<FList<8>, threshold<8>, FList<128>, threshold<128>, FList<512>, threshold<512>, FList<1024>, threshold<1024>, cascading<linear_allocator<4096>>, threshold<4096>, mallocator>;
    Alloc alloc;
    void* p1 = alloc.allocate(256); alloc.deallocate(p1, 256);
    using Min = segragator_builder_min<FList<8>, threshold<8>, FList<128>, threshold<128>, FList<512>, threshold<512>, FList<1024>, threshold<1024>, cascading<linear_allocator<4096>>, threshold<4096>, mallocator>;
    Min alloc2;
    p1 = alloc2.allocate(256); alloc2.deallocate(p1, 256);
}
