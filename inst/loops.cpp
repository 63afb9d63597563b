// operations whose work must not depend on how much there is: which of them contain no loop at all
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/stack_allocator.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/cascading.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/segragator.h"
#include "ktl/allocators/type_allocator.h"
#include "ktl/containers/trivial_vector.h"
#include "ktl/containers/trivial_array.h"
#include "ktl/containers/packed_ptr.h"
using namespace ktl;

void* ext_allocate(size_t) noexcept;
void ext_deallocate(void*, size_t) noexcept;
bool ext_owns(const void*) noexcept;
struct Ext        // the allocator below: unknown
{
    void* allocate(size_t n) noexcept { return ext_allocate(n); }
    void deallocate(void* p, size_t n) noexcept { ext_deallocate(p, n); }
    bool owns(void* p) const noexcept { return ext_owns(p); }
    bool operator==(const Ext&) const noexcept { return true; }
    bool operator!=(const Ext&) const noexcept { return false; }
};
typedef linear_allocator<4096> Lin;
typedef stack_allocator<4096> Stk;
typedef freelist<16, 64, Ext> Fre;
typedef cascading<Ext> Cas;
typedef fallback<Ext, Lin> Fal;
typedef segragator<64, Ext, Lin> Seg;
typedef trivial_vector<int, type_allocator<int, Lin>> Vec;
#define OPS(N, T) \
    void* k_##N##_allocate(T& a, size_t n) { return a.allocate(n); } \
    void k_##N##_deallocate(T& a, void* p, size_t n) { a.deallocate(p, n); }
#define OWNS(N, T) bool k_##N##_owns(T& a, void* p) { return a.owns(p); }
OPS(linear, Lin) OWNS(linear, Lin)
OPS(stack, Stk) OWNS(stack, Stk)
OPS(freelist, Fre)
void* k_cascading_allocate(Cas& a, size_t n) { return a.allocate(n); }
OPS(fallback, Fal) OWNS(fallback, Fal)
OPS(segragator, Seg) OWNS(segragator, Seg)
void k_shared_copy(void* where, const shared<Ext>& a) { new (where) shared<Ext>(a); }
void k_shared_drop(shared<Ext>& a) { a.~shared<Ext>(); }
void k_atomic_shared_copy(void* where, const atomic_shared<Ext>& a) { new (where) atomic_shared<Ext>(a); }
void k_atomic_shared_drop(atomic_shared<Ext>& a) { a.~atomic_shared<Ext>(); }
int& k_vector_index(Vec& v, size_t i) { return v[i]; }
void k_vector_pop_back(Vec& v) { v.pop_back(); }
void k_vector_push_back(Vec& v, int x) { v.push_back(x); }
void k_vector_clear(Vec& v) { v.clear(); }
int* k_vector_end(Vec& v) { return v.end(); }
