// The containers over real typed allocators: the bytes that reach the underlying allocator balance.
#define SUBP "C11,C21"
#include "sub.h"
#include <initializer_list>
#include "ktl/allocators/type_allocator.h"
#include "ktl/allocators/reference.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/threaded.h"
#include "ktl/containers/trivial_vector.h"
#include "ktl/containers/trivial_array.h"
#include "ktl/containers/binary_heap.h"
using namespace ktl;

constexpr size_t TOP = size_t(1) << 40;
struct Odd { uint32_t a[3]; };          // size 12, alignment 4
inline bool operator==(const Odd& x, const Odd& y) { return x.a[0] == y.a[0] && x.a[1] == y.a[1] && x.a[2] == y.a[2]; }
static Odd odd() { return Odd{ { kt_u32("a"), kt_u32("b"), kt_u32("c") } }; }
typedef Sub<NOFAIL> S;
template<typename T> using Over = type_allocator<T, reference<S>>;

static void released() { kt_check(kt_live_blocks() == 0, "C21: nothing is leaked"); }

HARNESS(comp_vector, "C11 C21 C22")
{
    using V = trivial_vector<Odd, Over<Odd>>;
    S s(size_t(3)), t(size_t(4));
    {
        Over<Odd> a(s), b(t);
        size_t n = kt_range(0, TOP, "n");
        V v(n, a);
        Odd x = odd();
        switch (kt_choice(8, "op"))
        {
        case 0: v.push_back(x); kt_check(v.size() == n + 1 && v[n] == x, "C23: the pushed element is the last"); break;
        case 1: v.resize(kt_range(0, TOP, "to")); break;
        case 2: v.reserve(kt_range(0, TOP, "to")); break;
        case 3: { V w(v); w.push_back(x); break; }
        case 4: { V w(v, b); w.push_back(x); break; }
        case 5: { V w(std::move(v)); w.push_back(x); v.push_back(x); break; }
        case 6: { V w(std::move(v), b); w.push_back(x); v.push_back(x); break; }
        default:
        {
            V w(kt_range(0, TOP, "other"), b);
            if (kt_choice(2, "move"))
                w = std::move(v);
            else
                w = v;
            w.push_back(x);
        }
        }
    }
    released();
}
HARNESS(comp_array, "C11 C21 C22")
{
    using V = trivial_array<Odd, Over<Odd>>;
    S s(size_t(3)), t(size_t(4));
    {
        Over<Odd> a(s), b(t);
        size_t n = kt_range(0, TOP, "n");
        V v(n, a);
        switch (kt_choice(7, "op"))
        {
        case 0: v.resize(kt_range(0, TOP, "to")); break;
        case 1: { V w(v); break; }
        case 2: { V w(v, b); break; }
        case 3: { V w(std::move(v)); v.resize(2); break; }
        case 4: { V w(std::move(v), b); v.resize(2); break; }
        case 5: v.assign(v.begin(), v.begin() + kt_range(0, n, "part")); break;
        default:
        {
            V w(kt_range(0, TOP, "other"), b);
            if (kt_choice(2, "move"))
                w = std::move(v);
            else
                w = v;
        }
        }
    }
    released();
}
struct El
{
    size_t key; uint32_t tag[3];
    explicit El(size_t k) noexcept : key(k), tag{} { kt_obj_new(this, sizeof(El)); }
    El(const El& o) noexcept : key(o.key), tag{} { kt_obj_use(&o, "copy from"); kt_obj_new(this, sizeof(El)); }
    El(El&& o) noexcept : key(o.key), tag{} { kt_obj_use(&o, "move from"); kt_obj_new(this, sizeof(El)); }
    El& operator=(const El& o) noexcept { kt_obj_use(this, "assign to"); kt_obj_use(&o, "copy from"); key = o.key; return *this; }
    El& operator=(El&& o) noexcept { kt_obj_use(this, "assign to"); kt_obj_use(&o, "move from"); key = o.key; return *this; }
    ~El() noexcept { kt_obj_del(this); }
    bool operator<(const El& o) const noexcept { return key < o.key; }
};
// the underlying allocator constructs and destroys: every element goes through it both ways
typedef Sub<NOFAIL | CONS> SC;
HARNESS(comp_heap, "C11 C19 C21 C25")
{
    using A = type_allocator<El, reference<SC>>;
    using H = binary_heap<El, std::less<El>, A>;
    SC s(size_t(3)), t(size_t(4));
    probe.reset();
    {
        A a(s), b(t);
        H h(kt_choice(3, "capacity"), a);
        size_t n = kt_choice(4, "n");
        for (size_t i = 0; i < n; i++)
            h.insert(El(i * 7 % 5));
        switch (kt_choice(8, "op"))
        {
        case 0: if (n) h.pop(); break;
        case 1: h.clear(); break;
        case 2: h.reserve(9); break;
        case 3: { H w(h); w.insert(El(2)); break; }
        case 4: { H w(h, b); w.insert(El(2)); break; }
        case 5: { H w(std::move(h)); w.insert(El(2)); h.insert(El(1)); break; }
        case 6: { H w(std::move(h), b); w.insert(El(2)); h.insert(El(1)); break; }
        default:
        {
            H w(2, b);
            w.insert(El(8));
            if (kt_choice(2, "move"))
                w = std::move(h);
            else
                w = h;
            w.insert(El(2));
        }
        }
    }
    kt_check(kt_obj_count() == 0, "C25: every element is destroyed exactly once");
    kt_check(probe.cons == probe.dest, "C19,C25: the allocator destroys exactly what it constructed");
    released();
}
// the container shares its allocator: it stays alive as long as the container needs it
HARNESS(comp_shared, "C12 C21")
{
    kt_malloc_never_fails();
    using A = type_allocator<Odd, shared<S>>;
    using V = trivial_vector<Odd, A>;
    size_t before = kt_live_mallocs();
    {
        V w(A(size_t(9)));
        {
            V v(A(size_t(3)));
            v.resize(kt_range(0, TOP, "n"));
            switch (kt_choice(4, "op"))
            {
            case 0: w = v; break;
            case 1: w = std::move(v); break;
            case 2: { V u(v); u.resize(kt_range(0, TOP, "m")); w = std::move(u); break; }
            default: { V u(std::move(v)); w = u; }
            }
        }
        w.resize(kt_range(0, TOP, "k"));
    }
    released();
    kt_check(kt_live_mallocs() == before, "C12: the control blocks are freed with their last owner");
}
