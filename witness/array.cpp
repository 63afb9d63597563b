#include "cont.h"
#include "ktl/containers/trivial_array.h"
#include "ktl/containers/trivial_buffer.h"
using namespace ktl;

template<typename V> static void coherent(V& v, size_t n)
{
    const V& c = v;
    kt_check(v.size() == n, "C24: size is the number of elements");
    kt_check(v.empty() == (n == 0), "C24: empty agrees with size");
    kt_check(v.begin() == v.data() && v.end() == v.data() + n && c.begin() == v.data() && c.end() == v.data() + n && c.data() == v.data()
             && v.rbegin().base() == v.end() && v.rend().base() == v.begin() && c.rbegin().base() == v.end() && c.rend().base() == v.begin(),
        "C24: iterators and data describe the elements");
    kt_check(n == 0 || (kt_is_block(v.data()) && kt_room(v.data()) >= n * sizeof(*v.data())), "C21,C22: the elements are backed by a live buffer");
}
template<typename V, typename T> static void element(V& v, size_t i, T x)
{
    const V& c = v;
    kt_check(v[i] == x && c[i] == x && v.at(i) == x && *(v.begin() + i) == x && *(v.rend() - i - 1) == x && *(c.rend() - i - 1) == x, "C24: each element has its value");
}
template<typename T> struct St
{
    using V = trivial_array<T, CA<T>>;
    V v;
    size_t s = 0;
    St() : v(CA<T>(7)) {}
    void fill()
    {
        if (kt_choice(2, "state"))
        {
            s = kt_range(0, TOP, "size");
            v = V(s, CA<T>(7));
            if (s)
                kt_content(v.data(), s * sizeof(T), "old");
        }
    }
    size_t pick(const char* n) { return kt_range(0, s - 1, n); }
    void old(V& w)
    {
        coherent(w, s);
        if (s) { size_t k = pick("k"); element(w, k, ghost<T>("old", k)); }
    }
};
static void done(bool more) { kt_check(kt_live_blocks() == size_t(more), "C21: nothing is leaked"); }

template<typename T> static void resize()
{
    {
        St<T> S; S.fill();
        auto& v = S.v;
        size_t n = kt_range(0, TOP, "n");
        v.resize(n);
        coherent(v, n);
        size_t keep = n < S.s ? n : S.s;
        if (keep)
        {
            size_t k = kt_range(0, keep - 1, "k");
            element(v, k, ghost<T>("old", k));
        }
        // assigning afterwards works on the new size
        if (n)
        {
            size_t k = kt_range(0, n - 1, "k2");
            T x = any<T>("x");
            v[k] = x;
            element(v, k, x);
        }
    }
    done(false);
}
template<typename T> static void assign()
{
    size_t m = kt_range(0, TOP, "m");
    T* src = (T*)kt_block(m * sizeof(T), AL, "source");
    if (m) kt_content(src, m * sizeof(T), "src");
    {
        St<T> S; S.fill();
        auto& v = S.v;
        if (kt_choice(2, "own range"))
        {
            size_t a = kt_range(0, S.s, "from"), b = kt_range(a, S.s, "to");
            v.assign(v.data() + a, v.data() + b);
            coherent(v, b - a);
            if (b > a)
            {
                size_t k = kt_range(0, b - a - 1, "k");
                element(v, k, ghost<T>("old", a + k));
            }
        }
        else
        {
            v.assign(src, src + m);
            coherent(v, m);
            if (m)
            {
                size_t k = kt_range(0, m - 1, "k");
                element(v, k, ghost<T>("src", k));
            }
        }
    }
    done(true);
    kt_release(src);
}
template<typename T> static void copies()
{
    using V = typename St<T>::V;
    {
        St<T> S; S.fill();
        auto& v = S.v;
        CA<T> other(9);
        switch (kt_choice(4, "copy"))
        {
        case 0: { V w(v); S.old(w); kt_check(!S.s || w.data() != v.data(), "C24: a copy has its own elements"); break; }
        case 1: { V w(v, other); S.old(w); kt_check(!S.s || w.data() != v.data(), "C24: a copy has its own elements"); w.resize(3); break; }
        case 2:
        {
            V w(other);
            if (kt_choice(2, "destination in use"))
                w.resize(kt_range(0, TOP, "other size"));
            V& r = (w = v);
            kt_check(&r == &w, "C24: assignment returns the array");
            S.old(w);
            kt_check(!S.s || w.data() != v.data(), "C24: a copy has its own elements");
            w.resize(3);
            break;
        }
        default:
        {
            V& alias = v;
            v = alias;
        }
        }
        S.old(v);
    }
    done(false);
}
template<typename T> static void moves()
{
    using V = typename St<T>::V;
    {
        St<T> S; S.fill();
        auto& v = S.v;
        CA<T> other(9);
        V w(other);
        switch (kt_choice(4, "move"))
        {
        case 0: { V u(std::move(v)); S.old(u); u.resize(3); break; }
        case 1: { V u(std::move(v), other); S.old(u); u.resize(3); break; }
        case 2:
            if (kt_choice(2, "destination in use"))
                w.resize(kt_range(0, TOP, "other size"));
            w = std::move(v);
            S.old(w);
            w.resize(3);
            break;
        default:
        {
            V& alias = v;
            v = std::move(alias);
            v.resize(0);
        }
        }
        coherent(v, 0);
        if (kt_choice(2, "reuse"))
        {
            v.resize(5);
            coherent(v, 5);
        }
    }
    done(false);
}
template<typename T> static void ctors()
{
    using V = trivial_array<T, CA<T>>;
    T x = any<T>("x"), y = any<T>("y"), z = any<T>("z");
    {
        switch (kt_choice(7, "ctor"))
        {
        case 0: { V v; coherent(v, 0); v.resize(2); coherent(v, 2); break; }
        case 1: { V v(CA<T>(3)); coherent(v, 0); v.resize(2); coherent(v, 2); break; }
        case 2: { size_t n = kt_range(0, TOP, "n"); V v(n, CA<T>(3)); coherent(v, n); break; }
        case 3:
        {
            size_t n = kt_concretize(kt_range(0, 3, "n"), 3);
            V v(n, x, CA<T>(3));
            coherent(v, n);
            for (size_t i = 0; i < n; i++)
                element(v, i, x);
            break;
        }
        case 4:
        {
            V v({ x, y, z }, CA<T>(3));
            coherent(v, 3);
            element(v, 0, x); element(v, 1, y); element(v, 2, z);
            break;
        }
        case 5: { V v(std::initializer_list<T>{}, CA<T>(3)); coherent(v, 0); break; }
        default:
        {
            size_t m = kt_range(0, TOP, "m");
            T* src = (T*)kt_block(m * sizeof(T), AL, "source");
            if (m) kt_content(src, m * sizeof(T), "src");
            {
                V v(src, src + m, CA<T>(3));
                coherent(v, m);
                if (m) { size_t k = kt_range(0, m - 1, "k"); element(v, k, ghost<T>("src", k)); }
            }
            kt_release(src);
        }
        }
    }
    done(false);
}
HARNESS(arr_resize_u32, "C21 C22 C24") { resize<uint32_t>(); }
HARNESS(arr_resize_big, "C21 C22 C24") { resize<Big>(); }
HARNESS(arr_assign_u32, "C21 C22 C24") { assign<uint32_t>(); }
HARNESS(arr_assign_u8, "C21 C22 C24") { assign<uint8_t>(); }
HARNESS(arr_assign_big, "C21 C22 C24") { assign<Big>(); }
HARNESS(arr_copies_u32, "C21 C22 C24") { copies<uint32_t>(); }
HARNESS(arr_copies_big, "C21 C22 C24") { copies<Big>(); }
HARNESS(arr_moves_u32, "C21 C22 C24") { moves<uint32_t>(); }
HARNESS(arr_moves_big, "C21 C22 C24") { moves<Big>(); }
HARNESS(arr_ctors_u32, "C21 C22 C24") { ctors<uint32_t>(); }
HARNESS(arr_ctors_u8, "C21 C22 C24") { ctors<uint8_t>(); }

// trivial_buffer
template<typename T, size_t N> struct Bst
{
    using B = trivial_buffer<T, N>;
    static void same(B& b, const char* g)
    {
        const B& c = b;
        kt_check(b.size() == N, "C24: size is Size");
        kt_check(b.begin() == b.data() && b.end() == b.data() + N && c.begin() == b.data() && c.end() == b.data() + N && c.data() == b.data()
            && b.rbegin().base() == b.end() && b.rend().base() == b.begin() && c.rbegin().base() == b.end() && c.rend().base() == b.begin(),
            "C24: iterators and data describe the elements");
        kt_check((reinterpret_cast<uintptr_t>(b.data()) & (alignof(T) - 1)) == 0, "C03: elements are aligned for their type");
        kt_access(b.data(), N * sizeof(T), "C22: the elements lie inside the buffer");
        size_t k = kt_range(0, N - 1, "k");
        T x = ghost<T>(g, k);
        kt_check(b[k] == x && c[k] == x && b.at(k) == x && c.at(k) == x && *(b.begin() + k) == x && *(c.begin() + k) == x
            && *(b.rend() - k - 1) == x && *(c.rend() - k - 1) == x, "C24: each element has its value");
        size_t j = kt_size("index");
        kt_check(&b[j] == b.data() + j % N && &c[j] == b.data() + j % N && &b.at(j) == b.data() + j % N && &c.at(j) == b.data() + j % N,
            "C24: indices wrap modulo Size");
    }
    static void run()
    {
        T* src = (T*)kt_block(N * sizeof(T), AL, "source");
        kt_content(src, N * sizeof(T), "src");
        B b(src, src + N);
        same(b, "src");
        {
            Placed<B> d(b);
            same(*d, "src");
        }
        switch (kt_choice(6, "op"))
        {
        case 0: { B d(b); same(d, "src"); break; }
        case 1: { B d(std::move(b)); same(d, "src"); break; }
        case 2: { B d; B& r = (d = b); kt_check(&r == &d, "C24: assignment returns the buffer"); same(d, "src"); break; }
        case 3: { B d; d = std::move(b); same(d, "src"); break; }
        case 4:
            kt_content(src, N * sizeof(T), "new");
            b.assign(src, src + N);
            same(b, "new");
            break;
        default:
        {
            size_t k = kt_size("k3"), l = kt_size("l");
            T x = any<T>("x");
            T y = b[l];
            b[k] = x;
            kt_check(b[k] == x, "C24: writing an element stores it");
            kt_check(b[l] == (k % N == l % N ? x : y), "C24: writing an element leaves the others");
        }
        }
        kt_release(src);
    }
};
HARNESS(buf_u32, "C03 C22 C24") { Bst<uint32_t, 5>::run(); }
HARNESS(buf_u8, "C03 C22 C24") { Bst<uint8_t, 1>::run(); }
HARNESS(buf_big, "C03 C22 C24") { Bst<Big, 4>::run(); }
HARNESS(buf_values, "C22 C24")
{
    uint32_t x = kt_u32("x"), y = kt_u32("y"), z = kt_u32("z");
    trivial_buffer<uint32_t, 3> a(x);
    kt_check(a[0] == x && a[1] == x && a[2] == x, "C24: filled with the value");
    trivial_buffer<uint32_t, 3> b{ x, y, z };
    kt_check(b[0] == x && b[1] == y && b[2] == z && b[3] == x, "C24: holds the listed values");
    trivial_buffer<uint32_t, 3> c{ x, y };
    kt_check(c[0] == x && c[1] == y, "C24: holds the listed values");
}
