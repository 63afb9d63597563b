#include "cont.h"
#include "ktl/containers/trivial_vector.h"
using namespace ktl;

// every accessor describes the same elements
template<typename V> static void coherent(V& v, size_t n)
{
    const V& c = v;
    kt_check(v.size() == n, "C23: size is the number of elements");
    kt_check(v.size() <= v.capacity(), "C22,C23: size is at most capacity");
    kt_check(v.empty() == (n == 0), "C23: empty agrees with size");
    kt_check(v.begin() == v.data() && v.end() == v.data() + n && c.begin() == v.data() && c.end() == v.data() + n && c.data() == v.data()
             && v.rbegin().base() == v.end() && v.rend().base() == v.begin() && c.rbegin().base() == v.end() && c.rend().base() == v.begin(),
        "C23: iterators and data describe the elements");
    kt_check(v.capacity() == 0 || kt_room(v.data()) >= v.capacity() * sizeof(*v.data()), "C21,C22: the capacity is backed by storage");
    kt_check((v.capacity() == 0) || kt_is_block(v.data()), "C21,C22: data is the start of a live buffer");
}
template<typename V, typename T> static void element(V& v, size_t i, T x)
{
    const V& c = v;
    kt_check(v[i] == x && c[i] == x && v.at(i) == x && *(v.begin() + i) == x && *(v.rend() - i - 1) == x && *(c.rend() - i - 1) == x, "C23: each element has its value");
}

// an arbitrary state: s elements "old", capacity c
template<typename T> struct St
{
    using V = trivial_vector<T, CA<T>>;
    V v;
    size_t s = 0;
    St() : v(CA<T>(7)) {}
    void fill()
    {
        switch (kt_choice(3, "state"))
        {
        case 0: break;                                 // never used
        case 1: { size_t c = kt_range(0, TOP, "capacity"); v = V(c, CA<T>(7)); v.clear(); break; }
        default:
        {
            size_t c = kt_range(1, TOP, "capacity");
            v = V(c, CA<T>(7));
            s = kt_range(1, c, "size");
            v.resize(s);
            kt_content(v.data(), s * sizeof(T), "old");
        }
        }
        kt_check(v.size() == s, "C23: resize sets the size");
    }
    size_t pick(const char* n) { size_t i = kt_range(0, s - 1, n); return i; }
};
static void done(bool more) { kt_check(kt_live_blocks() == size_t(more), "C21: nothing is leaked"); }

template<typename T> static void push_back()
{
    {
        St<T> S; S.fill();
        auto& v = S.v;
        T x = any<T>("x");
        const T cx = x;
        typename St<T>::V::iterator it;
        if (kt_choice(2, "own element") && S.s)
        {
            size_t i = S.pick("i");
            x = ghost<T>("old", i);
            switch (kt_choice(3, "push"))
            {
            case 0: it = v.push_back(v[i]); break;
            case 1: it = v.push_back(std::move(v[i])); break;
            default: it = v.emplace_back(v[i]); break;
            }
        }
        else switch (kt_choice(3, "push"))
        {
        case 0: it = v.push_back(cx); break;
        case 1: { T y = x; it = v.push_back(std::move(y)); break; }
        default: it = v.emplace_back(x); break;
        }
        kt_check(it == v.begin() + S.s, "C23: the iterator refers to the new element");
        coherent(v, S.s + 1);
        element(v, S.s, x);
        if (S.s)
        {
            size_t k = S.pick("k");
            element(v, k, ghost<T>("old", k));
        }
    }
    done(false);
}
template<typename T> static void push_range()
{
    size_t m = kt_range(0, TOP, "m");
    T* src = (T*)kt_block(m * sizeof(T), AL, "source");
    if (m) kt_content(src, m * sizeof(T), "src");
    {
        St<T> S; S.fill();
        auto& v = S.v;
        if (kt_choice(2, "own range"))
        {
            size_t a = kt_range(0, S.s, "from"), b = kt_range(a, S.s, "to");
            auto it = v.push_back(v.data() + a, v.data() + b);
            kt_check(it == v.begin() + S.s, "C23: the iterator refers to the first new element");
            coherent(v, S.s + (b - a));
            if (b > a)
            {
                size_t k = kt_range(0, b - a - 1, "k");
                element(v, S.s + k, ghost<T>("old", a + k));
            }
        }
        else
        {
            auto it = v.push_back(src, src + m);
            kt_check(it == v.begin() + S.s, "C23: the iterator refers to the first new element");
            coherent(v, S.s + m);
            if (m)
            {
                size_t k = kt_range(0, m - 1, "k");
                element(v, S.s + k, ghost<T>("src", k));
            }
        }
        if (S.s)
        {
            size_t k = S.pick("k");
            element(v, k, ghost<T>("old", k));
        }
    }
    done(true);
    kt_release(src);
}
template<typename T> static void emplace()
{
    {
        St<T> S; S.fill();
        auto& v = S.v;
        T x = any<T>("x");
        size_t at = kt_range(0, S.s, "at");
        typename St<T>::V::iterator it;
        if (kt_choice(2, "own element") && S.s)
        {
            size_t i = S.pick("i");
            x = ghost<T>("old", i);
            it = v.emplace(v.begin() + at, v[i]);
        }
        else
            it = v.emplace(v.begin() + at, x);
        kt_check(it == v.begin() + at, "C23: the iterator refers to the new element");
        coherent(v, S.s + 1);
        size_t k = kt_range(0, S.s, "k");
        if (k < at)
            element(v, k, ghost<T>("old", k));
        else if (k == at)
            element(v, k, x);
        else
            element(v, k, ghost<T>("old", k - 1));
    }
    done(false);
}
template<typename T> static void erase()
{
    {
        St<T> S; S.fill();
        auto& v = S.v;
        size_t cap = v.capacity();
        if (S.s)
        {
            size_t a = kt_range(0, S.s, "from"), b;
            typename St<T>::V::iterator it;
            if (kt_choice(2, "range"))
            {
                b = kt_range(a, S.s, "to");
                it = v.erase(v.begin() + a, v.begin() + b);
            }
            else
            {
                kt_assume(a < S.s);
                b = a + 1;
                it = v.erase(v.begin() + a);
            }
            kt_check(it == v.begin() + a, "C23: the iterator refers to the element after the erased ones");
            size_t n = S.s - (b - a);
            coherent(v, n);
            kt_check(v.capacity() == cap, "C23: erasing keeps the capacity");
            if (n)
            {
                size_t k = kt_range(0, n - 1, "k");
                element(v, k, ghost<T>("old", k < a ? k : k + (b - a)));
            }
        }
    }
    done(false);
}
template<typename T> static void shrink()      // pop_back, clear, reserve, resize
{
    {
        St<T> S; S.fill();
        auto& v = S.v;
        size_t n = S.s, cap = v.capacity();
        switch (kt_choice(4, "op"))
        {
        case 0:
            if (S.s)
            {
                T x = v.pop_back();
                kt_check(x == ghost<T>("old", S.s - 1), "C23: pop_back returns the last element");
                n--;
            }
            break;
        case 1: v.clear(); n = 0; break;
        case 2:
        {
            size_t m = kt_range(0, TOP, "reserve");
            v.reserve(m);
            kt_check(v.capacity() >= m && v.capacity() >= cap, "C23: reserve provides the capacity");
            break;
        }
        default:
        {
            size_t m = kt_range(0, TOP, "resize");
            v.resize(m);
            n = m;
        }
        }
        coherent(v, n);
        size_t keep = n < S.s ? n : S.s;
        if (keep)
        {
            size_t k = kt_range(0, keep - 1, "k");
            element(v, k, ghost<T>("old", k));
        }
        // and it goes on working
        T y = any<T>("y");
        v.push_back(y);
        coherent(v, n + 1);
        element(v, n, y);
    }
    done(false);
}
template<typename T> static void copies()
{
    using V = typename St<T>::V;
    {
        St<T> S; S.fill();
        auto& v = S.v;
        CA<T> other(9);
        switch (kt_choice(4, "copy"))
        {
        case 0:
        {
            V w(v);
            coherent(w, S.s);
            if (S.s) { size_t k = S.pick("k"); element(w, k, ghost<T>("old", k)); kt_check(w.data() != v.data(), "C23: a copy has its own elements"); }
            break;
        }
        case 1:
        {
            V w(v, other);
            coherent(w, S.s);
            if (S.s) { size_t k = S.pick("k"); element(w, k, ghost<T>("old", k)); kt_check(w.data() != v.data(), "C23: a copy has its own elements"); }
            w.push_back(any<T>("y"));
            break;
        }
        case 2:
        {
            V w(other);
            if (kt_choice(2, "destination in use"))
                w.resize(kt_range(0, TOP, "other size"));
            V& r = (w = v);
            kt_check(&r == &w, "C23: assignment returns the vector");
            coherent(w, S.s);
            if (S.s) { size_t k = S.pick("k"); element(w, k, ghost<T>("old", k)); kt_check(w.data() != v.data(), "C23: a copy has its own elements"); }
            w.push_back(any<T>("y"));
            break;
        }
        default:
        {
            V& alias = v;
            v = alias;
        }
        }
        coherent(v, S.s);
        if (S.s) { size_t k = S.pick("k"); element(v, k, ghost<T>("old", k)); }
    }
    done(false);
}
template<typename T> static void moves()
{
    using V = typename St<T>::V;
    {
        St<T> S; S.fill();
        auto& v = S.v;
        CA<T> other(9);
        V w(other);
        switch (kt_choice(4, "move"))
        {
        case 0:
        {
            V u(std::move(v));
            coherent(u, S.s);
            if (S.s) { size_t k = S.pick("k"); element(u, k, ghost<T>("old", k)); }
            u.push_back(any<T>("y"));
            break;
        }
        case 1:
        {
            V u(std::move(v), other);
            coherent(u, S.s);
            if (S.s) { size_t k = S.pick("k"); element(u, k, ghost<T>("old", k)); }
            u.push_back(any<T>("y"));
            break;
        }
        case 2:
            if (kt_choice(2, "destination in use"))
                w.resize(kt_range(0, TOP, "other size"));
            w = std::move(v);
            coherent(w, S.s);
            if (S.s) { size_t k = S.pick("k"); element(w, k, ghost<T>("old", k)); }
            w.push_back(any<T>("y"));
            break;
        default:
        {
            V& alias = v;
            v = std::move(alias);
            kt_check(v.size() <= v.capacity(), "C22: after self-move the vector is in a valid state");
            v.clear();
        }
        }
        coherent(v, 0);
        // a moved-from vector can be used again
        if (kt_choice(2, "reuse"))
        {
            T y = any<T>("z");
            v.push_back(y);
            coherent(v, 1);
            element(v, 0, y);
        }
    }
    done(false);
}
template<typename T> static void ctors()
{
    using V = trivial_vector<T, CA<T>>;
    T x = any<T>("x"), y = any<T>("y"), z = any<T>("z");
    {
        switch (kt_choice(7, "ctor"))
        {
        case 0: { V v; coherent(v, 0); kt_check(v.capacity() == 0, "C23: an empty vector has no capacity"); v.push_back(x); coherent(v, 1); break; }
        case 1: { V v(CA<T>(3)); coherent(v, 0); v.push_back(x); coherent(v, 1); element(v, 0, x); break; }
        case 2: { size_t n = kt_range(0, TOP, "n"); V v(n, CA<T>(3)); coherent(v, n); break; }
        case 3:
        {
            size_t n = kt_concretize(kt_range(0, 3, "n"), 3);
            V v(n, x, CA<T>(3));
            coherent(v, n);
            for (size_t i = 0; i < n; i++)
                element(v, i, x);
            break;
        }
        case 4:
        {
            V v({ x, y, z }, CA<T>(3));
            coherent(v, 3);
            element(v, 0, x); element(v, 1, y); element(v, 2, z);
            break;
        }
        case 5: { V v(std::initializer_list<T>{}, CA<T>(3)); coherent(v, 0); break; }
        default:
        {
            size_t m = kt_range(0, TOP, "m");
            T* src = (T*)kt_block(m * sizeof(T), AL, "source");
            if (m) kt_content(src, m * sizeof(T), "src");
            {
                V v(src, src + m, CA<T>(3));
                coherent(v, m);
                if (m) { size_t k = kt_range(0, m - 1, "k"); element(v, k, ghost<T>("src", k)); }
            }
            kt_release(src);
        }
        }
    }
    done(false);
}

HARNESS(vec_push_u32, "C21 C22 C23") { push_back<uint32_t>(); }
HARNESS(vec_push_big, "C21 C22 C23") { push_back<Big>(); }
HARNESS(vec_push_u8, "C21 C22 C23") { push_back<uint8_t>(); }
HARNESS(vec_range_u32, "C21 C22 C23") { push_range<uint32_t>(); }
HARNESS(vec_range_big, "C21 C22 C23") { push_range<Big>(); }
HARNESS(vec_emplace_u32, "C21 C22 C23") { emplace<uint32_t>(); }
HARNESS(vec_emplace_big, "C21 C22 C23") { emplace<Big>(); }
HARNESS(vec_erase_u32, "C21 C22 C23") { erase<uint32_t>(); }
HARNESS(vec_erase_big, "C21 C22 C23") { erase<Big>(); }
HARNESS(vec_shrink_u32, "C21 C22 C23") { shrink<uint32_t>(); }
HARNESS(vec_shrink_u8, "C21 C22 C23") { shrink<uint8_t>(); }
HARNESS(vec_copies_u32, "C21 C22 C23") { copies<uint32_t>(); }
HARNESS(vec_copies_big, "C21 C22 C23") { copies<Big>(); }
HARNESS(vec_moves_u32, "C21 C22 C23") { moves<uint32_t>(); }
HARNESS(vec_moves_big, "C21 C22 C23") { moves<Big>(); }
HARNESS(vec_ctors_u32, "C21 C22 C23") { ctors<uint32_t>(); }
HARNESS(vec_ctors_u8, "C21 C22 C23") { ctors<uint8_t>(); }
