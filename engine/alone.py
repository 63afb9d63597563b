"""Use of what one header offers with nothing else included: (header, code). Used by engine/structural.py."""
RAW = '''
struct Raw
{
    void* allocate(decltype(sizeof(0)) n) { return n ? this : nullptr; }
    void deallocate(void*, decltype(sizeof(0))) {}
    bool owns(void* p) const { return p == this; }
    decltype(sizeof(0)) max_size() const { return 1; }
    bool operator==(const Raw&) const { return true; }
    bool operator!=(const Raw&) const { return false; }
};
struct Out { Out& operator<<(const char*) { return *this; } Out& operator<<(const void*) { return *this; } Out& operator<<(long long) { return *this; } Out& operator<<(unsigned long long) { return *this; } Out& operator<<(long) { return *this; } Out& operator<<(unsigned long) { return *this; } Out& operator<<(int) { return *this; } Out& operator<<(unsigned) { return *this; } };
template<typename A> void use(A& a, const A& c)
{
    auto p = a.allocate(8);
    a.deallocate(p, 8);
    bool b = a == c || a != c;
    b = c.owns(p);
    b = c.max_size() == 0;
    (void)b;
}
template<typename A> void build(A& a, int* p) { a.construct(p, 1); a.destroy(p); }
'''
T = 'ktl::type_allocator<int, Raw>'
CONT = {
    'trivial_vector': 'void f({0}& a, {0}& b) {{ int x = 1; a = b; a = static_cast<{0}&&>(b); {0} c(a), d(static_cast<{0}&&>(a)), e(3), g(&x, &x + 1); c.push_back(x); c.push_back(&x, &x + 1); c.emplace_back(x); c.emplace(c.begin(), x); c.erase(c.begin()); c.erase(c.begin(), c.end()); c.reserve(5); c.resize(6); c.pop_back(); c.clear(); c.at(0) = *c.data(); for (int& y : c) y = 2; auto r = c.rbegin(); bool z = r == c.rend() || c.empty(); (void)z; }}',
    'trivial_array': 'void f({0}& a, {0}& b) {{ int x = 1; a = b; a = static_cast<{0}&&>(b); {0} c(a), d(static_cast<{0}&&>(a)), e(3), g(&x, &x + 1); c.assign(&x, &x + 1); c.resize(6); c.at(0) = *c.data(); for (int& y : c) y = 2; auto r = c.rbegin(); bool z = r == c.rend() || c.empty(); (void)z; }}',
    'binary_heap': 'struct Less {{ bool operator()(int a, int b) const {{ return a < b; }} }};\nvoid f({0}& a, {0}& b) {{ int x = 1; a = b; a = static_cast<{0}&&>(b); {0} c(a), d(static_cast<{0}&&>(a)); c.insert(x); c.insert(2); x = c.peek(); x = c.pop(); c.find(x); c.reserve(4); c.clear(); x = *c.data(); auto r = c.rbegin(); bool z = r == c.rend() || c.empty(); (void)z; }}',
}


def cases():
    out = []

    def add(h, code):
        out.append((h, RAW + code + '\n'))
    A = 'allocators/'
    for h, c in [('linear_allocator', 'ktl::linear_allocator<64>'), ('stack_allocator', 'ktl::stack_allocator<64>')]:
        add(A + h + '.h', f'template class {c};\nvoid f({c}& a) {{ use(a, a); }}')
    add(A + 'mallocator.h', 'void f(ktl::mallocator& a) { a.deallocate(a.allocate(1), 1); bool b = a == a; (void)b; }')
    add(A + 'null_allocator.h', 'void f(ktl::null_allocator& a) { a.deallocate(a.allocate(1), 1); bool b = a == a || a.owns(nullptr); (void)b; }')
    for h, c in [('cascading', 'cascading<Raw>'), ('freelist', 'freelist<0, 16, Raw>'), ('reference', 'reference<Raw>'), ('global', 'global<Raw>'), ('shared', 'shared<Raw>'), ('threaded', 'threaded<Raw>'),
                 ('fallback', 'fallback<Raw, Raw>'), ('segragator', 'segragator<8, Raw, Raw>')]:
        add(A + h + '.h', f'template class ktl::{c};\nvoid f(ktl::{c}& a) {{ use(a, a); }}')
        d = c.replace('Raw', 'Cons')
        add(A + h + '.h', f'struct Cons : Raw {{ template<typename T> void construct(T*, int) {{}} template<typename T> void destroy(T*) {{}} }};\nvoid f(ktl::{d}& a, int* p) {{ build(a, p); }}')
    for h, c in [('fallback', 'fallback<Raw, Raw>'), ('segragator', 'segragator<8, Raw, Raw>')]:
        add(A + h + '.h', f'void f(Raw& r) {{ ktl::{c} a(r), b(r, r); use(a, b); }}')
    add(A + 'shared.h', 'template class ktl::shared<Raw, std::atomic>;\nvoid f(ktl::atomic_shared<Raw>& a) { use(a, a); }')
    add(A + 'shared.h', 'void f() { ktl::shared<Raw> a, b(a), c(static_cast<ktl::shared<Raw>&&>(b)); a = c; a = static_cast<ktl::shared<Raw>&&>(c); }')
    add(A + 'cascading.h', 'void f() { ktl::cascading<Raw> a, b(static_cast<ktl::cascading<Raw>&&>(a)); a = static_cast<ktl::cascading<Raw>&&>(b); }')
    add(A + 'freelist.h', 'void f() { ktl::freelist<0, 16, Raw> a, b(static_cast<ktl::freelist<0, 16, Raw>&&>(a)); a = static_cast<ktl::freelist<0, 16, Raw>&&>(b); }')
    add(A + 'overflow.h', 'template class ktl::overflow<Raw, Out>;\nvoid f(Out& o, int* p) { ktl::overflow<Raw, Out> a(o), b(a); use(a, b); build(a, p); }')
    add(A + 'overflow.h', 'template class ktl::overflow<Raw>;')
    add(A + 'type_allocator.h', f'template class {T};\nvoid f({T}& a) {{ use(a, a); ktl::type_allocator<char, Raw> b(a); bool z = b == a; (void)z; }}')
    C = 'containers/'
    for h in ('trivial_vector', 'trivial_array'):
        for al in ('std::allocator<int>',):
            c = f'ktl::{h}<int, {al}>'
            add(C + h + '.h', f'template class {c};\n' + CONT[h].format(c))
            add(C + h + '.h', f'typedef ktl::{h}<int> D;\n' + CONT[h].format('D'))
    add(C + 'binary_heap.h', CONT['binary_heap'].format('ktl::binary_heap<int, Less, std::allocator<int>>'))
    add(C + 'binary_heap.h', CONT['binary_heap'].format('ktl::binary_min_heap<int>'))
    add(C + 'binary_heap.h', CONT['binary_heap'].format('ktl::binary_max_heap<int>'))
    add(C + 'trivial_buffer.h', 'template class ktl::trivial_buffer<int, 4>;\ntypedef ktl::trivial_buffer<int, 4> B;\nvoid f(B& a, const B& c) { int x = 1; B b(a), d(&x, &x + 1), e(x); b = a; a[5] = c.at(6); for (int& y : a) y = 2; auto r = c.rbegin(); bool z = r == c.rend(); (void)z; a.assign(&x, &x + 1); }')
    add(C + 'packed_ptr.h', 'template class ktl::packed_ptr<int*, 2>;\nvoid f(int* q) { ktl::packed_ptr<int*, 2> p, r(q, 1u); p.set_ptr(q); p.set_int(1u); bool z = p.get_ptr() == q && p.get_int<unsigned>() && p; (void)z; }')
    # declarations only need the forward header
    for h, d in [('linear_allocator', 'ktl::linear_allocator<64>* p;'), ('stack_allocator', 'ktl::stack_allocator<64>* p; ktl::stack<64>* q;'), ('cascading', 'ktl::cascading<int>* p;'), ('freelist', 'ktl::freelist<0, 16, int>* p;'),
                 ('reference', 'ktl::reference<int>* p;'), ('global', 'ktl::global<int>* p;'), ('shared', 'ktl::shared<int>* p; ktl::atomic_shared<int>* q;'), ('threaded', 'ktl::threaded<int>* p;'), ('fallback', 'ktl::fallback<int, int>* p;'),
                 ('segragator', 'ktl::segragator<8, int, int>* p; ktl::threshold<8> t;'), ('overflow', 'ktl::overflow<int>* p;'), ('mallocator', 'ktl::mallocator* p;'), ('type_allocator', 'ktl::type_allocator<int, char>* p;')]:
        out.append((A + h + '_fwd.h', d + '\n'))
    for h, d in [('trivial_vector', 'ktl::trivial_vector<int>* p;'), ('trivial_array', 'ktl::trivial_array<int>* p;'), ('binary_heap', 'ktl::binary_min_heap<int>* p; ktl::binary_max_heap<int>* q;'), ('packed_ptr', 'ktl::packed_ptr<int*, 2>* p;')]:
        out.append((C + h + '_fwd.h', d + '\n'))
    return out


if __name__ == '__main__':
    import subprocess
    from multiprocessing.pool import ThreadPool

    def one(a):
        cc, std, dbg, (h, code) = a
        r = subprocess.run([cc, f'-std={std}', '-fsyntax-only', '-w', '-I/repo/include', '-x', 'c++', '-'] + (['-DKTL_DEBUG_ASSERT'] if dbg else []), input=f'#include "ktl/{h}"\n' + code, capture_output=True, text=True)
        return a, r
    cs = cases()
    print(len(cs))
    for (cc, std, dbg, (h, code)), r in ThreadPool(8).imap(one, [(c, s, d, k) for c in ('g++', '/usr/lib/llvm-18/bin/clang++') for s in ('c++17',) for d in (0, 1) for k in cs]):
        if r.returncode:
            print(cc, dbg, h, code[len(RAW):][:150] if code.startswith(RAW) else code, r.stderr[:700])
