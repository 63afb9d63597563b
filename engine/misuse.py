"""The documented misuses: (name, code that must not compile, the nearest valid code). Used by engine/structural.py."""
PRE = '#include "ktl/ktl.h"\n#include <string>\n#include <memory>\n#include <sstream>\nusing namespace ktl;\n'


def cases():
    out = []

    def add(name, bad, good):
        out.append((name, bad, good))
    typed, plain = 'type_allocator<int, linear_allocator<64>>', 'linear_allocator<64>'
    for c in ['cascading<%s>', 'fallback<%s, mallocator>', 'fallback<linear_allocator<64>, %s>', 'freelist<0, 16, %s>', 'global<%s>', 'overflow<%s>',
              'reference<%s>', 'segragator<8, %s, mallocator>', 'segragator<8, mallocator, %s>', 'shared<%s>', 'atomic_shared<%s>', 'threaded<%s>',
              'type_allocator<char, %s>']:
        add('typed sub-allocator in ' + c % 'A', f'auto x = sizeof({c % typed});', f'auto x = sizeof({c % plain});')
    for c in ['cascading<%s>', 'fallback<%s, mallocator>', 'freelist<0, 16, %s>', 'overflow<%s>', 'shared<%s>']:
        t = 'std::allocator<int>'
        add('standard allocator in ' + c % 'A', f'auto x = sizeof({c % t});', f'auto x = sizeof({c % plain});')
    raw = 'struct R { %s void* allocate(size_t n); void deallocate(void*, size_t); bool owns(void*) const; bool operator==(const R&) const; bool operator!=(const R&) const; }; '
    for c in ['cascading<R>', 'fallback<R, mallocator>', 'fallback<linear_allocator<64>, R>', 'freelist<0, 16, R>', 'global<R>', 'overflow<R>',
              'reference<R>', 'segragator<8, R, mallocator>', 'segragator<8, mallocator, R>', 'shared<R>', 'threaded<R>', 'type_allocator<char, R>']:
        add(f'an allocator with a value_type in {c}', raw % 'typedef int value_type;' + f'auto x = sizeof({c});', raw % '' + f'auto x = sizeof({c});')
    for c in ['cascading<R>', 'fallback<R, mallocator>']:
        add(f'an allocator that owns only char* in {c}', (raw % '').replace('owns(void*)', 'owns(char*)') + f'auto x = sizeof({c});', raw % '' + f'auto x = sizeof({c});')
    for bad in ['mallocator', 'freelist<0, 16, mallocator>', 'segragator<8, linear_allocator<64>, mallocator>', 'shared<mallocator>']:
        add(f'fallback over {bad}, which cannot tell what it owns', f'auto x = sizeof(fallback<{bad}, mallocator>);', f'auto x = sizeof(fallback<{plain}, mallocator>);')
        add(f'cascading over {bad}, which cannot tell what it owns', f'auto x = sizeof(cascading<{bad}>);', f'auto x = sizeof(cascading<{plain}>);')
    for m in (0, 1, 4, 7):
        add(f'freelist with Max {m}, below the size of a pointer', f'auto x = sizeof(freelist<0, {m}, mallocator>);', 'auto x = sizeof(freelist<0, 8, mallocator>);')
    for a in ['linear_allocator<64>', 'cascading<linear_allocator<64>>', 'freelist<0, 16, mallocator>', 'threaded<mallocator>', 'fallback<linear_allocator<64>, mallocator>',
              'segragator<8, mallocator, linear_allocator<64>>', 'type_allocator<int, linear_allocator<64>>']:
        add(f'copying {a}', f'void f({a}& a) {{ {a} b(a); }}', f'void f({a}& a) {{ {a}& b(a); }}')
        add(f'copy-assigning {a}', f'void f({a}& a, {a}& b) {{ a = b; }}', f'void f({a}& a, {a}& b) {{ a.allocate(1); }}')
        if not a.startswith('type_'):
            g = 'shared<%s>' % a
            add(f'a trivial_vector over a copy of {a}', f'void f(type_allocator<int, {a}>& a) {{ trivial_vector<int, type_allocator<int, {a}>> v(a); }}',
                f'void f(type_allocator<int, {g}>& a) {{ trivial_vector<int, type_allocator<int, {g}>> v(a); }}')
    for el in ['std::string', 'std::unique_ptr<int>']:
        for c in ['trivial_vector<%s>', 'trivial_array<%s>', 'trivial_buffer<%s, 4>']:
            add(f'{c % el}', f'{c % el} v;', f'{c % "int"} v;')
    nd = 'struct ND { int v; ND(int); };'
    for c in ['trivial_vector<%s>', 'trivial_array<%s>', 'trivial_buffer<%s, 4>']:
        add(f'{c % "a type without default constructor"}', f'{nd} auto x = sizeof({c % "ND"});', f'auto x = sizeof({c % "int"});')
    add('binary_heap of a type that cannot be moved', 'struct NM { NM(); NM(NM&&) = delete; bool operator<(const NM&) const; }; auto x = sizeof(binary_heap<NM, std::less<NM>>);',
        'struct NM { NM(); NM(NM&&); NM& operator=(NM&&); bool operator<(const NM&) const; }; auto x = sizeof(binary_heap<NM, std::less<NM>>);')
    add('binary_heap of a type that cannot be move-assigned', 'struct NM { NM(); NM(NM&&); NM& operator=(NM&&) = delete; bool operator<(const NM&) const; }; auto x = sizeof(binary_heap<NM, std::less<NM>>);',
        'struct NM { NM(); NM(NM&&); NM& operator=(NM&&); bool operator<(const NM&) const; }; auto x = sizeof(binary_heap<NM, std::less<NM>>);')
    for k in (0, 1, 2, 3, 4, 5, 8, 12, 16, 31, 32, 33, 47, 62, 63):
        add(f'packed_ptr with {k + 1} bits for an alignment of 2^{k}', f'packed_ptr<char*, {k + 1}, size_t(1) << {k}> p;', f'packed_ptr<char*, {k}, size_t(1) << {k}> p;')
    add('packed_ptr<int*, 3>', 'packed_ptr<int*, 3> p;', 'packed_ptr<int*, 2> p;')
    add('packed_ptr<char*, 1>', 'packed_ptr<char*, 1> p;', 'packed_ptr<char*, 0> p;')
    add('packed_ptr<double*, 4>', 'packed_ptr<double*, 4> p;', 'packed_ptr<double*, 3> p;')
    add('packed_ptr made from a signed integer', 'void f(int* q) { packed_ptr<int*, 2> p(q, 1); }', 'void f(int* q) { packed_ptr<int*, 2> p(q, 1u); }')
    add('packed_ptr asked for a signed integer', 'int f(packed_ptr<int*, 2>& p) { return p.get_int<int>(); }', 'unsigned f(packed_ptr<int*, 2>& p) { return p.get_int<unsigned>(); }')
    add('packed_ptr set to a signed integer', 'void f(packed_ptr<int*, 2>& p) { p.set_int(1); }', 'void f(packed_ptr<int*, 2>& p) { p.set_int(1u); }')
    add('packed_ptr converted to bool implicitly', 'bool f(packed_ptr<int*, 2>& p) { return p; }', 'bool f(packed_ptr<int*, 2>& p) { return bool(p); }')
    L = 'linear_allocator<64>'
    for b in ('segragator_builder_min', 'segragator_builder_max'):
        add(f'{b} without a threshold between two allocators', f'using A = {b}<{L}, mallocator>; auto x = sizeof(A);', f'using A = {b}<{L}, threshold<8>, mallocator>; auto x = sizeof(A);')
        add(f'{b} with a threshold too many', f'using A = {b}<{L}, threshold<8>, mallocator, threshold<16>>; auto x = sizeof(A);', f'using A = {b}<{L}, threshold<8>, mallocator>; auto x = sizeof(A);')
        add(f'{b} with a threshold missing', f'using A = {b}<{L}, threshold<8>, {L}, mallocator>; auto x = sizeof(A);', f'using A = {b}<{L}, threshold<8>, {L}, threshold<16>, mallocator>; auto x = sizeof(A);')
        add(f'{b} with thresholds and allocators swapped', f'using A = {b}<threshold<8>, {L}, threshold<16>>; auto x = sizeof(A);', f'using A = {b}<{L}, threshold<8>, {L}>; auto x = sizeof(A);')
    add('type_allocator of a const type', 'auto x = sizeof(type_allocator<const int, mallocator>);', 'auto x = sizeof(type_allocator<int, mallocator>);')
    thr = ('struct T : mallocator {{ T(); T(const T&){0}; T(T&&){1}; T& operator=(const T&){2}; T& operator=(T&&){3}; }}; auto x = sizeof(type_allocator<int, T>);')
    q = [' noexcept'] * 4
    for i, w in enumerate(('copy constructor', 'move constructor', 'copy assignment', 'move assignment')):
        b = list(q)
        b[i] = ''
        add(f'type_allocator over an allocator whose {w} may throw', thr.format(*b), thr.format(*q))
    add('stack_allocator without a stack', 'stack_allocator<64> a;', 'void f(stack<64>& s) { stack_allocator<64> a(s); }')
    add('cascading over stack_allocator', 'void f() { cascading<stack_allocator<64>> a; a.allocate(1); }', 'void f() { cascading<linear_allocator<64>> a; a.allocate(1); }')
    add('overflow without a stream', 'overflow<mallocator> a;', 'void f(std::ostream& s) { overflow<mallocator> a(s); }')
    for a, m in [('freelist<0, 16, mallocator>', 'owns(nullptr)'), ('freelist<0, 16, mallocator>', 'max_size()'), ('shared<mallocator>', 'owns(nullptr)'), ('threaded<mallocator>', 'max_size()'),
                 ('segragator<8, linear_allocator<64>, mallocator>', 'owns(nullptr)'), ('fallback<linear_allocator<64>, mallocator>', 'owns(nullptr)'),
                 ('fallback<linear_allocator<64>, mallocator>', 'max_size()')]:
        g = a.replace('mallocator', plain)
        add(f'{m} of {a}', f'auto f({a}& a) {{ return a.{m}; }}', f'auto f({g}& a) {{ return a.{m}; }}')
    return out


if __name__ == '__main__':
    import subprocess, sys, itertools
    from multiprocessing.pool import ThreadPool

    def one(a):
        cc, std, (n, b, g) = a
        r = [subprocess.run([cc, f'-std={std}', '-fsyntax-only', '-w', '-I/repo/include', '-x', 'c++', '-'], input=PRE + x, capture_output=True, text=True) for x in (b, g)]
        return a, r
    cs = cases()
    print(len(cs))
    for (cc, std, (n, b, g)), (rb, rg) in ThreadPool(8).imap(one, [(c, s, k) for c in ('g++', '/usr/lib/llvm-18/bin/clang++') for s in ('c++17',) for k in cs]):
        if rb.returncode == 0:
            print(cc, 'COMPILES', n)
        if rg.returncode != 0:
            print(cc, 'CONTROL', n, rg.stderr[:600])
