#!/usr/bin/env python3
"""Source of known_findings.json (run to regenerate it)."""
import json, os
F = """045bf9d C04 linear_allocator/stack_allocator: a size close to SIZE_MAX wrapped to a small one when rounded up and was served
a0d9f38 C20 linear_allocator/stack_allocator: owns was false for an empty block at the very end of the storage
648f97e C33 linear_allocator: move assignment reset the pointer but kept the object count, so the space was never reclaimed
54a9468 C17 global: operator!= was not the negation of operator==
fe778dd C18 cascading/aligned_new: the result of malloc was used without a null check
fba7564 C18 cascading: a fresh node whose first allocation failed stayed in the list
c035275 C20 cascading: max_size dereferenced the missing node of an unused instance
8c44028 C29 trivial_vector::pop_back did not compile
7d551bc C29 trivial_vector::emplace did not compile (and lost the position on growth)
f142ff5 C22 trivial_vector: push_back/emplace of an own element read freed storage on growth
e30ff51 C21 trivial_vector: move construction with an unequal allocator allocated/copied the wrong count
0c7782a C21 trivial_array: move construction with an unequal allocator allocated/copied the wrong count
8bebf42 C22 trivial_vector: copy self-assignment released the elements before reading them
ea758e8 C22 trivial_array: copy self-assignment released the elements before reading them
98c59fc C22 trivial_array::assign from its own range read freed storage
a7eef39 C21 binary_heap: move construction with an unequal allocator used the wrong size and leaked elements
accc754 C22 binary_heap: copy self-assignment destroyed the elements before reading them
4b945fe C22 binary_heap::insert of an own element read freed storage on growth
3e938fe C25 binary_heap::pop assigned the last element from itself and required copyable elements
e7e3703 C12 shared: self-assignment released the control block that it kept using
4d7c24e C17 shared: comparing a moved-from instance dereferenced null
18e8a95 C18 shared: with no control block (failed malloc or moved from) allocate dereferenced null
e15c26a C16 overflow: failed allocations were counted as leaks
2acd002 C04 overflow: size plus guard zones wrapped for huge requests
7baa423 C16 overflow: deallocating null was counted
21d2b6c C16 overflow: copies and moves duplicated the leak counters
844e038 C30 overflow: construct/destroy were noexcept although the sub-allocator may throw
99cc61d C32 freelist: move assignment asserted spuriously and had a wrong noexcept
91829be C04 type_allocator: sizeof(T) * n wrapped
4616ff7 C30 type_allocator: constructor noexcept asked about the wrong argument
b2b7c5a C14 threaded::owns did not take the lock
0cc5c68 C31 segragator: construct/destroy were offered although the primary has no owns, and did not compile
9cb4f93 C30 fallback: deallocate was noexcept although owns may throw
303404b C30 has_nothrow_not_equal asked about == instead of !=
6215a90 C01 aligned_malloc (posix): arguments of posix_memalign swapped
d9130ca C04 aligned_malloc (generic): size plus header wrapped
7956e5f C24 trivial_buffer: iterators and const accessors did not compile; storage was not aligned for T
859764a C29 meta.h: did not include what it uses
566f7c6 C25 binary_heap: copy assignment counted elements that were never constructed when copying one threw; copy construction leaked
c9df812 C30 type_allocator: the converting constructors' noexcept asked about the wrong argument
71301e0 C29 cascading: over a node allocator that cannot be moved (threaded) a type_allocator was rejected: its noexcept asked about moving nodes that are never moved
71e3350 C30 global: set_allocator was noexcept although moving the allocator may throw
de9c946 C12 aligned_new lost the memory when the constructor threw: shared leaked its control block, cascading its node
a7db365 C07 freelist: after an assignment that threw, its list still held blocks that had been given back
32d2bf7 C16 overflow: a construction that threw was counted
ac1bf4f C32 cascading: a head without blocks that refused a request stayed behind the new one forever; destruction then asserted a leak although every block had been deallocated"""
out = []
for n, l in enumerate(F.split('\n')):
    c, p, w = l.split(' ', 2)
    out.append({'id': f'F{n+1:02d}', 'property': p, 'status': 'fixed', 'commit': c, 'what': w,
                'record': f'fixed: property={p} {c} {w}'})
json.dump({'findings': out}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w'), indent=1)
