#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate it)."""
import json, os
A = 'include/ktl/allocators/'
K = 'include/ktl/containers/'
U = 'include/ktl/utility/'
BUMP = [A+'linear_allocator.h', A+'stack_allocator.h']
WRAP = [A+'reference.h', A+'shared.h', A+'global.h', A+'threaded.h', A+'type_allocator.h']
COMP = [A+'fallback.h', A+'segragator.h', A+'cascading.h', A+'freelist.h', A+'overflow.h']
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'Every block handed out lies inside live storage the allocator owns',
  'Whenever allocate(n) of any allocator or composition returns a non-null pointer, all n bytes from it are inside live storage owned by the allocator (its array, its stack, or one block obtained from the underlying allocator). Every access the allocator itself makes (headers, free-list links, guard zones, bookkeeping) also stays inside such storage.',
  ['inputs','histories'], 'every size n and every history of allocate/deallocate, including requests the underlying allocator refuses',
  'tests use a few dozen fixed sizes; an off-by-one on a boundary size or after a particular free order never shows',
  BUMP+COMP+[A+'mallocator.h', U+'aligned_malloc.h'],
  [('bump pointer check','linear_allocator::allocate, stack_allocator::allocate'),('Max-sized nodes','freelist::allocate'),('guard offset','overflow::allocate')])
p('C02', 'Live blocks never overlap and are not disturbed by the allocator',
  'Two blocks that are live at the same time never share a byte. No later allocate or deallocate of other blocks changes the contents of a live block.',
  ['inputs','histories'], 'every interleaving of allocations and deallocations with any sizes, on every allocator and on compositions of them',
  'overlap needs a particular free/allocate order and sizes; tests check pointers of two or three blocks',
  BUMP+COMP, [('free of last block','linear_allocator::deallocate, stack_allocator::deallocate'),('free list pop/push','freelist::allocate, freelist::deallocate'),('node list','cascading::allocate')])
p('C03', 'Every returned pointer is aligned to max_align_t',
  'The README promises that allocators always use an alignment equal to std::max_align_t: every non-null pointer returned by any allocator or composition over max_align_t-aligned storage is a multiple of alignof(std::max_align_t), and element pointers of the containers are aligned for their element type.',
  ['inputs','histories'], 'every sequence of sizes (odd, zero, huge) on every allocator and every element type up to max_align_t',
  'a misaligned pointer is tolerated by the x86 test machine; tests only look at some sizes',
  BUMP+[A+'overflow.h', U+'alignment.h', U+'aligned_malloc.h', K+'trivial_buffer.h'], [('rounding','detail::align_to_architecture'),('guard size','overflow::OVERFLOW_SIZE'),('storage','alignas(detail::ALIGNMENT) m_Data')])
p('C04', 'Oversized requests are refused: size arithmetic never wraps',
  'A request whose internally computed size (rounding up to the alignment, adding guard zones, multiplying by sizeof(T)) exceeds what size_t or the storage can hold returns null; it never returns a block smaller than requested. A refused request leaves the allocator usable exactly as before.',
  ['inputs'], 'every value of n, in particular those near the top of size_t and those that wrap when rounded, extended or multiplied',
  'the failing sizes are a handful of values out of 2^64',
  BUMP+[A+'overflow.h', A+'type_allocator.h'], [('totalSize','linear_allocator::allocate, stack_allocator::allocate'),('size + 2*64','overflow::allocate'),('sizeof(value_type) * n','type_allocator::allocate')])
p('C05', 'Bump allocators use their whole capacity and regain it',
  'linear_allocator and stack_allocator serve every request that, rounded up to the alignment, fits the unused part of their storage. Deallocating blocks in the reverse order of their allocation makes their space available again, and once everything has been deallocated the full Size is available again.',
  ['histories'], 'every history of allocations and deallocations in any order',
  'lost capacity only shows as a failure much later, after specific free orders',
  BUMP, [('LIFO reclaim','linear_allocator::deallocate, stack_allocator::deallocate'),('object count','m_ObjectCount, stack::ObjectCount')])
p('C06', 'freelist serves only its size range and reuses what was freed',
  'freelist<Min,Max,A> returns non-null only for Min < n <= Max, takes blocks of exactly Max bytes from A, prefers a previously deallocated block over asking A, and hands a cached block to one owner at a time. Deallocating never touches A, and deallocating null (without assertions) or a block of a size it does not serve changes nothing; while a freelist block is live its bytes are the client\'s.',
  ['inputs','histories'], 'every size against every Min/Max boundary and every order of frees and reuses',
  'boundary sizes and longer free/reuse chains are not enumerated by tests',
  [A+'freelist.h'], [('range test','freelist::allocate, freelist::deallocate'),('list','freelist::m_Free')])
p('C07', 'freelist gives every cached block back exactly once',
  'When a freelist is destroyed or assigned over, each block in its list is deallocated to the underlying allocator exactly once, with size Max, also when the underlying allocator throws in between. A moved-from freelist releases nothing, and the moved-to one keeps serving the cached blocks.',
  ['histories'], 'every history of operations, moves and destruction',
  'double release or leak depends on the combination of cached blocks and moves',
  [A+'freelist.h'], [('release loop','freelist::release'),('transfer','freelist move constructor and move assignment')])
p('C08', 'fallback sends each block back to the allocator that produced it',
  'fallback allocates from the primary first and from the fallback only when the primary returns null. deallocate, construct and destroy of a block go, exactly once and with the same arguments, to the sub-allocator that produced the block and to no other.',
  ['histories'], 'every pattern of primary/fallback failures and ownership answers and every order of deallocation',
  'tests use fixed sub-allocators where the routing mistakes are invisible (both accept the block)',
  [A+'fallback.h'], [('owns test','fallback::deallocate, fallback::construct, fallback::destroy')])
p('C09', 'segragator routes by size, identically for allocate and deallocate',
  'segragator<T,P,F> uses P exactly for n <= T and F exactly for n > T, and deallocate(p,n) reaches the same sub-allocator that allocate(n) used, with unchanged arguments.',
  ['inputs'], 'every n, in particular T-1, T, T+1 and nested segragators',
  'only boundary sizes reveal a routing disagreement',
  [A+'segragator.h'], [('threshold compare','segragator::allocate, segragator::deallocate')])
p('C10', 'cascading keeps every node until its last block is gone and routes by ownership',
  'cascading deallocates each block in the node that owns it with the same size, never frees a node that still has live blocks, frees an empty non-head node exactly once, and frees all nodes exactly once on destruction; moved-from instances own nothing, and a node whose allocator\'s constructor throws leaves nothing behind. A block stays valid until it is deallocated.',
  ['histories'], 'every order of allocations, exhaustion, deallocations and moves',
  'node removal in the middle of the list needs several nodes filled and emptied in a particular order',
  [A+'cascading.h', U+'aligned_malloc.h'], [('node unlink','cascading::deallocate'),('node count','cascading::node::Allocations'),('release','cascading::release')])
p('C11', 'Forwarding wrappers are transparent',
  'reference, shared, global, threaded and type_allocator forward each allocate/deallocate/owns/max_size call to the wrapped allocator exactly once, with the same pointer and size (type_allocator: size multiplied by sizeof(T), max_size divided), and return its answer. Copies of shared/reference/global wrappers and rebound type_allocators act on the same wrapped allocator.',
  ['inputs','histories'], 'every argument and every copy/rebind chain',
  'tests call a handful of sizes through concrete allocators that ignore their size argument',
  WRAP, [('forwarding members','allocate/deallocate/owns/max_size of each wrapper'),('rebind','type_allocator converting constructors')])
p('C12', 'shared keeps its allocator alive exactly as long as someone refers to it',
  'The control block of shared<A> and the allocator in it are destroyed and freed exactly once, when the last referring copy is destroyed or assigned away, and never while a copy still refers to it. This holds for copies, moves, assignments between equal or different owners, and self-assignment; when the allocator\'s constructor throws the control block is freed.',
  ['histories'], 'every sequence of construction, copy, move, assignment (including self-assignment) and destruction',
  'a premature release needs the right aliasing of the operands and is silent without a sanitizer',
  [A+'shared.h'], [('counting','shared::increment, shared::decrement'),('assignment','shared::operator=')])
p('C13', 'atomic_shared counts with atomic read-modify-writes ordered for release',
  'With std::atomic as counter, every change of the use count is one indivisible atomic read-modify-write. Each decrement releases what its thread did with the allocator, and the block is destroyed only by the thread whose own decrement was the last one, after it has acquired (by that decrement or a fence) what all the others released.',
  ['schedules'], 'every interleaving of copies being made and dropped by different threads',
  'the races are a few instructions wide; tests cannot enumerate schedules or weak-memory behaviour',
  [A+'shared.h'], [('atomic RMW','shared::increment, shared::decrement')])
p('C14', 'threaded uses its allocator only under its own lock, and always unlocks',
  'threaded<A> calls A::allocate, A::deallocate and A::owns only while holding its mutex, and the mutex is released on every exit including exceptions thrown by A. Each instance uses one mutex for all these operations.',
  ['schedules'], 'every interleaving of calls from several threads, and exceptions out of the wrapped allocator',
  'a missing lock only fails under contention; the tests run with benign timing',
  [A+'threaded.h'], [('lock_guard','threaded::allocate, threaded::deallocate, threaded::owns')])
p('C15', 'overflow detects every write in the 64 bytes around a block',
  'If any of the 64 bytes before or after a block allocated through overflow no longer holds the guard pattern at deallocation, the stream receives a corruption report with the correct extent, and if all are intact nothing is reported. The client may use all n bytes without disturbing the guards, and the block is passed back to the underlying allocator with the address and size it was obtained with.',
  ['inputs'], 'every block size and every position, number and value of stray writes',
  '128 guard positions times any value times any size cannot be sampled',
  [A+'overflow.h'], [('pattern','overflow::allocate'),('scan','overflow::deallocate')])
p('C16', 'overflow reports a leak exactly when the books do not balance',
  'On destruction overflow writes a leak report iff bytes successfully allocated minus bytes deallocated is non-zero, and a construct/destroy report iff the numbers of construct and destroy calls differ, with those differences. Failed allocations, constructions that throw and deallocations of null do not count. The books belong to the instance: a copy starts with empty books, a move hands them to the new instance and leaves the source balanced.',
  ['histories','fault_sequences'], 'every history including failing allocations, moves and copies',
  'the failing-allocation and move cases never occur in the tests',
  [A+'overflow.h'], [('accounting','overflow::m_Allocs, overflow::m_Constructs'),('report','overflow::~overflow')])
p('C17', 'Allocator equality is coherent',
  'For every allocator a == a holds, a != b is the exact negation of a == b, equality is symmetric, and allocators that compare equal can release each other\'s blocks (they refer to the same state). Copies of shared-state allocators compare equal to the original.',
  ['inputs','programs'], 'every pair of instances of every allocator and composition',
  'tests compare a few pairs, mostly for equality only',
  BUMP+COMP+WRAP+[A+'mallocator.h', A+'null_allocator.h'], [('operator==, operator!=','every allocator header')])
p('C18', 'An allocation that cannot be served returns null and leaves no trace',
  'When the underlying allocator (or malloc) returns null, every allocator and composition returns null without dereferencing it, does not change the underlying state, and stays fully usable: later requests and deallocations behave as if the failed request had not been made.',
  ['fault_sequences'], 'a failure of the underlying allocation at every call in every history',
  'tests never make malloc or a sub-allocator fail',
  BUMP+COMP+WRAP+[U+'aligned_malloc.h'], [('null checks','overflow::allocate, cascading::allocate, detail::aligned_new')])
p('C19', 'construct and destroy act exactly once on the right object',
  'Through any allocator that defines them, construct(p,args...) constructs exactly one object at p from the forwarded arguments and destroy(p) ends the lifetime of exactly that object, via the sub-allocator responsible for p when it defines the operation and directly otherwise.',
  ['inputs','programs'], 'every composition, every owner of p, every argument list (lvalues stay lvalues, rvalues are moved)',
  'tests instantiate a few compositions with trivial types, where missing or duplicate calls are invisible',
  COMP+WRAP, [('construct/destroy','every composite allocator header')])
p('C20', 'owns and max_size tell the truth',
  'owns(p) is true for every live block the allocator handed out and false for every block of a disjoint allocator (for the bump allocators: for every location outside their storage), and its answer does not change the allocator. allocate(n) with n > max_size() always returns null, and max_size may be called in every state of the allocator.',
  ['inputs','histories'], 'every pointer and every size, in every state including a never-used allocator',
  'tests check one or two pointers, and max_size never against allocate',
  BUMP+COMP+WRAP, [('owns','owns() of every allocator'),('max_size','max_size() of every allocator')])
p('C21', 'Containers return each buffer exactly once, right allocator, right count',
  'Every buffer a container obtains from allocate(n) is passed exactly once to deallocate with the same n on an allocator equal to the one that produced it; nothing is leaked, nothing is released twice, and a moved-from container releases nothing. This includes construction, copy, move (with and without allocator), assignment, growth, clear and destruction.',
  ['histories'], 'every history of container operations over every allocator that can satisfy them',
  'the usual allocators ignore the size passed to deallocate, so the tests cannot see a wrong count or a wrong allocator',
  [K+'trivial_vector.h', K+'trivial_array.h', K+'binary_heap.h'], [('Traits::deallocate calls','all special members, set_size, resize, assign')])
p('C22', 'Containers touch only their own live memory, also with aliased arguments',
  'No container operation with valid arguments reads or writes outside live storage, including when an argument refers to an element of the container itself, on self-assignment, and when the operation reallocates.',
  ['inputs','histories'], 'every valid call in every state: any size/capacity relation, empty containers, arguments aliasing own elements',
  'use-after-free of a just-released buffer usually still reads the old bytes',
  [K+'trivial_vector.h', K+'trivial_array.h', K+'binary_heap.h', K+'trivial_buffer.h'], [('reallocation','trivial_vector::expand/set_size, binary_heap::expand/set_size, trivial_array::resize/assign')])
p('C23', 'trivial_vector behaves as a sequence',
  'After each operation trivial_vector holds exactly the elements std::vector would: push_back/emplace_back append, emplace inserts at the position, erase removes exactly the given elements, pop_back removes and returns the last, resize/reserve/growth/copy/move preserve the existing elements in order, and size, capacity, empty, data, iterators and indexing agree with each other.',
  ['inputs','histories'], 'every operation in every state of size and capacity, any element values and sizes',
  'tests check a few operations on short vectors with fixed values',
  [K+'trivial_vector.h'], [('all members','trivial_vector')])
p('C24', 'trivial_array and trivial_buffer keep their contents',
  'trivial_array and trivial_buffer hold exactly the values given at construction or by assign; resize keeps the first min(old,new) elements; copies and moves carry all elements; operator[] and at of trivial_buffer wrap modulo Size; size, data and iterators describe exactly the stored elements.',
  ['inputs','histories'], 'every size, index and element type',
  'tests use one element type and a few sizes and never instantiate some members',
  [K+'trivial_array.h', K+'trivial_buffer.h'], [('all members','trivial_array, trivial_buffer')])
p('C25', 'binary_heap constructs and destroys every element exactly once',
  'Each element stored in a binary_heap is constructed exactly once in storage it owns and destroyed exactly once: by pop, clear, growth, assignment or the heap\'s destruction. No operation reads, assigns or moves from an element that is not alive, and storage is released only after its elements are destroyed.',
  ['histories'], 'every history of insert/pop/reserve/clear/copy/move with elements that own resources',
  'lifetime errors need element types that track themselves and specific sizes',
  [K+'binary_heap.h'], [('element lifetime','binary_heap::insert, pop, set_size, clear, special members')])
p('C26', 'binary_heap pops elements in comparator order and never loses one',
  'After any operations peek() refers to an element that no other element precedes under Comp, pop removes and returns that element, and the multiset of elements in the heap is what was inserted minus what was popped; find returns an iterator to an equal element iff there is one; the iterators of either direction describe exactly the elements.',
  ['inputs','histories'], 'every insertion order of every set of values (elements are touched only through the comparator and moves)',
  'a heap bug shows only for particular orderings of enough elements',
  [K+'binary_heap.h'], [('percolation','binary_heap::percolateUp, binary_heap::percolateDown')])
p('C27', 'packed_ptr stores pointer and integer independently',
  'get_ptr and get_int return exactly the aligned pointer and the low Bits of the integer last stored; setting one never changes the other; a default-constructed packed_ptr is null/zero and its bool conversion is false exactly then.',
  ['inputs'], 'every aligned pointer value, every integer value, every Bits/Alignment combination',
  'bit interference shows only for particular bit patterns',
  [K+'packed_ptr.h', U+'bits.h'], [('masks','packed_ptr::INT_MASK, packed_ptr::PTR_MASK'),('free bits','detail::log2')])
p('C28', 'The builders keep every allocator, in order, with its threshold',
  'segragator_builder_min/max and fallback_builder_min/max expand any list of N allocators to a tree that contains each of them exactly once, tried in the given order; for segragators a request of n bytes reaches the allocator of the first threshold that is >= n, and the last allocator when none is.',
  ['programs'], 'every number of allocators and thresholds, both builder directions',
  'tests instantiate one or two lengths; index arithmetic can fail for others',
  [A+'segragator_fwd.h', A+'fallback_fwd.h', U+'builder.h'], [('tree split','detail::segragator_builder, detail::fallback_builder, detail::pow2, detail::tuple_split_indices')])
p('C29', 'Every public header stands alone and every documented member instantiates',
  'Each header compiles when included on its own, with g++ and clang++ in C++17 and C++20, with and without KTL_DEBUG_ASSERT, and every member and alias the README documents compiles for every type that satisfies the documented requirements.',
  ['programs'], 'all headers, all documented members, aliases and compositions, all supported compilers and modes',
  'member functions of templates are not compiled until used, and the tests do not use all of them',
  ['include/ktl/'], [('headers','include/ktl/**/*.h')])
p('C30', 'noexcept is honest',
  "When a sub-allocator's operation throws, the exception reaches the caller of the allocator member (destructors excepted) instead of std::terminate; when an element's copy or move constructor throws inside a conditionally noexcept container member, it reaches the caller of that member. A noexcept condition that depends on such a component is false whenever the component's call may throw and true when it may not.",
  ['programs'], 'every composition with throwing and non-throwing sub-allocators and element types',
  'no test uses throwing components',
  [U+'meta.h']+COMP+WRAP, [('noexcept specifications','every composite allocator header, detail::has_nothrow_*')])
p('C31', 'Capabilities are detected correctly and misuse does not compile',
  'owns, max_size, construct and destroy are present on a composition exactly when the documentation says its parts provide them, and calling them then compiles; documented misuse (typed sub-allocators, missing owns, Max below pointer size, copying non-copyable allocators, non-trivial elements, too many bits) is rejected at compile time.',
  ['programs'], 'every combination of capabilities of the sub-allocators',
  'a test cannot check that something fails to compile or that an overload disappears',
  [U+'meta.h']+COMP+WRAP+[K+'packed_ptr.h'], [('detection traits','detail::has_*'),('enable_if members','composite allocators'),('static_assert','all headers')])
p('C32', 'Debug assertions never fire on valid use',
  'With KTL_DEBUG_ASSERT defined, no KTL_ASSERT fires for any history of calls that respects the documented preconditions, and the observable results are the same as without the assertions.',
  ['histories'], 'every valid history on every allocator and container',
  'assertions over rarely reached states are only evaluated there',
  BUMP+COMP+[A+'null_allocator.h', K+'trivial_vector.h', K+'trivial_array.h', K+'binary_heap.h', K+'packed_ptr.h', K+'trivial_buffer.h'], [('KTL_ASSERT','all headers')])
p('C33', 'Moving or copying an allocator transfers its responsibility exactly once',
  'After moving or move-assigning an allocator the destination serves and releases what the source held, the source owns nothing and is safely destructible, and no resource (node, control block, cached block) is leaked or released twice. Bump allocators that are move-assigned start empty and fully usable.',
  ['histories'], 'every history mixing moves, assignments and use of both operands',
  'tests move allocators once, in the simplest state',
  BUMP+COMP+WRAP, [('special members','every allocator header')])
p('C34', 'Every operation returns',
  'No valid history makes an operation of an allocator or container run forever: searches through the nodes of cascading and the list of freelist end, also after nodes were removed or moved, sifting in binary_heap ends, and destructors end.',
  ['histories','inputs'], 'every history of the clients, every position of the block searched for, every order of elements',
  'a list that closes on itself needs a particular order of removals; a test that hits it hangs instead of failing',
  [A+'cascading.h', A+'freelist.h', K+'binary_heap.h'], [('node search','cascading::deallocate, cascading::owns, cascading::construct'),('release loops','cascading::release, freelist::release'),('sifting','binary_heap::percolateUp, binary_heap::percolateDown')])
p('C35', 'A request is refused only when it cannot be served',
  'allocate returns null for a request it is responsible for only when the storage below could not serve it: mallocator only when malloc refuses, linear_allocator and stack_allocator only when the request does not fit, freelist (for sizes it serves) only when no block is cached and the underlying allocator refuses, fallback only when both parts refuse, segragator when the responsible part does, cascading only when a fresh node does, overflow, type_allocator and the other wrappers only when the wrapped allocator refuses or the size is not representable. A block obtained from below is never dropped.',
  ['inputs','histories'], 'every request size, every pattern of refusals below, every state of the caches',
  'tests request a few small sizes from fresh allocators',
  BUMP+COMP+WRAP+[A+'mallocator.h', U+'aligned_malloc.h'], [('allocate','every allocator header')])
p('C36', 'The work of an operation grows no faster than documented or expected',
  'allocate and deallocate of linear_allocator, stack_allocator and freelist, allocate of cascading, copying and destroying shared, and reading, adding and removing at the end of a trivial_vector with spare capacity take a time that does not depend on how many blocks, nodes, copies or elements there are. insert and pop of binary_heap make O(log n) comparisons and work along one path of the heap; n appends to a trivial_vector and n inserts into a binary_heap request memory O(log n) times.',
  ['histories'], 'long histories: hundreds of blocks, nodes, copies and elements, instruction and call counts on the abstract path',
  'tests use a handful of elements and do not measure work',
  BUMP+[A+'freelist.h', A+'cascading.h', A+'shared.h', K+'binary_heap.h', K+'trivial_vector.h'], [('bump and list operations','allocate, deallocate'),('sifting','binary_heap::percolateUp, binary_heap::percolateDown'),('growth','trivial_vector::expand, binary_heap::expand')])
p('N01', 'Concurrent use of atomic_shared<threaded<A>> is linearizable',
  'Any concurrent history of allocate and deallocate through copies of atomic_shared<threaded<A>> is equivalent to some sequential history of A.',
  ['schedules'], 'every schedule of any number of threads', 'schedules cannot be enumerated by tests',
  [A+'threaded.h', A+'shared.h'], [('lock and atomic count','threaded, shared')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
