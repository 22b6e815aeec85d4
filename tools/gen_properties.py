import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
SQ=["include/xme/container/spsc_queue.hpp","private/container/spsc_queue_base.hpp","include/xme/container/container_policy.hpp"]
sqst=[("m_write_index","next slot the producer fills, published to the consumer","private/container/spsc_queue_base.hpp"),("m_read_index","next slot the consumer drains, published to the producer","private/container/spsc_queue_base.hpp")]
p("C01","Queue hands over every accepted element exactly once, in order",
  "With one producer thread and one consumer thread, every element whose push or emplace reported success is delivered exactly once, in the order pushed and with exactly the value pushed, and nothing else is ever delivered; popping removes exactly the oldest element. This holds for the compile-time-sized and the run-time-sized queue, for every interleaving and stall of the two threads, and however often the ring wraps around. It also holds when the producer or consumer role is handed to another thread through external synchronisation.",
  ["schedules","histories","configurations"],
  "All interleavings of one producer and one consumer under the C++ memory model, all operation histories, both storage policies, all power-of-two capacities, assertions on or off.",
  "tests/container/spsc.cpp does not compile at the pinned commit and is in no build script; even when built it samples one real schedule on strongly ordered hardware and ignores the consumed values.",
  SQ,[("release-store of the write index after construction, acquire-load before reading","SPSCQueueBase::emplace / read_available"),("release-store of the read index after destruction, acquire-load before reuse","SPSCQueueBase::pop, consume / emplace"),("power-of-two index masking","SPSCQueueBase::next_index")],
  ["return value of push/emplace","element passed to the consume callback"],sqst)
p("C02","Queue transfers are free of data races and publish the producer's writes",
  "Everything the producing thread wrote before a successful push, including the construction of the element, is visible to the consuming thread when it receives that element or is told of it by the readable count; in the other direction, what the consumer did before freeing a place, its last use of the element included, happens before what the producer does once a push or the writable count has shown it that place free. Using one queue from one producer and one consumer thread is therefore never a data race under the C++ memory model, on weakly ordered hardware too, and whether or not assertions are compiled in.",
  ["schedules","configurations"],
  "All schedules and all values a load may legally return under the C++ memory model (stale loads included), with and without NDEBUG.",
  "A missing acquire or release is invisible on x86 and in any test that samples a few schedules; no test of the repository runs the queue at all.",
  SQ,[("acquire/release pairing on the two indices","SPSCQueueBase::emplace, pop, consume, read_available, write_available")],
  ["memory accesses of both threads to queue storage and to data reachable from elements"],sqst)
p("C03","Queue capacity is honoured and availability counts never mislead",
  "A queue of capacity N holds at most N-1 elements: a push reports failure only when, as far as the producer can know, N-1 elements are still unconsumed, and a failed push changes nothing. The readable count given to the consumer and the writable count given to the producer lie in 0..N-1, never exceed the truth at the time of the call and never leave out anything already made visible to the caller, so that many consumes or pushes then succeed. When neither thread is active both counts are exact and add up to N-1.",
  ["schedules","histories","configurations"],
  "All interleavings with queries placed anywhere, all index positions relative to the wrap-around, all power-of-two capacities.",
  "The counts depend on two indices read at different instants; tests check a handful of single-threaded values for two capacities (and are not built).",
  SQ,[("one slot kept free","SPSCQueueBase::emplace"),("modular difference of the indices","SPSCQueueBase::read_available, write_available")],
  ["return values of push/emplace, read_available, write_available"],sqst)
p("C04","Queue operations are wait-free and need no memory",
  "Every queue operation and query finishes within a bounded number of the calling thread's own steps, without blocking and without requesting memory, wherever the other thread happens to be stalled, even for ever. While the producer is stalled the consumer can drain everything already published, and while the consumer is stalled the producer can fill every place it knows to be free.",
  ["schedules","fault_sequences"],
  "Every point at which the peer thread may stop, every memory-exhaustion point, all histories leading there.",
  "Tests cannot stop a thread between two instructions of an operation, nor tell a slow operation from a blocked one.",
  SQ,[("loop-free push/pop/consume on two single-writer indices","SPSCQueueBase::emplace, pop, consume"),("storage obtained once at construction","StaticSPSCQueue, DynamicSPSCQueue")],
  ["completion of each call while the peer is stalled","allocation requests during calls"],sqst)
p("C05","Queue elements live exactly once, also when something throws",
  "Each element accepted by a queue is constructed once and destroyed once - when popped, after the consume callback returns, or when the queue is destroyed -, always before its place is free for another element, and is never touched outside that life. If constructing an element, the consume callback, or obtaining the queue's storage throws, the exception reaches the caller, nothing leaks, and the queue is as before the call (after a throwing callback the element is still at the front).",
  ["histories","fault_sequences","schedules"],
  "All histories of operations, with a failure injected at any construction, callback or allocation, under any interleaving with the other thread, and with any number of elements left at destruction.",
  "No test uses elements with non-trivial lifetime or lets anything throw.",
  SQ,[("construct before publishing, destroy before releasing the slot","SPSCQueueBase::emplace, pop, consume"),("draining destructors","~StaticSPSCQueue, ~DynamicSPSCQueue")],
  ["constructor/destructor calls of elements","storage returned to the allocator","exceptions at the caller"],sqst)
AR=["include/xme/container/array.hpp","include/xme/container/icontainer.hpp","include/xme/ranges/uninitialized.hpp","include/xme/ranges/destroy.hpp"]
arst=[("m_data.begin/end/storage_end","the live elements and the owned storage","include/xme/container/array.hpp")]
p("C06","Array behaves as a sequence after any history of operations",
  "After any history of construction, copy, move, swap, assignment, append, insert, erase, clear, reserve and resize, interrupted or not by failures, an Array holds exactly the values an abstract sequence would hold, and size, emptiness, capacity, indexing, front, back, data and iteration agree with it; positions returned by insert and erase denote the documented element. A single value being appended or inserted may be an element of the same Array. Operations that fit into reserved capacity request no memory and leave elements before the affected position in place.",
  ["histories","inputs","fault_sequences"],
  "All operation sequences and element types (trivial, move-only, owning memory), with failures interleaved.",
  "Tests run fixed short histories on int and float only, where assigning to raw memory or to a destroyed element is unnoticeable.",
  AR,[("relocation into new storage","Array::grow_storage, shrink_storage, realloc_insert"),("shifting within storage","Array::insert, erase")],["iteration, size, capacity, returned iterators, allocator calls"],arst)
p("C07","Array constructs and destroys every element and block exactly once",
  "Every element an Array holds is a constructed object; each is destroyed exactly once, elements are never read, assigned or destroyed outside their life, and no memory outside the Array's own block is touched. Every block obtained from an allocator is returned exactly once, with its original size, to an equal allocator, and only after its elements were destroyed. This holds for any history of operations, including any in which allocations fail or element operations throw.",
  ["histories","fault_sequences"],
  "All operation histories with a failure injected at any allocation or any element construction, copy, move or assignment.",
  "Tests use trivial element types only and inject no failure.",
  AR,[("destroy and deallocate on every path","Array::~Array, clear, erase, grow_storage, shrink_storage, realloc_insert"),("rollback in the bulk helpers","uninitialized_copy_a, uninitialized_fill_n_a")],["element special member calls, allocator calls, memory accesses"],arst)
p("C08","A failing Array operation reports and leaves the Array usable",
  "When an allocation fails or an element operation throws inside an Array operation, that very exception reaches the caller and the program goes on. A failed allocation leaves the Array's contents and capacity as they were, and so does a throwing construction of the single element being appended; copy-assignment is all-or-nothing and a failed constructor leaves nothing behind. After any other failure the Array still holds only valid elements and can be used, assigned and destroyed.",
  ["fault_sequences","histories"],
  "Every failure point of every operation in every reachable state.",
  "No existing test makes an allocation or an element operation fail.",
  AR,[("allocate before modifying","Array::grow_storage, realloc_insert"),("copy and swap","Array::operator=")],["exceptions at the caller, contents and capacity afterwards"],arst)
p("C09","Heap always serves an extreme element and conserves its contents",
  "At any time the front of a non-empty Heap is an element that no other contained element orders before, and the contents are exactly the multiset of elements pushed and not yet popped, so popping until empty yields every element in priority order. A push that fails because memory or copying the value fails throws and leaves the Heap as it was.",
  ["histories","inputs","fault_sequences"],
  "All histories of pushes, emplacements and pops with any keys, duplicates included, both comparator directions, with failures injected.",
  "Tests check two ten-element int histories.",
  ["include/xme/container/heap.hpp","include/xme/container/array.hpp"],[("sift up / sift down","Heap::heapfy_up, heapfy_down")],["front, size, iteration, pop order"])
LL=["include/xme/container/linked_list.hpp","private/container/linked_list_base.hpp"]
p("C10","LinkedList behaves as a sequence and keeps nodes in place",
  "After any history of construction, copy, move, assignment, push, pop, insert-after, erase-after, assign, clear and reverse, interrupted or not by failures, a LinkedList holds exactly the values an abstract sequence would hold, ends after the last of them, and returned iterators denote the documented element. Elements that an operation does not remove stay at their address, so iterators and references to them remain valid.",
  ["histories","inputs","fault_sequences"],
  "All operation histories, with failures interleaved.",
  "The list's test does not compile at the pinned commit and is in no build script.",
  LL,[("node linking","LinkedList::emplace_after, erase_after, reverse, assign")],["iteration, addresses of elements, returned iterators"],[("m_head.next","first node of the chain","include/xme/container/linked_list.hpp")])
p("C11","LinkedList never leaks or misuses nodes, also when something throws",
  "Every node and element of a LinkedList is created once and destroyed once and never used outside its life, for any history including those in which allocations or element operations fail, in constructors too. A failing operation throws that failure to the caller; a failed single insertion leaves the list as it was, and after a failed range operation the list is a valid list.",
  ["histories","fault_sequences"],
  "Every allocation and element-operation failure point in every operation and constructor.",
  "No test of the list is built and none injects failures.",
  LL,[("release of the node when construction throws","LinkedList::create_node"),("destruction of all nodes","LinkedList::~LinkedList, clear, erase_after")],["element special member calls, allocator calls, exceptions"])
DG=["include/xme/core/functional/delegate.hpp"]
p("C12","A Delegate calls exactly the callable it holds",
  "Invoking a non-empty Delegate calls exactly the callable it was given last - function, stateful functor of any size, lambda - with the given arguments, and returns its result or lets its exception through; invoking an empty one throws bad_function_call. Copies are equal but independent, a move or swap transfers the callable and leaves the source empty or with the other one, null functions and assignment of null give an empty Delegate, and the handle to the stored functor denotes that very functor or is null for another type. This holds after any history, failures included.",
  ["histories","inputs","fault_sequences"],
  "All histories over several Delegates with callables of all storage classes, with failures of memory and of copying injected.",
  "Tests construct two Delegates and never call them.",
  DG,[("type-erased invoke and manager functions","Delegate::FunctorManager")],["calls received by callables, results, bool conversion, handle"],[("m_storage / m_manager","the stored callable and how to copy or destroy it","include/xme/core/functional/delegate.hpp")])
p("C13","A Delegate owns its callable exactly once, also when copying it fails",
  "Every callable stored in a Delegate is destroyed exactly once, is never called or copied outside its life, and its storage is released exactly once. If copying the callable or obtaining memory for it fails during construction, copying or assignment, the exception reaches the caller and an existing target keeps the callable it had.",
  ["histories","fault_sequences"],
  "All histories with a failure injected at any allocation or copy or move of a callable.",
  "No test stores a callable with observable lifetime or injects failures.",
  DG,[("create_functor/destroy_functor","Delegate::FunctorManager"),("copy and swap","Delegate::operator=")],["special member calls of functors, allocations, exceptions"])
p("C14","A scoped action runs exactly once, when its scope is left",
  "A callable guarded by a ScopedDelegate runs exactly once, when its scope is left and not before, whichever way it is left - normally, by return, or by an exception thrown at any point - and several guards run in reverse order of creation. The guard never runs when constructing it failed.",
  ["fault_sequences","schedules"],
  "All nestings of scopes and all points at which an exception may leave them, with several tasks interleaved.",
  "The only test leaves one scope normally.",
  ["include/xme/core/functional/scoped_delegate.hpp"],[("call in the destructor","~ScopedDelegate")],["invocations of the guarded callables"])
p("C15","Library handles are released exactly once and never misused",
  "Every shared library a SharedLibrary object opened is released exactly once - by close, by opening another, or by destruction of the object that owns it after any moves - and is never used after release; nothing is released when nothing is held. The object reports open exactly while it holds a usable library, failed opens included, and the name and symbol asked of the system are exactly the characters of the given views.",
  ["histories","fault_sequences"],
  "All histories of open, close, move, lookup and destruction over several objects, with the loader refusing at any point.",
  "No test uses SharedLibrary; the header is only compiled.",
  ["include/xme/hal/shared_library.hpp"],[("RAII over dlopen/dlclose","SharedLibrary")],["dlopen/dlsym/dlclose calls, is_open, proc_address"],[("m_library","the handle held, null when none","include/xme/hal/shared_library.hpp")])
p("C16","Environment access sees exactly what was set",
  "After a variable is set, reading it yields exactly the value's characters, setting an empty value removes it, and no other variable is ever affected; name and value are exactly the characters of the given views. If the system refuses a change, every variable keeps the value it had.",
  ["histories","inputs","fault_sequences"],
  "All histories of sets, removals and reads over names that are prefixes of one another, through views of larger texts, with the system refusing changes.",
  "No test uses these functions.",
  ["include/xme/hal/linux/platform.hpp"],[("setenv/unsetenv/secure_getenv","set_environment_variable, get_environment_variable")],["return values, environment contents"])
p("C17","Bulk construction is all-or-nothing",
  "Bulk copy and fill into raw storage construct exactly the requested elements in order and report where they stopped, never going past the end of either range; if constructing any element throws, all elements built so far are destroyed, the exception reaches the caller, and source and surrounding memory are untouched. Bulk destruction destroys exactly the given elements, once each.",
  ["inputs","fault_sequences"],
  "All range lengths and every element at which construction may fail.",
  "The helpers have no test of their own and are exercised only with trivial types that cannot throw.",
  ["include/xme/ranges/uninitialized.hpp","include/xme/ranges/destroy.hpp"],[("rollback on exception","uninitialized_copy_a, uninitialized_fill_n_a"),("destroy loops","destroy_a, destroy_at_a, destroy_n_a")],["element special member calls, returned positions"])
p("C18","Separate objects and shared read-only objects are safe across threads",
  "Threads working on separate containers, delegates or other objects of the library never interfere, and threads may concurrently read one container, or call one Delegate, through const access; each thread obtains exactly the results it would obtain running alone, and the library itself performs no data race. No hidden mutable state is shared between objects or calls.",
  ["schedules","histories"],
  "All interleavings of several threads, each with its own operation history, over private objects and shared constant ones.",
  "All existing tests are single-threaded.",
  ["include/xme/container/array.hpp","include/xme/container/heap.hpp","include/xme/container/linked_list.hpp","include/xme/container/array_view.hpp","include/xme/core/functional/delegate.hpp","include/xme/core/functional/bind.hpp","include/xme/container/tuple.hpp","include/xme/core/algorithm/find.hpp","include/xme/core/algorithm/reverse.hpp"],[("no mutable or static state","all headers")],["results per thread, memory accesses of each thread"])
p("C19","Algorithms on disjoint parts of one buffer do not interfere",
  "Searching or reversing a sub-range reads and writes only the elements of that sub-range, so threads may run these algorithms, and write elements, on disjoint parts of one buffer at the same time; each obtains the result it would obtain alone and no element outside its part changes, even for a moment. This holds wherever the sub-range starts and ends in memory.",
  ["schedules","inputs"],
  "All partitions of a buffer at any element offset and length, all interleavings of the threads' memory accesses.",
  "Tests run the vectorised paths single-threaded over whole freshly allocated vectors.",
  ["include/xme/core/algorithm/find.hpp","include/xme/core/algorithm/reverse.hpp"],[("vector-width main loop bounded by the range, scalar tail","xme::find, xme::reverse")],["memory accesses, returned positions, buffer contents"])
# pure parts
def na(id,title,statement,files,mech):
    p(id,title,statement,["inputs"],"All argument values.","Tests sample a few hand-picked values.",files,mech,["return values"])
na("C20","Vector arithmetic and geometry obey their definitions","Component-wise arithmetic, dot and cross product, length, distance, normalisation, interpolation, reflection and sign give the mathematically defined result, up to floating-point rounding, for vectors of every size. Named components and indexed components are the same storage.",["include/xme/math/vector.hpp","include/xme/math/vectors/functions.hpp","include/xme/math/vectors/geometry.hpp"],[("component loops","Vector")])
na("C21","Matrix algebra obeys its definitions","Matrix sums, products, transposes, determinants, outer and Hadamard products agree with column-major linear algebra: products are associative and distribute over addition up to rounding, and the determinant of a product is the product of the determinants.",["include/xme/math/matrix.hpp","include/xme/math/matrices/functions.hpp","include/xme/math/matrices/matrix4x4.hpp"],[("column-major storage","Matrix")])
na("C22","Transformations, projections and quaternions mean what they name","Translation, scaling, rotation, perspective and quaternion operations produce the matrices and rotations of their textbook definitions for all parameters in their domain.",["include/xme/math/matrices/transformation.hpp","include/xme/math/matrices/perspective.hpp","include/xme/math/quaternion.hpp","include/xme/math/scalars/trigonometry.hpp"],[("closed formulas","translate, scale, rotate, perspective, Quaternion")])
na("C23","The vectorised search equals a linear search","Searching any contiguous range for a value returns the position of the first element equal to it, or the end, exactly as an element-by-element search would.",["include/xme/core/algorithm/find.hpp"],[("vector compare and mask","find_simd")])
na("C24","Reversal is exact","Reversing a range yields the same elements in opposite order for every length and is its own inverse.",["include/xme/core/algorithm/reverse.hpp"],[("vector shuffles","reverse_simd")])
p("C25","Pair and Tuple are products of their members, also when one fails",
  "Element access, assignment, comparison, conversion, swap, concatenation and apply act on exactly the members, in order, and preserve value category: members of lvalues are kept and copied, members of rvalues are moved from, references stay references. Every member is constructed once and destroyed once. If building, copying or assigning a member throws, that exception reaches the caller, the members already built are destroyed and nothing else is affected.",
  ["histories","fault_sequences","inputs"],
  "All histories over several objects and member types (trivial, move-only, memory-owning, references), with a failure injected at any member operation or allocation.",
  "Tests use int and float members, whose operations cannot fail and whose moves are copies.",
  ["include/xme/container/pair.hpp","include/xme/container/tuple.hpp","private/container/tuple_base.hpp"],[("indexed members","TupleElement"),("member-wise operations","Pair, Tuple, tuple_cat, apply")],["member special member calls, values, exceptions at the caller"])
p("C26","Binding arguments equals calling with them, also when that fails",
  "Calling a front- or back-bound callable calls the original exactly once with the bound arguments placed before or after the call's own, passed with the value category of the bound object, and returns its result. Bound arguments and callable are stored as copies independent of their source, constructed and destroyed exactly once, and kept unchanged by calls of an lvalue. If copying a bound argument or the call itself throws, that exception reaches the caller and nothing leaks.",
  ["histories","fault_sequences","inputs"],
  "All histories of binding, copying, moving and calling with failures injected at any copy, move, allocation or call.",
  "Tests bind a few ints to a lambda once and nothing fails.",
  ["include/xme/core/functional/bind.hpp"],[("stored tuple of arguments","BindFront, BindBack")],["calls received, special member calls of bound objects, exceptions"])
na("C27","Iterator adaptors preserve the order and identity of elements","Reverse and constant iterators visit the elements of the adapted iterator in reverse or the same order, compare consistently with their positions, and never grant write access through the constant one.",["include/xme/core/iterators/reverse_iterator.hpp","include/xme/core/iterators/const_iterator.hpp"],[("wrapped iterator","ReverseIterator, ConstIterator")])
na("C28","Views denote exactly the elements they were made from","An array view and its sub-views, first, last and byte views denote exactly the specified elements of the viewed storage, for every size and offset within bounds.",["include/xme/container/array_view.hpp"],[("pointer and extent","ArrayView")])
na("C29","Aligned storage and traits tell the truth","Aligned storage starts at a multiple of the requested alignment, and type traits, concepts and bit helpers give the answer of their definition for every type or value.",["include/xme/container/aligned_data.hpp","include/xme/core/bit/has_single_bit.hpp","include/xme/core/concepts/arithmetic.hpp","include/xme/core/type_traits/is_scoped_enum.hpp"],[("compile-time definitions","AlignedData, has_single_bit")])
import re
for q in P:
    n=len(re.findall(r'[.](?:\s|$)',q["statement"])); assert n<=3,(q["id"],n)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(q)+'\n' for q in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P: jsonschema.validate(q,s)
print(len(P))
