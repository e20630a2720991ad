prop('C01', 'Array holds exactly the sequence its operations describe',
 'After any sequence of constructions, push_back, emplace_back, insert, erase, pop_back, clear, reserve, resize and list assignments, an Array holds exactly the sequence of values that those operations describe on a mathematical sequence, in that order, however it is observed (index, iterators, data, front, back, size, empty). insert and erase return the position of the first inserted element, or of the element after the erased ones. This also holds when the inserted value is an element of the array itself, and when the inserted range is single-pass.',
 [I, H], 'every operation, position, source length and element value, from every size and spare capacity, and every short history of operations', 'The tests run one scripted sequence of int operations; they cannot try every position against every size and spare capacity, or sources that alias the array.',
 [A, 'include/xme/container/icontainer.hpp', UN], M(('insertion: gap opening, growth and aliasing', f'{A} (push_back, insert, emplace_back)'), ('erase', f'{A} (erase)')),
 'Each operation is executed on the real Array from every (size, capacity) state, the position and lengths enumerated as solver-forked choices and the values symbolic, and compared with a reference sequence; then two further insertions prove that the result is still usable.')
prop('C02', 'Array constructs and destroys each element exactly once, in memory it owns',
 'No Array operation ever assigns to, reads or destroys storage that holds no element, constructs over a live element, uses released memory, or accesses memory outside the block it obtained. When the array and everything made from it are gone, each element ever constructed has been destroyed exactly once and each block released exactly once with the size it was obtained with.',
 [I, H], 'every operation from every size and spare capacity and every short history, for an element type with non-trivial construction, assignment and destruction', 'The tests use int elements without sanitizers; a lifetime error on them has no visible effect.',
 [A, UN, DE], M(('reallocation', f'{A} (reserve, resize)'), ('element shifting', f'{A} (insert, erase)')),
 'The C01 operations run over an element type that records its own lifetime and address; the engine additionally checks every load, store, free and uninitialised byte.')
prop('C03', 'Array survives exceptions of element operations and allocations',
 'If an element operation (copy, move, conversion) or an allocation fails by exception during any Array operation, the exception reaches the caller, no element or block leaks, none is destroyed or released twice, and the array can still be used and destroyed. A failing constructor leaves nothing behind; a failing copy assignment leaves the target unchanged; a failing append at the end leaves the contents unchanged.',
 [F], 'every position of one failure (element operation or allocation) during every operation from every small state', 'No test throws; the failing position is a quantifier over all element operations of an operation.',
 [A, UN], M(('guards around construction', f'{A} (constructors, reserve, push_back, insert)'), ('uninitialized_copy rollback', UN)),
 'The failing operation index and the failing allocation index are enumerated as forked choices, the exception is unwound by the engine through the real landing pads.')
prop('C04', 'Array copies are independent, moves transfer, swap exchanges',
 'Copying an Array yields an equal array that no later change to the source affects and vice versa; moving transfers the contents without copying or moving elements and leaves the source valid and empty; swap exchanges both contents; self-assignment and self-swap change nothing.',
 [I, H], 'every pair of small arrays with any spare capacity, each copy, move, assign and swap, followed by any change to either side', 'The tests copy one fixed array and do not mutate it afterwards in all ways.',
 [A], M(('copy and move members', f'{A} (constructors, operator=, swap)')), 'Two reference sequences are kept next to the real arrays; the operation and the subsequent mutation are forked choices.')
prop('C05', 'Array capacity, iterator validity and amortised growth',
 'capacity is never less than size; reserve(n) yields a capacity of at least n and never shrinks, resize(n) sets the capacity to n and keeps the first min(size, n) elements, clear and pop_back keep the capacity. As long as the size stays within the capacity no operation reallocates, so positions before the change stay valid; repeated push_back reallocates only a logarithmic number of times.',
 [I, H], 'every size, capacity and request within bounds', 'The tests check capacity after a handful of literal calls.',
 [A], M(('growth policy', f'{A} (next capacity, reserve, resize)')), 'Capacity, data pointer and the number of allocations are asserted after each operation from every state.')
prop('C06', 'Heap always yields its greatest element and loses none',
 'After any sequence of construction, push, emplace and pop, the front of a Heap is an element no other one exceeds under its comparison, and the heap holds exactly the multiset of values pushed and not yet popped; hence popping until empty yields the values in order. The same holds for the reversed comparison and for move-only or tracked elements. If a comparison, an element construction or an allocation throws, the exception reaches the caller, nothing is leaked or destroyed twice and the heap remains usable; a push whose element or storage cannot be made leaves the heap as it was.',
 [I, H], 'all key values (not just a few permutations) and all push/pop interleavings within bounds', 'The tests push a few fixed ints; a sift defect needs particular relative orders of particular depths.',
 [HE, A], M(('heapfy_up / heapfy_down', HE)), 'Keys are symbolic, so every comparison forks and all relative orders are covered; contents are compared as a multiset with a reference, and each pop with the reference maximum.')
prop('C07', 'Heap push and pop use logarithmically many comparisons',
 'A push or a pop on a heap of n elements makes O(log n) comparisons, whatever the contents and the new value.',
 [I], 'every heap-ordered content of the listed sizes and any new key', 'No test counts comparisons, and the worst case depends on the key order.',
 [HE], M(('heapfy_up / heapfy_down', HE)), 'A counting comparator over symbolic keys; on every path the count is asserted to be at most 3*ceil(log2(n+1))+3.')
prop('C08', 'LinkedList holds exactly the sequence its operations describe',
 'After any sequence of constructions, push_front, emplace_front, insert_after, emplace_after, erase_after, pop_front, reverse, clear, assignments, copies and moves a LinkedList holds exactly the sequence those operations describe, and traversal visits each element once in order; a list that was moved from, by construction or assignment, is empty and usable. The returned iterator designates the (last) inserted element, also when the inserted value is an element of the list or the inserted range is single-pass or empty.',
 [I, H], 'every operation at every position from every small list, and short histories', 'The tests run one scripted sequence.',
 [LL, LB], M(('node linking', f'{LL} (insert_after, erase_after)'), ('base', LB)), 'Each operation runs on the real list from every small state with symbolic values against a reference sequence.')
prop('C09', 'LinkedList frees every node and element exactly once, also on failure',
 'Every element constructed in a LinkedList is destroyed exactly once and every node released exactly once, whatever sequence of operations ran; erased or moved-from nodes are never used again. If an element operation or an allocation throws, nothing leaks, nothing is freed twice, and the list remains usable.',
 [H, F], 'every operation from every small list, every position of one failure', 'No test throws or tracks lifetimes.',
 [LL, LB], M(('node allocation and rollback', LL)), 'Lifetime-tracked elements, counted heap, one fault at a forked position, unwinding executed symbolically.')
prop('C10', 'ArrayView windows are exact and out-of-range requests are refused',
 'An ArrayView designates exactly the elements of the range it was built from; subview, first and last (static and dynamic) designate exactly the requested window of it, and byte views exactly the bytes of its elements, without copying. With assertions enabled a request that does not fit, for any 64-bit offset and count, is refused and never yields a window that reaches outside.',
 [I], 'all offsets and counts (2^64 each), views of 0 to 4 elements, static and dynamic extents', 'The tests use fitting constant windows; the wrap-around of offset + count needs particular 64-bit values.',
 [AV], M(('subview / first / last preconditions', AV)), 'Offset and count are free 64-bit variables; the assert handler is replaced by one that ends the path as refused, and accepted paths must fit.')
prop('C11', 'SPSCQueue is a FIFO that refuses pushes when full and pops when empty',
 'Used from one thread, an SPSC queue returns values in the order they were accepted, each exactly once and unchanged; a push into a full queue and a pop or consume from an empty one report failure and change nothing. This holds across any number of wrap-arounds of the ring, for all queue kinds and capacities.',
 [I, H], 'every push/pop/consume history within bounds from every rotation of the ring', 'The tests push a few values in order; wrap-around with every fill level is not reached.',
 [SQ, SB], M(('ring indices', SB)), 'Histories of forked steps with symbolic values against a reference FIFO, from each rotation.')
prop('C12', 'SPSCQueue is race-free and FIFO between one producer and one consumer',
 'With one producer and one consumer thread, in every interleaving allowed by the C++ memory model the consumer receives exactly the accepted values, each once, in order and completely written; there is no data race on element storage. A failed push or pop happens only if the queue can be full or empty from that thread\'s point of view.',
 [S, I], 'every interleaving and every release/acquire visibility choice for short runs, symbolic values', 'A test observes one schedule of one (x86, strongly ordered) machine.',
 [SQ, SB], M(('acquire/release head and tail', SB)), 'The engine forks on every schedule point and on which visible write each atomic load reads (view-based release/acquire model) and reports races on non-atomic data.')
prop('C13', 'SPSCQueue element lifetimes and failures',
 'Every element accepted by a queue is destroyed exactly once: when popped or consumed, or when the queue is destroyed, and never before it was constructed. If constructing an element or the consuming function throws, no element is lost, duplicated, leaked or left half-published, and the queue remains usable: the element offered to a function that throws stays queued.',
 [H, F], 'every fill level and rotation, one throwing constructor or consumer call', 'No test throws or tracks lifetimes.',
 [SQ, SB], M(('emplace / consume', SQ)), 'Lifetime-tracked elements with a forked failing operation.')
prop('C14', 'Pair and Tuple access, assignment, swap and comparison are element-wise',
 'get, structured bindings and members reach exactly the element they name with the value category and constness of the tuple; assignment and swap act on each element exactly once; == and < compare lexicographically as the elements compare, passing on exceptions of element comparisons. Construction from values, other pairs or tuples converts each element once and preserves references.',
 [I, PR], 'all element values over a list of element type shapes (including empty, reference and tracked types)', 'The tests compare a few constants.',
 [TU, PA, TB], M(('storage and get', f'{TU}, {TB}')), 'Symbolic element values; identity is checked by address, categories by static assertions, comparisons against the element-wise definition.')
prop('C15', 'Tuple concatenation, apply, make and conversion keep every element',
 'tuple_cat yields the elements of all arguments in order, forwarding each exactly once with its category; apply passes exactly the elements in order, once, with the category of the tuple, calling the function with its own category; make_tuple, tie and forward_as_tuple build tuples of exactly their arguments (reference wrappers unwrapped), and conversions to pairs, arrays and aggregates keep each element.',
 [I, PR], 'all element values over listed shapes of up to three concatenated tuples', 'The tests concatenate a few constants.',
 [TU, TB], M(('tuple_cat, apply', TU)), 'Symbolic values, tracked copies and moves counted.')
prop('C16', 'AlignedData gives aligned, uninitialised, non-owning storage',
 'The storage of an AlignedData<T, A> is aligned to A wherever the object itself may live and lies inside the object; data and address agree; construction from arguments constructs one T from exactly these (letting its exceptions through), default construction constructs none, and no element is ever destroyed by it.',
 [I], 'every permitted address of the enclosing object, symbolic contents, listed types and alignments', 'The tests see whatever address the stack happens to give.',
 [AD], M(('storage member', AD)), 'Objects are placed in engine-allocated memory whose base address is symbolic modulo the type alignment.')
prop('C17', 'ReverseIterator is the exact mirror of its base iterator',
 'For every position of a range, a reverse iterator dereferences to the element before its base, moves opposite to it, and measures and compares distances mirrored; all random-access identities hold for any offset that stays in range. Arrow, index, conversion, iter_move and iter_swap reach the same element as the dereference.',
 [I], 'every position and offset in ranges of up to 4 elements over three kinds of base iterators', 'The tests walk one array.',
 [RI], M(('operators', RI)), 'Offsets are symbolic 64-bit values constrained to the range; results compared by element address.')
prop('C18', 'ConstIterator is its base iterator with read-only access',
 'A const iterator visits the same elements at the same positions as its base, with every increment, offset, difference, index and comparison (with const iterators and with base iterators) agreeing with the base; it only gives const access, and converts from convertible iterators.',
 [I], 'every position and offset in ranges of up to 4 elements over three kinds of base iterators', 'The tests walk one array.',
 [CI], M(('operators', CI)), 'As C17.')
prop('C19', 'Array iterators satisfy the random-access identities',
 'For every pair of positions in an Array, iterator arithmetic, indexing, differences, ordering and the conversion to const iterators agree with the element indices, for any offset that stays inside the array.',
 [I], 'all pairs of positions and offsets in arrays of up to 4 elements', 'The tests use begin and end only.',
 [A], M(('Iterator', A)), 'Symbolic offsets, comparison with index arithmetic and element addresses.')
prop('C20', 'Uninitialised-memory algorithms construct and destroy exactly what they say',
 'uninitialized_copy and uninitialized_fill construct exactly the described elements, in order, through the allocator, and return the described ends; if one construction throws, all elements they constructed are destroyed and the exception is passed on. The destroy algorithms destroy exactly the given elements once.',
 [I, F], 'source and destination lengths 0..3, every position of one failing construction', 'These algorithms have no tests of their own.',
 [UN, DE], M(('construct guards', UN), ('destroy loops', DE)), 'Tracked elements with a counting allocator and a forked failing construction.')
prop('C21', 'Containers give every block back to the allocator it came from',
 'Every block an Array, Heap, LinkedList or SPSCQueue obtains is released exactly once, with the size it was requested with, through an allocator equal to the one that provided it, and the elements of an Array are constructed and destroyed through that allocator; this holds for stateful allocators that propagate on swap over any history of copies, moves, assignments, swaps, insertions and resizes, and when an element operation throws. An allocator given to a constructor provides all of the array\'s storage from then on.',
 [I, H, F], 'every short history over two arrays with different allocators, every constructor, every position of one failing element operation', 'No test uses an allocator of its own; std::allocator ignores both identity and size.',
 [A, LL, HE, SB, DE, UN], M(('allocator and storage travel together', f'{A} (swap, constructors)'), ('deallocate with the capacity', f'{A} (grow_storage, shrink_storage, realloc_insert)')),
 'An allocator with an identity registers every block and element; histories are forked choices over two arrays whose allocators differ.')
prop('C22', 'Rvalue arguments are moved, lvalue arguments copied once and left alone',
 'Every operation that takes an element (push, push_back, push_front, emplace, insert, insert_after, make_pair, make_tuple, element-wise assignment, construction in place) moves from an rvalue and makes no copy of any element, and copies an lvalue exactly once and leaves it unchanged; a refused argument is neither copied nor moved from. Whole ranges are copied or, through moving iterators, moved element by element; growth, shifting, heap and list reordering, moves, swaps and removals copy nothing. So every container works with move-only elements.',
 [I, PR], 'every operation and position over small containers, each argument category, symbolic values', 'The tests use ints, for which a copy and a move are the same.',
 [A, HE, LL, SQ, SB, TU, PA, AD], M(('forwarding of element arguments', f'{A}, {HE}, {LL}, {SQ} (push, insert, emplace)'), ('move_if_noexcept relocation', A)),
 'Elements count copies and moves; the category of the argument, the operation and the state are forked choices.')
prop('C23', 'Iterators and accessors of the containers name the element at their position',
 'Walking a LinkedList from begin to end, by mutable or constant iterators, by prefix or postfix increment or by range-for, visits each element exactly once, in order, starting after before_begin; an iterator converts to the constant iterator of the same position, equality of iterators is equality of positions, and writing through a mutable iterator changes exactly that element. front, back, indexing, data, begin, end, empty and size of Array, ArrayView and Heap, on constant and mutable objects, name the same elements. Iterators and references to other elements stay valid over list insertions and erasures.',
 [I], 'every container length, position and element value within bounds', 'The tests iterate one list and index fixed positions of int arrays, by one kind of iterator.',
 [LL, LB, 'include/xme/container/icontainer.hpp', A, AV, HE], M(('list iterators', f'{LB} (ForwardIterator, ForwardConstIterator)'), ('accessor mixin', 'include/xme/container/icontainer.hpp')),
 'Element addresses and values are recorded while the container is built and compared with what each kind of walk and accessor yields; values are symbolic, lengths and positions forked choices.')
prop('A01', 'find returns the first match and never looks outside the range',
 'find returns the first position whose element equals the value, or the end if there is none, exactly as a linear search with == does, for every element type, length, alignment and content, every kind of iterator and end marker (also ends that are not iterators), in the scalar and in every vectorised build. It never reads outside the range, and an exception of a comparison reaches the caller.',
 [I, CF], 'all contents and needles, lengths around every vector width, every alignment, four build configurations (scalar, SSE2 alone, SSE4.2, AVX2)', 'The tests search a few arrays in one build; a defect in a vector lane or remainder shows for one position and content only.',
 [FI], M(('SIMD loops and remainder', FI)), 'The vector intrinsics are executed symbolically; elements and needle are free variables, the block ends at its allocation so that over-reads fault; compared with the linear-search definition.')
prop('A02', 'reverse mirrors every element and touches nothing else',
 'reverse leaves at position i the element that was at position n-1-i, for every length, element type, alignment and content, in scalar and vectorised builds, and changes no byte outside the range; an exception of an element exchange reaches the caller with every element still alive.',
 [I, CF], 'all contents for the listed lengths, four build configurations (scalar, SSSE3, SSE4.2, AVX2)', 'The tests reverse a few lengths in one build.',
 [RE], M(('SIMD swap loop', RE)), 'Contents are free; every position is compared and guard bytes checked.')
prop('F01', 'Delegate calls exactly the callable it holds',
 'Invoking a Delegate calls the callable last stored in it, with the given arguments forwarded and its result returned; emptiness and handle reflect what it holds, and calling an empty one throws; copies hold an independent copy, moves and swaps transfer. This holds for plain functions, members, and function objects of any size, alignment and copy cost, over any history of assignments.',
 [I, H], 'all argument and state values and all short histories over three delegates', 'The tests call a few delegates once.',
 [DL], M(('local and heap storage', DL)), 'A model keeps which target each delegate holds; histories of forked operations over real delegates.')
prop('F02', 'Delegate owns its callable: no leak, no double destruction, safe on failure',
 'Every function object stored in a Delegate is destroyed exactly once and its memory released, over any history of copies, moves, swaps, assignments and destructions, including self-assignment; a function object given as an rvalue is moved in, one given as an lvalue is copied once. If copying a callable or allocating throws, the exception reaches the caller, nothing leaks and both delegates remain valid.',
 [H, F], 'every short history over two delegates and every position of one failure', 'No test tracks lifetimes or throws.',
 [DL], M(('storage management', DL)), 'Lifetime-tracked functors of every storage class and heap accounting in the engine.')
prop('F03', 'bind_front and bind_back forward bound and call arguments in order',
 'Calling the result of bind_front(f, a...) with b... invokes f(a..., b...), of bind_back f(b..., a...), once, with each bound argument passed with the value category of the binder, the result returned as it is and exceptions passed on. The binder owns copies of the bound arguments (std::ref binds a reference).',
 [I, PR], 'all values, 0..3 bound and call arguments, each binder category, one failing copy', 'The tests call one or two binders with constants.',
 [BI], M(('Binder call operators', BI)), 'Symbolic arguments, call records compared with the definition.')
prop('F04', 'ScopedDelegate runs its callable exactly once when the scope ends',
 'A ScopedDelegate invokes its callable exactly once, when it is destroyed, however the scope is left (end, return, break, exception), in reverse order of construction for nested ones, and never before.',
 [PR, F], 'each way of leaving the scope, nesting up to depth 3, symbolic state', 'The tests leave one scope normally.',
 [SD], M(('destructor', SD)), 'The scope exits are forked; unwinding is executed by the engine.')
prop('F05', 'forward_like gives the value category and constness of the model type',
 'forward_like<T>(x) refers to x itself, is an lvalue exactly when T is an lvalue reference, and is const exactly when T or x is const.',
 [I, PR], 'all combinations of categories and constness', 'The tests check some of the combinations.',
 [FL], M(('forward_like', FL)), 'Address identity on symbolic objects and type assertions for all combinations.')
prop('F06', 'Binders of a constant function behave as the run-time binders',
 'bindFront<f>(bound...) called with arguments calls f with the bound arguments before the call arguments, bindBack<f> with them after, in order, for functions, members and functors; bound arguments are stored by value (reference wrappers refer), copied once from an lvalue and moved from an rvalue, passed with the value category of the binder, and destroyed once, also when a copy throws.',
 [I, PR, F], 'every argument value, up to three bound and call arguments, every category, one failing copy', 'The tests do not reach it: the form needs a C++23 compiler with explicit object parameters.',
 [BI, FL], M(('bindFront, bindBack of a template argument', BI)), 'Symbolic argument values against a direct call; copies, moves and lifetimes counted; compiled by clang 18 with the feature-test macro given, as it implements explicit object parameters without announcing them.')
prop('M01', 'Vector arithmetic and comparison act component by component',
 'For vectors of any dimension and element type, +, -, *, / (with a vector or a scalar, in plain and compound form), and unary - give in each component exactly the element-type operation of the operands\' components, also when the operand aliases the vector. == holds exactly when all components are equal and the ordering is lexicographic.',
 [I], 'every bit pattern of the components, dimensions 1..5 and 7, six element types', 'The tests check a few constants for 2..4 dimensions.',
 [MV, V2, V3, V4], M(('operators of the generic and the special vectors', f'{MV}, {V2}, {V3}, {V4}')), 'IEEE bit-exact solver terms; the result is compared with the same operation on each component.')
prop('M02', 'Vectors are built, converted and indexed component by component',
 'A vector built from scalars, from a fill value, from another vector (shorter plus values, or of another element type) has exactly the described components, converted as a static cast would; index i and the component names reach the same component, and writing one changes no other; with assertions enabled an index past the last component is refused.',
 [I], 'every argument value, index, dimension and element type of the lists', 'The tests read back a few constants.',
 [MV, V2, V3, V4], M(('constructors and operator[]', f'{MV}, {V2}, {V3}, {V4}')), 'Bit-exact comparison of each component.')
prop('M03', 'dot, cross, reflect, faceforward, lerp and mix follow their formulas',
 'dot is the sum of the component products; cross is orthogonal to both operands with the right-handed components; reflect(i, n) is i - 2 dot(n, i) n; faceforward returns n or -n according to the sign of the dot product when that is not zero; lerp and mix interpolate a + (b - a) t, or select per component for boolean factors. The values agree with the real-number formulas up to rounding.',
 [I], 'every operand in the bounded box as real numbers; exactly over unsigned integers', 'The tests compute a few constants.',
 [VG, VF, V3, 'include/xme/math/glsl_mapping.hpp'], M(('dot, cross, reflect', VG), ('lerp, mix', VF)), 'Operands are real-valued solver variables; the polynomial identity between the result and the formula is decided by Z3 (nonlinear real arithmetic), rounding excluded.')
prop('M04', 'length, distance and normalize are the Euclidean ones',
 'length is the non-negative square root of the sum of squares, distance the length of the difference, and normalize a vector of length one in the same direction, for each dimension.',
 [I], 'every vector in the bounded box as real numbers', 'The tests use one or two vectors.',
 [VG, MV, V2, V3, V4], M(('length, distance, normalize', VG)), 'sqrt is the exact non-negative root, constrained by its square.')
prop('M05', 'sign is -1, 0 or 1 with the sign of its argument',
 'sign(x) is 1 for positive, -1 for negative and 0 for zero arguments, of every arithmetic type, and acts on vectors component by component.',
 [I], 'every value of each type', 'No test covers every value; unsigned, minimum and NaN need particular ones.',
 [SF, VF], M(('sign', SF)), 'Bit-exact over all values.')
prop('M06', 'Matrix elements: construction, access, rows, columns, element-wise operators',
 'A matrix built from columns, elements, a diagonal or another matrix (of any convertible element type) has exactly the described elements; m[c][r], row and column name the same elements and a write changes no other; +, -, unary -, scalar * and /, == and the compound forms act on each element exactly. The GLSL names (vec3, mat4x3, ...) denote the vectors and matrices of that element type, columns and rows.',
 [I], 'every element value, listed shapes and element types', 'The tests read back constants for a few shapes.',
 [MM, M4, MF, 'include/xme/math/glsl_mapping.hpp'], M(('constructors, element-wise operators', f'{MM}, {M4}'), ('row, column', MF)), 'Bit-exact comparison of each element.')
prop('M07', 'Matrix products are the linear-algebra ones',
 'Element (c, r) of a matrix product is the sum over k of a[k][r] * b[c][k], a matrix times a vector is the corresponding sum, for all conforming shapes and mixed element types; products compose, and the identity is neutral. The values agree with the real-number formulas up to rounding.',
 [I], 'every element value in the box, square and rectangular shapes', 'The tests multiply a few constants.',
 [MM, M4], M(('operator*', f'{MM}, {M4}')), 'Polynomial identities over reals, decided for every element of the result.')
prop('M08', 'determinant is the determinant',
 'determinant of a 2x2, 3x3 or 4x4 matrix equals the alternating sum over permutations; it is multiplicative in each column, changes sign when columns are exchanged and is 1 for the identity.',
 [I], 'every element in +-4 as real numbers', 'The tests compute single matrices; a wrong cofactor sign shows only for particular elements.',
 [MF], M(('determinant', MF)), 'Polynomial identity against the Leibniz formula.')
prop('M09', 'transpose, outer product and component-wise matrix product',
 'transpose exchanges rows and columns, outer_product(c, r) has element c[i] * r[j] at row i and column j, and hadamard_product multiplies matching elements, for all shapes, exactly.',
 [I], 'every element value, listed shapes', 'The tests use single matrices.',
 [MF], M(('transpose, outer_product, hadamard_product', MF)), 'Bit-exact comparison of each element.')
prop('M10', 'translate, scale and rotate post-multiply the described transformation',
 'Applying translate(m, v), scale(m, v) or rotate(m, angle, axis) to a point gives m applied to the moved, scaled, or (right-handed, about the unit axis) rotated point; scale and rotate keep the last column of m, translate all others. Rotations about a coordinate axis are orthogonal with determinant one and keep the axis.',
 [I], 'every matrix, vector and angle within the box as real numbers', 'The tests rotate by a few constant angles about coordinate axes.',
 [MT], M(('translate, scale, rotate', MT)), 'Polynomial identities with sin and cos as variables constrained by sin^2 + cos^2 = 1.')
prop('M11', 'Projection matrices map the view volume onto the clip cube',
 'perspective (by field of view or by frustum edges) and ortho, in right- and left-handed form, map each corner of the view volume to the corresponding corner of the clip cube [-1, 1]^3, with positive w in front of the eye for perspective and w of one for ortho; the unsuffixed functions select the handedness the build configures.',
 [I, CF], 'every frustum and box within the bounds as real numbers, both build configurations', 'No test covers the projections.',
 [MP], M(('perspective_rh/lh, ortho_rh/lh', MP)), 'Corners are chosen by forked choices and the volume by real variables; rational identities decided by Z3.')
prop('M12', 'Quaternion algebra',
 'Quaternions multiply by the Hamilton product, add and subtract component by component, compare lexicographically in w, x, y, z, and are indexed in that order; the product is associative, distributes, preserves norms, and 1 is neutral. A component is changed only through its own name or index.',
 [I], 'every component value (exact over reals for the product, bit-exact otherwise)', 'The tests multiply one or two constants.',
 [Q], M(('operators', Q)), 'Polynomial identities over real variables, bit-exact comparison for the rest.')
prop('M13', 'radians, degrees and the mathematical constants',
 'radians and degrees convert by the factor pi/180 and are mutually inverse up to rounding for every angle; every published constant equals its mathematical value to the precision of its type.',
 [I], 'every angle in +-1e6; every constant in float and double', 'The tests check no constants and one or two angles.',
 [TR, SF, CO], M(('radians, degrees', TR), ('constants', CO)), 'Real-number relation between result and argument decided by Z3; constants are compared with their values to one unit in the last place.')
prop('M14', 'Derived trigonometric functions follow their definitions',
 'sec, csc and cot are the reciprocals of cos, sin and tan, and the inverse functions are the library ones, for every argument off the poles, of floating or integral type.',
 [I], 'every argument in +-6 off the poles as real numbers; every IEEE argument for the inverse functions', 'The tests do not cover them.',
 [TR], M(('sec, csc, cot and inverses', TR)), 'sin, cos and tan are uninterpreted functions with their Pythagorean and quotient laws.')
prop('H01', 'Environment variables: set, get and remove exactly the given name',
 'Reading a variable yields the value last set under exactly that name, or nothing if it is unset or removed; setting and removing affect no other variable, for any name and value given as a character view, terminated or not.',
 [I, H], 'all byte values of short names and values inside larger buffers, short sequences over two names', 'The tests do not cover it; an unterminated view needs particular following bytes.',
 [PL], M(('environment functions', PL)), 'getenv, setenv and unsetenv are replaced by a table in the harness; views lie inside larger symbolic buffers.')
prop('H02', 'SharedLibrary opens what it is told and closes each library exactly once',
 'A SharedLibrary opens exactly the named library (every symbol resolved when it opens, none of them offered to other libraries), reports whether it holds one, looks up exactly the named symbol in it, and closes each library it opened exactly once, over any sequence of opening, closing, moving, self-moving and destruction, also when opening fails or the loader reports an error on closing.',
 [I, H, F], 'all short names inside larger buffers, all sequences of 3 (4) operations over two objects, failing opens', 'No test covers it.',
 [SL, PL], M(('open/close/move', SL)), 'dlopen, dlclose and dlsym are recording stand-ins.')
prop('H03', 'SIMD flag sets behave as sets and match the build',
 'The operators on SIMD instruction-set flags are the set operations for every pair of flag sets, and the published flags contain exactly the instruction sets the build enables, with the implied ones.',
 [I, CF], 'every pair of 32-bit flag sets; sixteen build configurations, one per switch and per target', 'No test covers it.',
 [SI, 'include/xme/setup.hpp'], M(('flags', SI)), 'Bit-vector identities over all pairs; compile-time flags compared with the compiler\'s own.')
prop('U01', 'has_single_bit and to_unsigned',
 'has_single_bit(x) holds exactly for powers of two, for every unsigned type and value; to_unsigned keeps the value modulo 2^N in the unsigned type of the same width.',
 [I], 'every value of every width up to 64 (128) bits', 'The tests check a few values.',
 [HB, TUN], M(('has_single_bit', HB), ('to_unsigned', TUN)), 'Bit-vector equality with the population-count definition.')
NA = [
 dict(id='N01', title='Concepts and type traits classify types as documented', statement='Each published concept and type trait (arithmetic, contiguous and constant iterators, different_from, is_initializer_list, is_scoped_enum, class detection) holds exactly for the types its documentation describes.', over=[PR], text='every C++ type', why='The tests list some types.', files=['include/xme/core/concepts/concepts.hpp', 'include/xme/core/type_traits/is_scoped_enum.hpp'], mech=[], reason='The quantifier ranges over C++ types: concepts and traits are evaluated by the compiler and leave no code in the intermediate representation to execute symbolically, so there is nothing for a solver to decide; listing types would be testing.'),
 dict(id='N02', title='Modules export the same entities as the headers', statement='Importing the module of a part of the library gives access to exactly the entities that including its headers gives.', over=[CF, PR], text='every exported entity', why='One module test imports a few names.', files=['modules/xme.cppm'], mech=[], reason='A property of name export at compile time; no run-time code differs between the two forms, so there is nothing to encode.'),
]
