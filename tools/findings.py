"""Writes known_findings.txt from the fix: commits of /repo (the property each belongs to is listed here)."""
import subprocess, sys
PROP = {
 'LinkedList moves take':'C21','finds no address when':'H02','list-constructible functors':'F01','a tuple can be an element':'C15',
 'Array grows geometrically':'C05','subview<Offset, Count>':'C10','lerp by an unsigned':'M03',
 'qualify forward_as_tuple':'C15',
 'uninitialized_copy_a destroys':'C20','Array constructs elements in new storage':'C02','Array insertions accept a value':'C01','Array::erase moves':'C02','Array range insert no longer':'C02','single-pass input iterators':'C01','container headers name range-v3':'C10','ArrayView::subview precondition':'C10','LinkedList constructors release':'C09','ReverseIterator orders':'C17','find loads unaligned':'A01','find compares bits only':'A01','find never forms':'A01','find vectorises 64-bit':'A01','Tuple elements are reachable':'C14','bindFront and bindBack of':'F06','reverse uses SIMD only':'A02','Delegate can be copied':'F01','Delegate stores a decayed':'F01','Delegate keeps functors':'F02','Delegate::handle returns':'F01','AlignedData default construction':'C16','rvalue access to a tuple':'C14','perspective selects':'M11','frustum matrices divide':'M11','ortho matrices scale':'M11','environment functions pass':'H01','SharedLibrary passes':'H02','SharedLibrary closes':'H02','SharedLibrary::proc_address':'H02','ConstIterator converts':'C18','bind_front and bind_back let':'F03','Delegate assignment lets':'F02','AlignedData construction lets':'C16','Pair assignment lets':'C14','ScopedDelegate construction lets':'F04','to_unsigned accepts':'U01','Matrix 4x4 converts':'M06','Matrix products accept':'M07','rotate does not round':'M10','Matrix converts columns':'M06','Heap can be built from ranges':'C06','element access of a const rvalue':'C14','tuple_element keeps the constness':'C14','Tuple and Pair comparisons let':'C14','find over a range lets':'A01','reverse lets exceptions':'A02','Heap lets exceptions':'C06','whose sentinel is not an iterator':'A01'}
WHAT = [('LinkedList moves take', 'move construction and assignment of a LinkedList took the nodes but not the allocator they came from: they were later freed by another allocator'), ('finds no address when', 'proc_address of a closed or never opened SharedLibrary searched the whole program (dlsym with a null handle)'), ('list-constructible functors', 'a small functor constructible from std::initializer_list of its own type was built through that constructor (g++)'), ('a tuple can be an element', 'Tuple<Tuple<...>, X>, tuple_cat and bind_front with a tuple first did not compile (the conversion to an aggregate recursed)'), ('Array grows geometrically', 'appending many short ranges one after the other reallocated every time (linearly, not logarithmically often)'), ('subview<Offset, Count>', 'subview<1, SIZE_MAX>() and other static requests whose sum wraps were accepted and yielded a window outside the view'), ('lerp by an unsigned', 'lerp(a, b, 2u) gave a * 4294967295 + ... because 1 - 2u wraps'), ('tuple_element keeps the constness', 'std::tuple_element of a Tuple with a const int element named int: structured bindings of such a tuple did not compile'), ('qualify forward_as_tuple', 'tuple_cat did not compile (ambiguous call) for tuples with elements from namespace std, such as std::string or std::array'), ('uninitialized_copy_a destroys', 'a throwing element copy destroyed elements of the source (the cleanup walked the input range) and leaked the constructed ones'), ('Array constructs elements in new storage', 'push_back or reserve on an Array of a non-trivial type assigned to uninitialised memory and never destroyed the old elements'), ('Array insertions accept a value', 'push_back(a[i]) or insert(pos, a[i]) at full capacity read a freed element, or a shifted one'), ('Array::erase moves', 'erase destroyed the erased element and then assigned to it, and never destroyed the vacated last one'), ('Array range insert no longer', 'insert(pos, first, last) constructed over live elements and assigned to raw memory'), ('single-pass input iterators', 'a single-pass source was consumed while its length was computed, so nothing was inserted'), ('container headers name range-v3', 'array_view.hpp did not compile after a header that opens xme::ranges'), ('ArrayView::subview precondition', 'subview(offset, count) with offset + count wrapping 2^64 was accepted and yielded a window outside the view'), ('LinkedList constructors release', 'a throwing element constructor in a LinkedList constructor leaked all nodes made so far'), ('ReverseIterator orders', 'r1 < r2 held for positions in the opposite of the iteration order'), ('find loads unaligned', 'find on elements not aligned to 16 or 32 bytes executed an aligned vector load (fault)'), ('find compares bits only', 'find compared object bytes for floating-point (0.0 and -0.0, NaN) and class types whose == is not bitwise'), ('find never forms', 'find advanced an iterator beyond the end of the range when deciding whether another vector fits'), ('Tuple elements are reachable', 'in C++23 with explicit object parameters every access to a tuple of two or more elements was ambiguous and did not compile'), ('bindFront and bindBack of', 'in C++23 with explicit object parameters bind.hpp did not compile, and bindBack<f> put its bound arguments first'), ('find vectorises 64-bit', 'with only SSE2 enabled find over 64-bit elements used an SSE4.1 comparison and did not compile for the target'), ('reverse uses SIMD only', 'reverse of 16- and 32-bit elements in a vectorised build reversed bytes or skipped elements'), ('Delegate can be copied', 'copying a Delegate did not compile or shared the callable'), ('Delegate stores a decayed', 'Delegate(lvalue functor) stored a reference type and did not compile or dangled'), ('Delegate keeps functors', 'a non-trivially-copyable functor in the local storage was relocated bytewise by move and swap, and never destroyed'), ('Delegate::handle returns', 'handle<T>() of a heap-stored functor returned the address of the pointer instead of the functor'), ('AlignedData default construction', 'AlignedData<T>() needed a default constructor of T; copies of a non-const AlignedData chose the variadic constructor'), ('rvalue access to a tuple', 'get<I>(std::move(t)) of an element of type T&& did not compile'), ('perspective selects', 'perspective() gave the right-handed matrix when XME_MATH_CLIP_LH is defined'), ('frustum matrices divide', 'an off-centre frustum divided (right + left) by (right + left): corners were not mapped to the clip cube'), ('ortho matrices scale', 'ortho did not scale the depth and put the translation into the last row: corners were not mapped to the clip cube'), ('environment functions pass', 'an unterminated view as name or value read on to the following bytes (another variable was read, set or removed)'), ('SharedLibrary passes', 'an unterminated view as library or symbol name read on to the following bytes'), ('SharedLibrary closes', 'a moved-from or reopened SharedLibrary closed a handle twice, or leaked the earlier one'), ('SharedLibrary::proc_address', 'proc_address<T> returned void* and did not compile for function types'), ('ConstIterator converts', 'the converting constructor and assignment did not compile'), ('bind_front and bind_back let', 'an exception from copying a bound argument called std::terminate (noexcept)'), ('Delegate assignment lets', 'an exception from copying the callable during assignment called std::terminate (noexcept)'), ('AlignedData construction lets', 'an exception from the constructor of T called std::terminate (noexcept)'), ('Pair assignment lets', 'an exception from an element assignment called std::terminate (noexcept)'), ('ScopedDelegate construction lets', 'an exception from copying the callable called std::terminate (noexcept)'), ('to_unsigned accepts', 'to_unsigned of a 128-bit integer did not compile'), ('Matrix 4x4 converts', 'Matrix<T,4,4>(Matrix<U,4,4>) did not compile or kept only some elements'), ('Matrix products accept', 'products of matrices and vectors of different element types did not compile'), ('rotate does not round', 'rotate about an axis of integral type truncated 1 - cos(angle) to zero'), ('Matrix converts columns', 'Matrix(columns of different element types) did not compile although its deduction guide exists'), ('Heap can be built from ranges', 'Heap(range) of a range without size(), such as std::forward_list, take_while or a single-pass source, did not compile'), ('element access of a const rvalue', 'get<I>(std::move(const_tuple)) gave a const lvalue, and const rvalue binders passed lvalues while their noexcept was computed for rvalues'), ('Tuple and Pair comparisons let', 'an exception from an element comparison called std::terminate (noexcept)'), ('find over a range lets', 'an exception from == in find(range, value) called std::terminate (noexcept)'), ('reverse lets exceptions', 'an exception from exchanging elements in reverse called std::terminate (noexcept)'), ('Heap lets exceptions', 'an exception from the comparison or an element move in push, emplace or pop called std::terminate (noexcept)'), ('whose sentinel is not an iterator', 'with SSE or AVX2 enabled find and reverse of contiguous ranges with a non-iterator end (a terminator, a bound) did not compile; the scalar builds accept them')]
log = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
out = ['# known: property=ID match=REGEX text   (suppresses exactly that violation; none at present)','# fixed: property=ID commit what failed  (suppresses nothing)']
for l in log:
    h, m = l.split(' ',1)
    if not m.startswith('fix: '): continue
    k = [v for q,v in PROP.items() if q in m]; assert len(k)==1, (m,k)
    w = [t for q,t in WHAT if q in m]; assert len(w)==1, m
    out.append(f'fixed: property={k[0]} {h} {w[0]} ({m[5:]})')
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n'); print(len(out)-2)
