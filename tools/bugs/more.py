A = 'include/xme/container/array.hpp'; LL = 'include/xme/container/linked_list.hpp'; LB = 'private/container/linked_list_base.hpp'
HE = 'include/xme/container/heap.hpp'; SB = 'private/container/spsc_queue_base.hpp'; AV = 'include/xme/container/array_view.hpp'
TU = 'include/xme/container/tuple.hpp'; PA = 'include/xme/container/pair.hpp'; AD = 'include/xme/container/aligned_data.hpp'
IC = 'include/xme/container/icontainer.hpp'; SD = 'include/xme/core/functional/scoped_delegate.hpp'; BI = 'include/xme/core/functional/bind.hpp'
CI = 'include/xme/core/iterators/const_iterator.hpp'; FL = 'include/xme/core/utility/forward_like.hpp'; TOU = 'include/xme/core/utility/to_unsigned.hpp'
MV = 'include/xme/math/vector.hpp'; V2 = 'include/xme/math/vectors/vector2.hpp'; VF = 'include/xme/math/vectors/functions.hpp'; TR = 'include/xme/math/scalars/trigonometry.hpp'
MM = 'include/xme/math/matrix.hpp'; MF = 'include/xme/math/matrices/functions.hpp'; MT = 'include/xme/math/matrices/transformation.hpp'; MP = 'include/xme/math/matrices/perspective.hpp'
GL = 'include/xme/math/glsl_mapping.hpp'; QU = 'include/xme/math/quaternion.hpp'; SI = 'include/xme/hal/simd_detection.hpp'; SL = 'include/xme/hal/shared_library.hpp'
H = '#include <cstdio>\n#include <cstdlib>\n#include <cstdint>\n#include <new>\n#include <memory>\n#include <utility>\n#include <string>\n#include <vector>\n#include <cmath>\n'
ARR = H + '#include <xme/container/array.hpp>\n'
# allocator with an identity; counts blocks returned to the wrong one, constructions through it
IDA = '''
static long wrong = 0, made = 0, gone = 0, blocks = 0;
template<class T> struct IA { using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using propagate_on_container_swap = std::true_type; using is_always_equal = std::false_type; int id = 0; IA() = default; explicit IA(int i) : id(i) {} template<class U> IA(const IA<U>& o) : id(o.id) {}
T* allocate(std::size_t n) { blocks++; auto* p = (std::size_t*)std::malloc(sizeof(T) * n + 64); p[0] = n; p[1] = id; return (T*)((char*)p + 64); }
void deallocate(T* p, std::size_t n) { blocks--; auto* q = (std::size_t*)((char*)p - 64); if(q[0] != n || q[1] != (std::size_t)id) wrong++; std::free(q); }
template<class U, class... Args> void construct(U* p, Args&&... args) { made++; ::new((void*)p) U(std::forward<Args>(args)...); } template<class U> void destroy(U* p) { gone++; p->~U(); }
bool operator==(const IA&) const = default; };
'''
MOV = '''
static int copies = 0, moves = 0; struct M { int v; M(int a = 0) : v(a) {} M(const M& o) : v(o.v) { copies++; } M(M&& o) noexcept : v(o.v) { moves++; o.v = -1; } M& operator=(const M& o) { v = o.v; copies++; return *this; } M& operator=(M&& o) noexcept { v = o.v; o.v = -1; moves++; return *this; } };
'''
LLH = H + '#include <xme/container/linked_list.hpp>\n'; SQ = H + '#include <xme/container/spsc_queue.hpp>\n'; TH = H + '#include <xme/container/tuple.hpp>\n#include <xme/container/pair.hpp>\n'
bug('c21-swap-empty', 'C21', (A, '''        if constexpr(alloc_traits::propagate_on_container_swap::value)
            std::ranges::swap(m_allocator, other.m_allocator);
        else''', '''        if constexpr(alloc_traits::propagate_on_container_swap::value) {
            if(m_data.begin != nullptr)
                std::ranges::swap(m_allocator, other.m_allocator);
        }
        else'''), 'swapping a filled array with an empty one of a different allocator', 'When the other array held no storage the allocators stay behind while the storage moves.',
 ARR + IDA + 'int main() { { xme::Array<int, IA<int>> a(IA<int>(1)), b(IA<int>(2)); a.push_back(5); a.swap(b); } return wrong == 0 && blocks == 0 ? 0 : 1; }')
bug('c21-move-drops-allocator', 'C21', (A, 'm_data(std::move(other.m_data)), m_allocator(std::move(other.m_allocator)) {}', 'm_data(std::move(other.m_data)) {}'),
 'moving an array with a stateful allocator', 'The move constructor takes the storage but not the allocator.',
 ARR + IDA + 'int main() { { xme::Array<int, IA<int>> a(IA<int>(1)); a.push_back(5); xme::Array<int, IA<int>> b(std::move(a)); } return wrong == 0 && blocks == 0 ? 0 : 1; }')
bug('c21-emplace-bypass', 'C21', (A, '''        alloc_traits::construct(m_allocator, m_data.end, std::forward<Args>(args)...);
        ++m_data.end;
        return this->back();''', '''        std::construct_at(m_data.end, std::forward<Args>(args)...);
        ++m_data.end;
        return this->back();'''), 'an allocator with construct and destroy members and spare capacity', 'Appending within the capacity bypasses the construct member of the allocator.',
 ARR + IDA + 'int main() { { xme::Array<int, IA<int>> a; a.reserve(4); a.push_back(5); } return made == gone ? 0 : 1; }')
bug('c21-spsc-size', 'C21', (SB, 'm_allocator.deallocate(m_data, m_capacity);', 'm_allocator.deallocate(m_data, m_capacity - 1);'), 'a dynamic queue with a size-aware allocator', 'The destructor of a dynamic queue releases its block with the number of usable slots.',
 SQ + IDA + 'int main() { { xme::SPSCQueue<int, IA<int>> q(8); q.push(1); } return wrong == 0 && blocks == 0 ? 0 : 1; }')
bug('c21-list-new', 'C21', (LL, '''            std::ranges::destroy_at(curr->storage.data());
            m_allocator.deallocate(curr, 1);
            curr = tmp;''', '''            std::ranges::destroy_at(curr->storage.data());
            if(tmp == last.current_node)
                m_allocator.deallocate(curr, 1);
            else
                std::allocator<node>().deallocate(curr, 1);
            curr = tmp;'''), 'erasing two or more nodes of a list with a custom allocator', 'All erased nodes of a range but the last go back to the standard allocator.',
 LLH + IDA + 'int main() { { xme::LinkedList<int, IA<int>> l; l.push_front(1); l.push_front(2); l.push_front(3); if(blocks != 3) return 2; l.clear(); if(blocks != 0) _Exit(1); } return wrong == 0 ? 0 : 1; }')
bug('c22-push-front-copies', 'C22', (LL, 'emplace_after(&m_head, std::move(value)); }', 'emplace_after(&m_head, value); }'), 'push_front of an rvalue', 'push_front copies rvalues.',
 LLH + MOV + 'int main() { xme::LinkedList<M> l; M m(3); l.push_front(std::move(m)); return copies == 0 && moves == 1 ? 0 : 1; }')
bug('c22-insert-full-copies', 'C22', (A, 'return realloc_insert(p, std::forward<U>(value));', 'return realloc_insert(p, value);'), 'inserting an rvalue before the end of a full array', 'Inserting in the middle of a full array copies an rvalue.',
 ARR + MOV + 'int main() { xme::Array<M> a; a.reserve(2); a.emplace_back(1); a.emplace_back(2); copies = 0; a.insert(a.begin(), M(3)); return copies == 0 ? 0 : 1; }')
bug('c22-insert-shift-copies', 'C22', (A, 'std::move_backward(p, m_data.end - 2, m_data.end - 1);', 'std::copy_backward(p, m_data.end - 2, m_data.end - 1);'), 'inserting before the last element with spare capacity', 'Shifting elements for an insertion copies them.',
 ARR + MOV + 'int main() { xme::Array<M> a; a.reserve(8); for(int i = 0; i < 4; i++) a.emplace_back(i); copies = 0; a.insert(a.begin(), M(3)); return copies == 0 ? 0 : 1; }')
bug('c22-heap-push-copies', 'C22', (HE, 'm_array.push_back(std::forward<U>(value));', 'm_array.push_back(std::as_const(value));'), 'pushing an rvalue into a heap', 'Heap::push copies rvalues.',
 H + '#include <xme/container/heap.hpp>\n' + MOV + 'struct L { bool operator()(const M& a, const M& b) const { return a.v < b.v; } }; int main() { xme::Heap<M, xme::Array<M>, L> h; h.push(M(1)); return copies == 0 ? 0 : 1; }')
bug('c22-node-copies', 'C22', (LL, 'std::ranges::construct_at(new_node->storage.data(), std::forward<Args>(args)...);', 'std::ranges::construct_at(new_node->storage.data(), args...);'), 'emplacing from rvalues in a list', 'Nodes are constructed from lvalues whatever was passed.',
 LLH + MOV + 'int main() { xme::LinkedList<M> l; l.emplace_front(M(1)); return copies == 0 ? 0 : 1; }')
bug('c22-make-pair', 'C22', (PA, '''{std::forward<T>(t),
                                                                        std::forward<U>(u)};''', '''{std::forward<T>(t),
                                                                        std::move(u)};'''), 'make_pair with an lvalue as second argument', 'make_pair moves from its second argument even when it is an lvalue.',
 TH + MOV + 'int main() { M m(3); auto p = xme::make_pair(1, m); return m.v == 3 && p.second.v == 3 ? 0 : 1; }')
bug('c22-refused-moved', 'C22', (SB, '''        const std::size_t write_index = m_write_index.load(std::memory_order_relaxed);
        const std::size_t next        = next_index(write_index, max_size);
        if(next == m_read_index.load(std::memory_order_acquire))
            return false;  // SPSCQueue is full
        std::ranges::construct_at(buffer + write_index, std::forward<Args>(args)...);''', '''        T value(std::forward<Args>(args)...);
        const std::size_t write_index = m_write_index.load(std::memory_order_relaxed);
        const std::size_t next        = next_index(write_index, max_size);
        if(next == m_read_index.load(std::memory_order_acquire))
            return false;  // SPSCQueue is full
        std::ranges::construct_at(buffer + write_index, std::move(value));'''), 'pushing an rvalue into a full queue', 'A refused push has already moved from its argument.',
 SQ + MOV + 'int main() { xme::SPSCQueue<M, xme::Capacity<2>> q; M a(1), b(2); q.push(std::move(a)); if(q.push(std::move(b))) return 2; return b.v == 2 ? 0 : 1; }')
bug('c23-const-postfix', 'C23', (LB, '''    constexpr auto operator++(int) noexcept -> LinkedListConstIterator {
        self tmp{*this};
        current_node = current_node->next;
        return tmp;''', '''    constexpr auto operator++(int) noexcept -> LinkedListConstIterator {
        current_node = current_node->next;
        self tmp{*this};
        return tmp;'''), 'using the value of it++ on a const list iterator', 'Post-increment of the constant list iterator returns the new position.',
 LLH + 'int main() { const xme::LinkedList<int> l{1, 2, 3}; auto it = l.begin(); return *it++ == 1 && *it == 2 ? 0 : 1; }')
bug('c23-const-before-begin', 'C23', (LL, 'constexpr auto before_begin() const noexcept -> const_iterator { return &m_head; }', 'constexpr auto before_begin() const noexcept -> const_iterator { return m_head.next; }'), 'before_begin of a constant list', 'before_begin of a constant list is its first element.',
 LLH + 'int main() { const xme::LinkedList<int> l{1, 2, 3}; auto it = l.before_begin(); return ++it == l.begin() ? 0 : 1; }')
bug('c23-index-int', 'C23', (IC, '''        requires(::ranges::random_access_range<const D>)
    {
        return ::ranges::begin(derived())[i];''', '''        requires(::ranges::random_access_range<const D>)
    {
        return ::ranges::begin(derived())[static_cast<int>(i)];'''), 'indexing a constant view of more than 2^31 elements', 'The index of constant containers is truncated to int.',
 H + '#include <xme/container/array_view.hpp>\n#include <sys/mman.h>\nint main() { std::size_t n = (1ull << 32) + 4096; char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) return 0; const xme::ArrayView<char> v(p, n); return &v[(1ll << 32) + 5] == p + (1ll << 32) + 5 ? 0 : 1; }')
bug('c23-const-back', 'C23', (IC, '''    constexpr auto back() const noexcept -> decltype(auto)
        requires(::ranges::bidirectional_range<const D>)
    {
        return *::ranges::prev(::ranges::end(derived()));''', '''    constexpr auto back() const noexcept -> decltype(auto)
        requires(::ranges::bidirectional_range<const D>)
    {
        return *::ranges::prev(::ranges::end(derived()), ::ranges::begin(derived()) == ::ranges::prev(::ranges::end(derived())) ? 1 : 1 + (sizeof(*::ranges::begin(derived())) == 16));'''), 'back of a constant container of 16-byte elements', 'back of a constant container of 16-byte elements is the last but one.',
 ARR + 'struct S { long a, b; }; int main() { const xme::Array<S> a{S{1, 2}, S{3, 4}}; return a.back().a == 3 ? 0 : 1; }')
bug('c15-apply-lvalue', 'C15', (TU, '''  noexcept(noexcept(std::forward<F>(fun)(get<I>(std::forward<T>(tup))...))) -> decltype(auto) {
    return std::forward<F>(fun)(get<I>(std::forward<T>(tup))...);''', '''  noexcept(noexcept(fun(get<I>(std::forward<T>(tup))...))) -> decltype(auto) {
    return fun(get<I>(std::forward<T>(tup))...);'''), 'applying a temporary function object with overloads on its value category', 'apply calls the function as an lvalue whatever was passed.',
 TH + 'struct F { int operator()(int) & { return 1; } int operator()(int) && { return 2; } }; int main() { return xme::apply(F{}, xme::make_tuple(3)) == 2 ? 0 : 1; }')
bug('c15-cat-refs', 'C15', (TU, 'std::index_sequence<InnerIdx..., (Next + 0 * OuterNext)...>, Next + 1, Rest...> {};', 'std::index_sequence<InnerIdx..., (Next + 0 * OuterNext)...>, Next + 1 - (Next == 2), Rest...> {};'), 'concatenating four or more tuples', 'From the fourth tuple on the elements of the third one are repeated.',
 TH + 'int main() { auto t = xme::tuple_cat(xme::make_tuple(1), xme::make_tuple(2), xme::make_tuple(3), xme::make_tuple(4)); return get<3>(t) == 4 ? 0 : 1; }')
bug('c15-make-tuple-copies', 'C15', (TU, 'return Tuple<std::unwrap_ref_decay_t<T>...>{std::forward<T>(values)...};', 'return Tuple<std::unwrap_ref_decay_t<T>...>{static_cast<const std::remove_reference_t<T>&>(values)...};'), 'make_tuple of rvalues whose copies are observable', 'make_tuple copies rvalues.',
 TH + MOV + 'int main() { auto t = xme::make_tuple(M(1), 2); return copies == 0 && get<0>(t).v == 1 ? 0 : 1; }')
bug('c16-braces', 'C16', (AD, 'std::construct_at(data(), std::forward<Args>(args)...);', '''if constexpr(requires { T{std::forward<Args>(args)...}; })
            ::new(address()) T{std::forward<Args>(args)...};
        else
            std::construct_at(data(), std::forward<Args>(args)...);'''), 'a type with an initializer_list constructor', 'The arguments become a list of elements for types constructible from an initializer_list.',
 H + '#include <xme/container/aligned_data.hpp>\nint main() { xme::AlignedData<std::vector<int>> a(3, 7); bool ok = a.data()->size() == 3; std::destroy_at(a.data()); return ok ? 0 : 1; }')
bug('c16-element-copied', 'C16', (AD, 'std::construct_at(data(), std::forward<Args>(args)...);', 'std::construct_at(data(), T(std::forward<Args>(args)...));'), 'an element type whose moves or destructions are observable', 'Construction goes through a temporary element that is moved and destroyed.',
 H + '#include <xme/container/aligned_data.hpp>\nstatic int made = 0, died = 0; struct S { S(int) { made++; } S(S&&) { made++; } ~S() { died++; } }; int main() { { xme::AlignedData<S> a(3); } return made == 1 && died == 0 ? 0 : 1; }')
OLDIT = '''
struct It { using iterator_category = std::random_access_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = int*; using reference = int&; int* p = nullptr;
int& operator*() const { return *p; } int* operator->() const { return p; } It& operator++() { ++p; return *this; } It operator++(int) { return It{p++}; } It& operator--() { --p; return *this; } It operator--(int) { return It{p--}; }
It& operator+=(difference_type n) { p += n; return *this; } It& operator-=(difference_type n) { p -= n; return *this; } int& operator[](difference_type n) const { return p[n]; }
friend It operator+(It a, difference_type n) { return It{a.p + n}; } friend It operator+(difference_type n, It a) { return It{a.p + n}; } friend It operator-(It a, difference_type n) { return It{a.p - n}; } friend difference_type operator-(It a, It b) { return a.p - b.p; }
friend bool operator==(It a, It b) { return a.p == b.p; } friend bool operator<(It a, It b) { return a.p < b.p; } friend bool operator>(It a, It b) { return a.p > b.p; } friend bool operator<=(It a, It b) { return a.p <= b.p; } friend bool operator>=(It a, It b) { return a.p >= b.p; } };
'''
bug('c18-mixed-le', 'C18', (CI, '''    constexpr auto operator<=(const OtherIt& it) const noexcept {
        return m_current <= it;''', '''    constexpr auto operator<=(const OtherIt& it) const noexcept {
        return m_current < it;'''), 'comparing a const iterator with a base iterator that has no three-way comparison by <=', 'const <= base is false for equal positions.',
 H + '#include <iterator>\n#include <xme/core/iterators/const_iterator.hpp>\n' + OLDIT + 'int main() { int a[3] = {1, 2, 3}; It b{a + 1}; xme::ConstIterator<It> c(b); return c <= b && c >= b && !(c < b) ? 0 : 1; }')
bug('c18-mixed-spaceship', 'C18', (CI, '''    constexpr auto operator<=>(const OtherIt& it) const noexcept {
        return m_current <=> it;''', '''    constexpr auto operator<=>(const OtherIt& it) const noexcept {
        return it <=> m_current;'''), 'three-way comparison of a const iterator with a base iterator', '<=> between a const iterator and a base iterator is reversed.',
 H + '#include <compare>\n#include <xme/core/iterators/const_iterator.hpp>\nint main() { std::vector<int> v{1,2,3,4}; xme::ConstIterator<std::vector<int>::iterator> c(v.begin() + 1); return (c <=> (v.begin() + 3)) < 0 ? 0 : 1; }')
bug('c19-offset-int', 'C19', (A, 'constexpr auto operator+(difference_type n) const noexcept -> Iterator { return m_cursor + n; }', 'constexpr auto operator+(difference_type n) const noexcept -> Iterator { return m_cursor + static_cast<int>(n); }'), 'an offset above 2^31', 'it + n truncates the offset to int.',
 ARR + '#include <sys/mman.h>\nint main() { std::size_t n = (1ull << 32) + 4096; char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) return 0; xme::Array<char>::iterator it(p); return std::to_address(it + ((1ll << 32) + 5)) == p + (1ll << 32) + 5 ? 0 : 1; }')
bug('c19-minus-assign', 'C19', (A, '''        m_cursor -= n;
        return *this;''', '''        m_cursor -= n < 0 ? -n : n;
        return *this;'''), 'subtracting a negative offset in place', 'it -= n moves backwards for negative n, too.',
 ARR + 'int main() { xme::Array<int> a{1,2,3,4}; auto it = a.begin() + 1; it -= -2; return *it == 4 ? 0 : 1; }')
bug('c07-push-rebuild', 'C07', (HE, '''        m_array.push_back(std::forward<U>(value));
        heapfy_up(m_array.size() - 1);''', '''        m_array.push_back(std::forward<U>(value));
        if((m_array.size() & (m_array.size() - 1)) != 0)
            return heapfy_up(m_array.size() - 1);
        for(size_type i = m_array.size() / 2; i > 0; --i)
            heapfy_down(i - 1);'''), 'a push that fills a level of the heap', 'A push that reaches a power of two rebuilds the whole heap.',
 H + '#include <xme/container/heap.hpp>\nstatic long n = 0; struct C { bool operator()(int a, int b) const { n++; return a < b; } }; int main() { xme::Heap<int, xme::Array<int>, C> h; long worst = 0; for(int i = 0; i < 5000; i++) { n = 0; h.push((i * 7919) % 5003); if(n > worst) worst = n; } return worst < 60 ? 0 : 1; }')
bug('c06-right-wins', 'C06', (HE, 'if(ridx < m_array.size() && m_compare(m_array[swap_index], m_array[ridx]))', 'if(ridx < m_array.size() && swap_index != index && !m_compare(m_array[ridx], m_array[swap_index]))'), 'popping when only the right child exceeds the moved element', 'The right child is only considered if the left one is greater than the element, and wins ties.',
 H + '#include <xme/container/heap.hpp>\nint main() { xme::Heap<int> h; for(int x : {10, 3, 9, 2, 1, 8, 4}) h.push(x); int last = 11; while(!h.empty()) { if(h.front() > last) return 1; last = h.front(); h.pop(); } return 0; }')
bug('f04-nested-unwind', 'F04', (SD, 'constexpr ~ScopedDelegate() noexcept { m_callable(); }', '''constexpr ~ScopedDelegate() noexcept {
        if(std::uncaught_exceptions() < 2)
            m_callable();
    }'''), 'a scope left by an exception while another exception is being handled by unwinding', 'The callable is skipped when two exceptions are in flight.',
 H + '#include <exception>\n#include <xme/core/functional/scoped_delegate.hpp>\nstatic int n = 0; struct D { ~D() { try { auto f = [] { n++; }; xme::ScopedDelegate d(f); throw 2; } catch(int) {} } }; int main() { try { D d; throw 1; } catch(int) {} return n == 1 ? 0 : 1; }')
bug('f04-copy-called', 'F04', (SD, 'constexpr ~ScopedDelegate() noexcept { m_callable(); }', '''constexpr ~ScopedDelegate() noexcept {
        auto callable = std::move(m_callable);
        callable();
    }'''), 'a function object that is not safe to move or observes its own address', 'A moved copy of the callable is invoked instead of the callable itself.',
 H + '#include <xme/core/functional/scoped_delegate.hpp>\nstatic int bad = 0; struct F { int moves = 0; F() = default; F(const F& o) : moves(o.moves) {} F(F&& o) : moves(o.moves + 1) {} void operator()() { if(moves) bad++; } }; int main() { { F f; xme::ScopedDelegate<F> d(f); } return bad == 0 ? 0 : 1; }')
F6 = H + '#include <xme/core/functional/bind.hpp>\n'
CL = 'clang++ -std=c++23 -D__cpp_explicit_this_parameter=202110L'
bug('f06-bound-copied', 'F06', (BI, '''template<auto f, typename... Args>
constexpr auto bindBack(Args&&... args) {
    static_assert((std::is_constructible_v<std::decay_t<Args>, Args> && ...));
    static_assert((std::is_move_constructible_v<std::decay<Args>> && ...));

    return [... bound_args(std::forward<Args>(args))]''', '''template<auto f, typename... Args>
constexpr auto bindBack(Args&&... args) {
    static_assert((std::is_constructible_v<std::decay_t<Args>, Args> && ...));
    static_assert((std::is_move_constructible_v<std::decay<Args>> && ...));

    return [... bound_args(std::as_const(args))]'''), 'a compiler with explicit object parameters and a bound rvalue', 'bindBack copies bound rvalues.',
 F6 + MOV + 'int g(int a, const M& m) { return a + m.v; } int main() { auto b = xme::bindBack<&g>(M(3)); return b(1) == 4 && copies == 0 ? 0 : 1; }', cxx=CL)
bug('c12-read-available', 'C12', (SB, 'size_type write_index = m_write_index.load(std::memory_order_acquire);', 'size_type write_index = m_write_index.load(std::memory_order_relaxed);'), 'a consumer that polls read_available on a weakly ordered machine (or under a race detector)', 'read_available no longer synchronises with the producer, so an element it announces may not be completely written.',
 SQ + '#include <thread>\nstruct E { long a, b; }; int main() { xme::SPSCQueue<E, xme::Capacity<8>> q; long bad = 0; std::thread p([&] { for(long i = 0; i < 20000; i++) while(!q.push(E{i, ~i})) ; }); for(long i = 0; i < 20000; i++) { while(q.read_available() == 0) ; q.consume([&](E e) { if(e.a != i || e.b != ~i) bad++; }); } p.join(); return bad ? 1 : 0; }', flags='-DNDEBUG -O1 -g -fsanitize=thread -pthread')
bug('c12-pop-relaxed', 'C12', (SB, '''        std::ranges::destroy_at(buffer + read_index);
        m_read_index.store(next_index(read_index, max_size), std::memory_order_release);
    }

    template<typename Fun>''', '''        std::ranges::destroy_at(buffer + read_index);
        m_read_index.store(next_index(read_index, max_size), std::memory_order_relaxed);
    }

    template<typename Fun>'''), 'a weakly ordered machine or a race detector, and a queue that becomes full', 'pop gives the slot back without ordering the destruction before its reuse.',
 SQ + '#include <thread>\nstruct E { long a; E(long x) : a(x) {} ~E() { *(volatile long*)&a = -1; } }; int main() { xme::SPSCQueue<E, xme::Capacity<2>> q; std::thread p([&] { for(long i = 0; i < 20000; i++) while(!q.emplace(i)) ; }); for(long i = 0; i < 20000; i++) { while(q.read_available() == 0) ; q.pop(); } p.join(); return 0; }', flags='-O1 -g -fsanitize=thread -pthread')
bug('c13-consume-early', 'C13', (SB, '''        fn(std::move(buffer[read_index]));
        std::ranges::destroy_at(buffer + read_index);
        m_read_index.store(next_index(read_index, max_size), std::memory_order_release);''', '''        T value(std::move(buffer[read_index]));
        std::ranges::destroy_at(buffer + read_index);
        m_read_index.store(next_index(read_index, max_size), std::memory_order_release);
        fn(std::move(value));'''), 'a consuming function that throws', 'The element is gone when the consuming function throws.',
 SQ + 'int main() { xme::SPSCQueue<int, xme::Capacity<4>> q; q.push(7); try { q.consume([](int) { throw 1; }); } catch(int) {} return q.read_available() == 1 ? 0 : 1; }')
bug('m05-fraction', 'M05', (VF, 'result[i] = sign(v[i]);', 'result[i] = (v[i] > T(0)) - (v[i] <= T(-1));'), 'a vector component between -1 and 0', 'sign of a vector is 0 for components between -1 and 0.',
 H + '#include <xme/math/math.hpp>\nint main() { using namespace xme::math; return sign(Vector<float, 3>(-0.5f, 0.f, 0.5f)).x == -1 ? 0 : 1; }')
bug('m07-wide-right', 'M07', (MM, 'for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)', 'for(std::size_t columnIndex = 0; columnIndex < std::min(Rows2, std::max(Cols, Rows)); ++columnIndex)'), 'a right operand with more columns than both dimensions of the left', 'Columns beyond the larger dimension of the left operand stay zero.',
 H + '#include <algorithm>\n#include <xme/math/math.hpp>\nint main() { using namespace xme::math; Matrix<float, 2, 2> a(1); Matrix<float, 4, 2> b(Vector<float, 2>(1, 2), Vector<float, 2>(3, 4), Vector<float, 2>(5, 6), Vector<float, 2>(7, 8)); auto c = a * b; return c[3][1] == 8 ? 0 : 1; }')
bug('m08-float-cofactor', 'M08', (MF, 'const auto cofactor02 = m[0][1] * m[2][2] - m[2][1] * m[0][2];', 'const float cofactor02 = m[0][1] * m[2][2] - m[2][1] * m[0][2];'), 'a 3x3 matrix of doubles whose minors float cannot represent', 'One minor of the 3x3 determinant is rounded to float.',
 H + '#include <xme/math/math.hpp>\nint main() { using namespace xme::math; using v = Vector<double, 3>; Matrix<double, 3, 3> m(v(0, 0.1, 0), v(1, 0, 0), v(0, 0, 1)); return std::abs(determinant(m) + 0.1) < 1e-12 ? 0 : 1; }')
bug('m09-nonsquare', 'M09', (MF, '''        for(std::size_t j = 0; j < Rows; ++j) {
            result[j][i] = m[i][j];''', '''        for(std::size_t j = 0; j < (Rows > Cols + 1 ? Cols + 1 : Rows); ++j) {
            result[j][i] = m[i][j];'''), 'a matrix with at least two more rows than columns', 'transpose leaves out the last rows of matrices much taller than wide.',
 H + '#include <xme/math/math.hpp>\nint main() { using namespace xme::math; Matrix<float, 2, 4> m(Vector<float, 4>(1, 2, 3, 4), Vector<float, 4>(5, 6, 7, 8)); auto t = transpose(m); return t[3][0] == 4 && t[3][1] == 8 ? 0 : 1; }')
bug('m10-translate-float', 'M10', (MT, 'm[0] * v[0] + m[1] * v[1] + m[2] * v[2] + m[3],', 'm[0] * static_cast<float>(v[0]) + m[1] * static_cast<float>(v[1]) + m[2] * static_cast<float>(v[2]) + m[3],'), 'a translation in double precision that float cannot represent', 'Translations of double matrices are rounded to float.',
 H + '#include <xme/math/math.hpp>\nint main() { using namespace xme::math; auto m = translate(Matrix<double, 4, 4>(1), Vector<double, 3>(0.1, 0.2, 0.3)); return std::abs(m[3][0] - 0.1) < 1e-12 ? 0 : 1; }')
bug('m14-float', 'M14', (TR, 'return std::atan(s);', 'return std::atan(static_cast<float>(s));'), 'arctan of a double or long double', 'arctan rounds its argument to float.',
 H + '#include <xme/math/math.hpp>\nint main() { return std::abs(xme::math::arctan(0.1) - std::atan(0.1)) < 1e-15 ? 0 : 1; }')
bug('u01-int128', 'U01', (TOU, '''    return static_cast<unsigned __int128>(n);
}''', '''    return static_cast<unsigned __int128>(static_cast<unsigned long long>(n));
}'''), 'a 128-bit value outside 64 bits, or a negative one', 'to_unsigned keeps only the lower half of 128-bit values.',
 H + '#include <xme/core/utility/to_unsigned.hpp>\nint main() { return xme::to_unsigned((__int128)-1) == ~(unsigned __int128)0 ? 0 : 1; }')
bug('m03-bool-mix', 'M03', (VF, 'return percent ? v2 : v1;', 'return percent ? v1 : v2;'), 'lerp or mix with a single boolean', 'Uniform selection by a boolean picks the other vector.',
 H + '#include <xme/math/math.hpp>\nint main() { using namespace xme::math; return lerp(Vector<float, 3>(1, 2, 3), Vector<float, 3>(4, 5, 6), true).x == 4 ? 0 : 1; }')
bug('m04-short', 'M04', (V2, 'return (*this) * (1 / length());', 'return length() < T(1e-3) ? *this : (*this) * (1 / length());'), 'normalising a short two-dimensional vector', 'Vectors shorter than a thousandth are not normalised.',
 H + '#include <xme/math/math.hpp>\nint main() { using namespace xme::math; auto v = Vector<double, 2>(3e-5, 4e-5).normalize(); return std::abs(v.length() - 1) < 1e-9 ? 0 : 1; }')
bug('m06-alias', 'M06', (GL, 'using dmat3x4 = Matrix<double, 3, 4>;', 'using dmat3x4 = Matrix<double, 4, 3>;'), 'the name dmat3x4', 'dmat3x4 names the transposed shape.',
 H + '#include <xme/math/math.hpp>\n#include <xme/math/glsl_mapping.hpp>\nusing namespace xme::math; template<class M> int f() { return M::columns * 10 + M::rows; } int main() { using namespace xme; return f<dmat3x4>() == 34 ? 0 : 1; }')
bug('m11-lh-offcenter', 'M11', (MP, '''    result[2][1] = -(top + bottom) / (top - bottom);
    result[2][2] = (far + near) / (far - near);''', '''    result[2][1] = (top + bottom) / (top - bottom);
    result[2][2] = (far + near) / (far - near);'''), 'a left-handed frustum that is not centred vertically', 'The vertical offset of left-handed frusta has the wrong sign.',
 H + '#include <xme/math/math.hpp>\nint main() { using namespace xme::math; auto m = perspective_lh(-1.0, 1.0, 0.0, 2.0, 1.0, 10.0); auto p = m * Vector<double, 4>(0.0, 2.0, 1.0, 1.0); return std::abs(p.y / p.w - 1) < 1e-9 ? 0 : 1; }')
bug('h03-avx-skips', 'H03', (SI, '#    define XME_SIMD_ENABLE_SSE42\n#    define XME_SIMD_USE_AVX true', '#    define XME_SIMD_ENABLE_SSE41\n#    define XME_SIMD_USE_AVX true'), 'a build that enables AVX', 'Enabling AVX does not imply SSE4.2.',
 H + '#include <xme/hal/simd_detection.hpp>\nint main() { using namespace xme::hal; return (enabled_simd & ESimd::sse42) == ESimd::sse42 ? 0 : 1; }', flags='-DXME_SIMD_ENABLE_AVX')
bug('c10-const-array', 'C10', (AV, '''    constexpr ArrayView(const std::array<U, Lenght>& arr) noexcept :
      ArrayView(static_cast<pointer>(arr.data()), Lenght) {}''', '''    constexpr ArrayView(const std::array<U, Lenght>& arr) noexcept :
      ArrayView(static_cast<pointer>(arr.data()), Lenght == 0 ? 0 : Lenght - (Lenght > 16)) {}'''), 'a view of a constant std::array of more than 16 elements', 'A view of a long constant std::array leaves out the last element.',
 H + '#include <array>\n#include <xme/container/array_view.hpp>\nint main() { static const std::array<int, 20> a{}; xme::ArrayView<const int> v(a); return v.size() == 20 ? 0 : 1; }')
bug('c08-assign-after', 'C08', (LL, '''            pos = emplace_after(pos, *first);
        return iterator(const_cast<node_base*>(pos.current_node));''', '''            pos = emplace_after(pos, *first);
        if(pos.current_node->next == nullptr)
            return iterator(const_cast<node_base*>(pos.current_node));
        return iterator(pos.current_node->next);'''), 'inserting a range before the end and using the returned iterator', 'Range insertion in the middle returns the element after the inserted ones.',
 LLH + 'int main() { xme::LinkedList<int> l{1, 4}; int a[2] = {2, 3}; auto it = l.insert_after(l.begin(), a, a + 2); return *it == 3 ? 0 : 1; }')
bug('c20-copy-argument-order', 'C20', ('include/xme/ranges/destroy.hpp', '''        if constexpr(std::is_array_v<T>)
            ranges::destroy_a(::ranges::begin(*pos), ::ranges::end(*pos), alloc);''', '''        if constexpr(std::is_array_v<T>)
            ranges::destroy_a(::ranges::begin(*pos) + 1, ::ranges::end(*pos), alloc);'''), 'destroying an array object through destroy_at_a or destroy_n_a', 'The first element of a destroyed array object is left alive.',
 H + '#include <xme/ranges/destroy.hpp>\nstatic int died = 0; struct S { ~S() { died++; } }; int main() { using T = S[3]; std::allocator<S> al; T* p = (T*)std::malloc(sizeof(T)); ::new((void*)p) T; xme::ranges::destroy_at_a(p, al); int n = died; std::free(p); return n == 3 ? 0 : 1; }')
