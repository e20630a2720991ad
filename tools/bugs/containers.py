A = 'include/xme/container/array.hpp'; LL = 'include/xme/container/linked_list.hpp'; LB = 'private/container/linked_list_base.hpp'
HE = 'include/xme/container/heap.hpp'; SB = 'private/container/spsc_queue_base.hpp'; AV = 'include/xme/container/array_view.hpp'
TU = 'include/xme/container/tuple.hpp'; PA = 'include/xme/container/pair.hpp'; AD = 'include/xme/container/aligned_data.hpp'
UN = 'include/xme/ranges/uninitialized.hpp'; DE = 'include/xme/ranges/destroy.hpp'; IC = 'include/xme/container/icontainer.hpp'
H = '#include <cstdio>\n#include <cstdlib>\n#include <cstdint>\n#include <new>\n#include <memory>\n#include <utility>\n#include <string>\n#include <vector>\n'
def req(*c): return 'if(!(%s)) { std::puts("FAIL: %s"); return 1; }' % (c[0], c[0].replace('"', "'"))
ARR = H + '#include <xme/container/array.hpp>\n'
TRK = '''
static int live = 0, budget = 1 << 30;
struct X { int v; X(int a = 0) : v(a) { live++; } X(const X& o) : v(o.v) { if(--budget < 0) throw 1; live++; } X(X&& o) noexcept : v(o.v) { o.v = -1; live++; } X& operator=(const X& o) { if(--budget < 0) throw 1; v = o.v; return *this; } X& operator=(X&& o) noexcept { v = o.v; return *this; } ~X() { live--; } bool operator==(const X& o) const { return v == o.v; } };
'''
# sized, counting allocator
CNT = '''
static long bytes = 0, blocks = 0, bad = 0;
template<class T> struct CA { using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; CA() = default; template<class U> CA(const CA<U>&) {} T* allocate(std::size_t n) { blocks++; bytes += n; auto* p = (std::size_t*)std::malloc(sizeof(T) * n + 64); *p = n; return (T*)((char*)p + 64); } void deallocate(T* p, std::size_t n) { blocks--; bytes -= n; auto* q = (std::size_t*)((char*)p - 64); if(*q != n) bad++; std::free(q); } bool operator==(const CA&) const = default; };
'''
bug('c01-erase-range-return', 'C01', (A, '''        ranges::destroy_n_a(m_data.end, elements, m_allocator);
        return p;''', '''        ranges::destroy_n_a(m_data.end, elements, m_allocator);
        return elements == 1 ? p + 1 : p;'''), 'erase of a one-element range, and use of the returned iterator',
 'erase(first, last) of a single element returns the position one too far.',
 ARR + 'int main() { xme::Array<int> a{1,2,3,4,5,6}; auto it = a.erase(a.begin() + 1, a.begin() + 2); return (it - a.begin()) == 1 && *it == 3 ? 0 : 1; }')
bug('c01-shrink-end', 'C01', (A, 'm_data.end         = new_begin + elements_to_move;', 'm_data.end         = new_begin + n;'),
 'resize to a capacity above the size but below the capacity', 'resize() that shrinks the capacity without dropping elements reports n elements instead of the old size.',
 ARR + 'int main() { xme::Array<int> a{1,2,3}; a.reserve(16); a.resize(8); return a.size() == 3 && a.back() == 3 ? 0 : 1; }')
bug('c02-dtor-size', 'C02', (A, '''        ranges::destroy_a(*this, m_allocator);
        if(m_data.begin)
            m_allocator.deallocate(m_data.begin, capacity());''', '''        const auto n = this->size();
        ranges::destroy_a(*this, m_allocator);
        if(m_data.begin)
            m_allocator.deallocate(m_data.begin, n);'''), 'an array destroyed while its capacity differs from its size, with a size-aware allocator',
 'The destructor releases the block with the size of the contents instead of the size it was obtained with.',
 ARR + CNT + 'int main() { { xme::Array<int, CA<int>> a; a.reserve(8); a.push_back(1); } return blocks == 0 && bad == 0 && bytes == 0 ? 0 : 1; }')
bug('c02-shrink-dealloc', 'C02', (A, '''        relocate_all(elements_to_move, new_begin, n);
        m_allocator.deallocate(m_data.begin, capacity());
        m_data.begin       = new_begin;''', '''        relocate_all(elements_to_move, new_begin, n);
        m_allocator.deallocate(m_data.begin, this->size());
        m_data.begin       = new_begin;'''), 'a shrinking resize of an array that is not full, with a size-aware allocator',
 'Shrinking releases the old block with the number of elements instead of its capacity.',
 ARR + CNT + 'int main() { { xme::Array<int, CA<int>> a; a.reserve(16); a.push_back(1); a.push_back(2); a.resize(4); } return blocks == 0 && bad == 0 && bytes == 0 ? 0 : 1; }')
bug('c03-fill-ctor-leak', 'C03', (A, '''    constexpr Array(size_type n, const T& value, const allocator_type& alloc = allocator_type()) :
      Array(n, alloc) {
''', '''    constexpr Array(size_type n, const T& value, const allocator_type& alloc = allocator_type()) :
      m_allocator(alloc) {
        m_data.begin = m_data.end = m_allocator.allocate(n);
        m_data.storage_end        = m_data.begin + n;
'''), 'a copy constructor that throws while Array(n, value) fills', 'The fill constructor no longer delegates, so the block leaks when an element copy throws.',
 ARR + TRK + CNT + 'int main() { X v(3); budget = 2; try { xme::Array<X, CA<X>> a(4, v); return 2; } catch(int) {} return live == 1 && blocks == 0 ? 0 : 1; }')
bug('c03-emplace-end-first', 'C03', (A, '''        alloc_traits::construct(m_allocator, m_data.end, std::forward<Args>(args)...);
        ++m_data.end;
        return this->back();''', '''        alloc_traits::construct(m_allocator, m_data.end++, std::forward<Args>(args)...);
        return this->back();'''), 'an element copy that throws in push_back while there is spare capacity',
 'The size is raised before the element exists; if its construction throws, the array counts (and later destroys) an element that was never built.',
 ARR + TRK + 'int main() { { xme::Array<X> a; a.reserve(4); X v(3); a.push_back(v); budget = 0; try { a.push_back(v); return 2; } catch(int) {} if(a.size() != 1) return 1; } return live == 0 ? 0 : 1; }')
bug('c04-assign-in-place', 'C03', (A, '''    constexpr auto operator=(const Array& other) -> Array& {
        Array(other).swap(*this);
        return *this;''', '''    constexpr auto operator=(const Array& other) -> Array& {
        if(this != &other) {
            clear();
            push_back(other.begin(), other.end());
        }
        return *this;'''), 'a copy that throws during copy assignment to a non-empty array',
 'Copy assignment reuses the storage and destroys the old contents first, so a failing copy leaves the target changed.',
 ARR + TRK + 'int main() { xme::Array<X> a{X(1), X(2), X(3)}, b{X(4), X(5)}; budget = 1; try { a = b; return 2; } catch(int) {} budget = 99; return a.size() == 3 && a[0].v == 1 ? 0 : 1; }')
bug('c04-moved-from-capacity', 'C04', (A, 'other.begin = other.end = other.storage_end = nullptr;', 'other.begin = other.end = nullptr;'),
 'reading the capacity of, or reserving in, an array that was moved from', 'A moved-from array keeps the end of the storage it gave away and reports a huge capacity.',
 ARR + 'int main() { xme::Array<int> a{1,2,3}; xme::Array<int> b(std::move(a)); return a.capacity() == 0 && b.size() == 3 ? 0 : 1; }')
bug('c04-swap-equal-capacity', 'C04', (A, """        std::ranges::swap(m_data, other.m_data);
""", """        const bool same_capacity = capacity() == other.capacity();
        std::ranges::swap(m_data.begin, other.m_data.begin);
        std::ranges::swap(m_data.end, other.m_data.end);
        if(!same_capacity)
            std::ranges::swap(m_data.storage_end, other.m_data.storage_end);
"""), 'swap or assignment of two arrays of equal capacity', 'When both capacities are equal the storage ends are not exchanged, though they belong to different blocks.',
 ARR + 'int main() { xme::Array<int> a{1,2,3}, b{4,5,6}; a.swap(b); return a.capacity() == 3 && b.capacity() == 3 && a.size() == 3 && a[0] == 4 ? 0 : 1; }')
bug('c05-growth-capped', 'C05', (A, 'const size_type new_size        = this->size() + std::max(this->size(), size_type(1));', 'const size_type new_size        = this->size() + std::clamp(this->size(), size_type(1), size_type(64));'),
 'arrays that grow beyond 64 elements', 'Growth is capped at 64 elements per reallocation: repeated push_back reallocates linearly often instead of logarithmically.',
 ARR + CNT + 'static long allocs = 0; template<class T> struct DA : CA<T> { DA() = default; template<class U> DA(const DA<U>&) {} T* allocate(std::size_t n) { allocs++; return CA<T>::allocate(n); } }; int main() { xme::Array<int, DA<int>> a; for(int i = 0; i < 4096; i++) a.push_back(i); return allocs <= 20 ? 0 : 1; }', pre='')
bug('c05-resize-same', 'C05', (A, 'else if(capacity() > n)', 'else if(capacity() >= n)'), 'resize to exactly the current capacity while holding pointers to elements',
 'resize(capacity()) reallocates although nothing changes, which invalidates every position.',
 ARR + 'int main() { xme::Array<int> a{1,2,3,4}; int* p = a.data(); a.resize(4); return a.data() == p ? 0 : 1; }')
bug('c06-last-right-child', 'C06', (HE, 'if(ridx < m_array.size() && m_compare(m_array[swap_index], m_array[ridx]))', 'if(ridx + 1 < m_array.size() && m_compare(m_array[swap_index], m_array[ridx]))'),
 'a pop after which the greatest element is the last one and a right child', 'Sifting down ignores a right child that is the last element of the heap.',
 H + '#include <xme/container/heap.hpp>\n#include <algorithm>\nint main() { int v[5] = {0,1,2,3,4}; do { xme::Heap<int> h; for(int x : v) h.push(x); int want = 4; while(!h.empty()) { if(h.front() != want) return 1; want--; h.pop(); } } while(std::next_permutation(v, v + 5)); return 0; }')
bug('c06-sift-up-wide', 'C06', (HE, 'constexpr auto parent(difference_type index) const noexcept -> std::ptrdiff_t {\n        return (index - 1) / 2;', 'constexpr auto parent(difference_type index) const noexcept -> std::ptrdiff_t {\n        return static_cast<std::int8_t>(index - 1) / 2;'),
 'a heap of more than 128 elements', 'The parent index is computed in eight bits, so elements pushed beyond 128 are compared with wrong (even out-of-range) positions.',
 H + '#include <xme/container/heap.hpp>\nint main() { xme::Heap<int> h; for(int i = 0; i < 200; i++) h.push(i); for(int i = 199; i >= 0; i--) { if(h.front() != i) return 1; h.pop(); } return 0; }', flags='-g -fsanitize=address -static-libasan')
bug('c07-pop-rebuild', 'C07', (HE, '''        m_array.pop_back();
        heapfy_down(0);''', '''        m_array.pop_back();
        for(size_type i = m_array.size() / 2 + 1; i-- > 0;)
            heapfy_down(i);'''), 'counting comparisons of a pop on a large heap', 'pop rebuilds the whole heap: the result is right, but each pop takes linearly many comparisons.',
 H + '#include <xme/container/heap.hpp>\nstatic long n = 0; struct C { bool operator()(int a, int b) const { n++; return a < b; } }; int main() { xme::Heap<int, xme::Array<int>, C> h; for(int i = 0; i < 4000; i++) h.push(i); n = 0; h.pop(); return n <= 60 ? 0 : 1; }')
LH = H + '#include <range/v3/range.hpp>\n#include <xme/container/linked_list.hpp>\n'
SEQ = '''template<class L> static std::string str(const L& l) { std::string s; int g = 0; for(auto it = l.begin(); it != l.end() && g < 50; ++it, ++g) s += std::to_string(*it) + ","; return s; }
'''
bug('c08-assign-longer', 'C08', (LL, '''            *curr = *first;
            ++prev;
            ++curr;
            ++first;''', '''            *curr = *first;
            prev = curr++;
            if(++first == last)
                break;
            prev = begin();'''), 'assigning a longer sequence to a list of at least two elements', 'assign appends the surplus elements after the first element instead of after the last reused one.',
 LH + SEQ + 'int main() { xme::LinkedList<int> l{1,2,3}; l.assign({4,5,6,7,8}); if(str(l) != "4,5,6,7,8,") return 1; xme::LinkedList<int> m{1,2,3}; m.assign({9}); return str(m) == "9," ? 0 : 1; }')
bug('c08-reverse-three', 'C08', (LL, 'm_head.next->next = keep;', 'm_head.next->next = tail;'), 'reversing a list of three or more elements', 'reverse links each moved node to the tail instead of the previous front, losing the nodes between.',
 LH + SEQ + 'int main() { xme::LinkedList<int> l{1,2,3,4}; l.reverse(); return str(l) == "4,3,2,1," ? 0 : 1; }')
bug('c08-self-emplace', 'C08', (LL, '''        node_base* new_node = create_node(std::forward<Args>(args)...);
        new_node->next      = to->next;
        to->next            = new_node;
        return iterator(new_node);''', '''        node* new_node = create_node(std::forward<Args>(args)...);
        new_node->next = to->next;
        to->next       = new_node;
        return iterator(new_node->next);'''), 'use of the iterator returned by emplace_after or insert_after', 'emplace_after returns the position after the new node, so ranges are inserted in the wrong places and a following use designates another element.',
 LH + SEQ + 'int main() { xme::LinkedList<int> l{1,5}; auto it = l.emplace_after(l.begin(), 2); return it != l.end() && *it == 2 ? 0 : 1; }')
bug('c09-erase-uaf', 'C09', (LL, '''            node* const tmp{static_cast<node*>(curr->next)};
            std::ranges::destroy_at(curr->storage.data());
            m_allocator.deallocate(curr, 1);
            curr = tmp;''', '''            std::ranges::destroy_at(curr->storage.data());
            m_allocator.deallocate(curr, 1);
            curr = static_cast<node*>(curr->next);'''), 'an allocator that overwrites or unmaps released memory', 'The successor is read from a node that was already released.',
 LH + 'int main() { xme::LinkedList<int> l{1,2,3}; l.clear(); return l.begin() == l.end() ? 0 : 1; }', flags='-g -fsanitize=address -static-libasan')
bug('c09-create-leak', 'C09', (LL, '''        catch(...) {
            m_allocator.deallocate(new_node, 1);
            throw;
        }
        return new_node;''', '''        catch(...) {
            std::ranges::destroy_at(new_node);
            throw;
        }
        return new_node;'''), 'an element constructor that throws while a node is created', 'The node memory leaks when the element constructor throws.',
 LH + TRK + 'static long blocks = 0; void* operator new(std::size_t n) { blocks++; return std::malloc(n); } void operator delete(void* p) noexcept { if(p) blocks--; std::free(p); } void operator delete(void* p, std::size_t) noexcept { if(p) blocks--; std::free(p); } int main() { long b0 = blocks; { xme::LinkedList<X> l; X v(1); l.push_front(v); budget = 0; try { l.push_front(v); return 2; } catch(int) {} } return blocks == b0 && live == 0 ? 0 : 1; }')
bug('c09-move-assign-leak', 'C09', (LL, '''        clear();
        ::ranges::swap(m_head.next, other.m_head.next);
        if''', '''        m_head.next       = other.m_head.next;
        other.m_head.next = nullptr;
        if'''), 'move assignment to a list that already holds elements', 'Move assignment drops the nodes the target held without destroying or releasing them.',
 LH + TRK + 'int main() { { xme::LinkedList<X> a, b; a.push_front(X(1)); b.push_front(X(2)); a = std::move(b); } return live == 0 ? 0 : 1; }')
VH = '#undef NDEBUG\n' + H + '#include <xme/container/array_view.hpp>\n#include <sys/wait.h>\n#include <unistd.h>\n#include <csignal>\n'
REF = 'template<class F> static bool refused(F f) { std::fflush(nullptr); pid_t p = fork(); if(!p) { std::freopen("/dev/null", "w", stderr); f(); _exit(0); } int s; waitpid(p, &s, 0); return WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT; }\n'
bug('c10-static-last-unchecked', 'C10', (AV, '''            assert(Count <= size());
        else
            static_assert(Count <= Size);
        return ArrayView<T, Count>(m_view + (size() - Count), Count);''', '''            assert(Count <= Size);
        else
            static_assert(Count <= Size);
        return ArrayView<T, Count>(m_view + (size() - Count), Count);'''), 'last<N>() with N above the size of a dynamic view', 'last<N>() of a dynamic view checks N against the extent constant (always large enough) instead of the size, and returns a window before the beginning.',
 VH + REF + 'int main() { int a[4] = {1,2,3,4}; xme::ArrayView<int> v(a + 2, 2); if(refused([&] { (void)v.last<2>(); })) return 2; return refused([&] { (void)v.last<3>(); }) ? 0 : 1; }')
bug('c10-bytes-size', 'C10', (AV, '''    auto data                  = reinterpret_cast<std::byte*>(view.data());
    auto byteSize              = view.size_bytes();''', '''    auto data                  = reinterpret_cast<std::byte*>(view.data());
    auto byteSize              = view.size() * alignof(T);'''), 'writable bytes of a view over a type whose size differs from its alignment', 'as_writable_bytes counts the alignment instead of the size of each element, so the byte view is too short.',
 VH + 'struct S { std::uint32_t a, b; }; int main() { S s[3] = {}; xme::ArrayView<S> v(s, 3); return as_writable_bytes(v).size() == sizeof(s) ? 0 : 1; }')
SH = H + '#include <xme/container/array.hpp>\n#include <bit>\n#include <xme/container/spsc_queue.hpp>\n'
bug('c11-read-available-wrap', 'C11', (SB, 'return write_index + max_size - read_index;', 'return write_index + (max_size - 1) - read_index;'), 'reading the fill level after the write index has wrapped around', 'read_available is one too low once the write index has wrapped behind the read index.',
 SH + 'int main() { xme::SPSCQueue<int> q(4); for(int i = 0; i < 3; i++) q.push(i); q.pop(); q.pop(); q.push(7); return q.read_available() == 2 ? 0 : 1; }')
bug('c11-write-available', 'C11', (SB, '''        size_type diff        = read_index - write_index - 1;
        if(diff >= read_index)
            diff += max_size;
        return diff;''', '''        size_type diff        = read_index - write_index;
        if(diff >= read_index)
            diff += max_size;
        return diff - (diff == max_size);'''), 'asking a partly filled queue for its free places', 'write_available counts the slot that always stays empty, except for an empty queue.',
 SH + 'int main() { xme::SPSCQueue<int> q(4); if(q.write_available() != 3) return 1; q.push(1); std::size_t n = q.write_available(); std::size_t k = 0; while(q.push(2)) k++; return n == k ? 0 : 1; }')
TS = SH + '''#include <thread>
template<class Q> static int run(Q& q) { const int N = 20000; std::thread p([&] { for(int i = 0; i < N; i++) while(!q.push(std::string(20, char('a' + i % 26)))) std::this_thread::yield(); });
 int bad = 0; for(int i = 0; i < N; i++) { while(q.read_available() == 0) std::this_thread::yield(); q.consume([&](std::string&& s) { if(s != std::string(20, char('a' + i % 26))) bad++; }); } p.join(); return bad; }
int main() { xme::SPSCQueue<std::string> q(4); return run(q) ? 1 : 0; }
'''
TSF = '-g -O1 -fsanitize=thread -static-libtsan -pthread'
bug('c12-write-relaxed', 'C12', (SB, 'm_write_index.store(next, std::memory_order_release);', 'm_write_index.store(next, std::memory_order_relaxed);'), 'a weakly ordered machine (or compiler reordering); a race detector on x86', 'The producer publishes an element with a relaxed store: the consumer may see the index before the element.', TS, flags=TSF, libs='')
bug('c12-full-check-relaxed', 'C12', (SB, 'if(next == m_read_index.load(std::memory_order_acquire))', 'if(next == m_read_index.load(std::memory_order_relaxed))'), 'the producer reusing a slot the consumer has just released, on a weakly ordered machine or under a race detector', 'The producer learns of a freed slot by a relaxed load: it may overwrite an element that is still being read or destroyed.', TS, flags=TSF)
bug('c12-publish-early', 'C12', (SB, '''        std::ranges::construct_at(buffer + write_index, std::forward<Args>(args)...);
        m_write_index.store(next, std::memory_order_release);''', '''        m_write_index.store(next, std::memory_order_release);
        std::ranges::construct_at(buffer + write_index, std::forward<Args>(args)...);'''), 'a consumer that runs between the publication and the construction of an element', 'The element is published before it is constructed.', TS, flags=TSF)
bug('c13-full-constructs', 'C13', (SB, '''        if(next == m_read_index.load(std::memory_order_acquire))
            return false;  // SPSCQueue is full
        std::ranges::construct_at(buffer + write_index, std::forward<Args>(args)...);
''', '''        std::ranges::construct_at(buffer + write_index, std::forward<Args>(args)...);
        if(next == m_read_index.load(std::memory_order_acquire))
            return false;  // SPSCQueue is full
'''), 'a push into a full queue of elements with a destructor', 'emplace constructs the element before it finds the queue full; the element is never destroyed and the moved-from argument is lost.',
 SH + TRK + 'int main() { { xme::SPSCQueue<X> q(2); q.push(X(1)); X v(2); if(q.push(std::move(v))) return 2; if(v.v != 2) return 1; } return live == 0 ? 0 : 1; }')
bug('c13-dtor-wrap', 'C13', (SB, '''    constexpr ~DynamicSPSCQueue() noexcept {
        while(m_read_index != m_write_index) {''', '''    constexpr ~DynamicSPSCQueue() noexcept {
        while(m_read_index < m_write_index) {'''), 'destroying a queue whose elements wrap around the end of the ring', 'The destructor skips the elements when the write index has wrapped, so they are never destroyed.',
 SH + TRK + 'int main() { { xme::SPSCQueue<X> q(4); for(int i = 0; i < 3; i++) q.push(X(i)); q.pop(); q.pop(); q.push(X(9)); } return live == 0 ? 0 : 1; }')
bug('c13-pop-after-publish', 'C13', (SB, '''        std::ranges::destroy_at(buffer + read_index);
        m_read_index.store(next_index(read_index, max_size), std::memory_order_release);
    }

    template<typename Fun>''', '''        m_read_index.store(next_index(read_index, max_size), std::memory_order_release);
        if(!this->is_empty(m_write_index.load(std::memory_order_acquire), m_read_index))
            std::ranges::destroy_at(buffer + read_index);
    }

    template<typename Fun>'''), 'a pop of the last element in the queue', 'pop does not destroy the element when it was the last one in the queue.',
 SH + TRK + 'int main() { { xme::SPSCQueue<X> q(4); q.push(X(1)); q.push(X(2)); q.pop(); q.pop(); } return live == 0 ? 0 : 1; }')
TH = H + '#include <xme/container/tuple.hpp>\n#include <xme/container/pair.hpp>\n'
bug('c14-pair-second-copied', 'C14', (PA, 'second = get<1>(std::forward<P>(p));', 'second = get<1>(p);'), 'assigning an rvalue pair of another type with an expensive or observable copy in its second element', 'Assigning from an rvalue pair-like copies the second element instead of moving it.',
 TH + 'int main() { xme::Pair<long, std::string> a{0, ""}; xme::Pair<int, std::string> b{1, std::string(100, \'x\')}; const char* d = b.second.data(); a = std::move(b); return a.second.data() == d ? 0 : 1; }')
bug('c14-tuple-move-assign', 'C14', (TU, '''    constexpr auto operator=(U&& tup) -> self& {
        assign_tuple_index(std::forward<U>(tup), std::make_index_sequence<size>{});''', '''    constexpr auto operator=(U&& tup) -> self& {
        assign_tuple_index(std::move(tup), std::make_index_sequence<size>{});'''), 'assigning an lvalue tuple of another type and using the source afterwards', 'Assignment from an lvalue tuple-like moves its elements away.',
 TH + 'int main() { xme::Tuple<long, std::string> a{0, ""}; xme::Tuple<int, std::string> b{1, std::string(100, \'x\')}; a = b; return get<1>(b).size() == 100 && get<1>(a).size() == 100 ? 0 : 1; }')
bug('c14-swap-first', 'C14', (TU, '(std::ranges::swap(get<I>(*this), get<I>(tup)), ...);', '((get<I>(*this) != get<I>(tup) ? std::ranges::swap(get<I>(*this), get<I>(tup)) : void()), ...);'), 'swapping tuples with elements that compare equal but differ (such as -0.0 and 0.0)', 'swap skips elements that compare equal.',
 TH + '#include <cmath>\nint main() { xme::Tuple<double, int> a{0.0, 1}, b{-0.0, 1}; a.swap(b); return std::signbit(get<0>(a)) && !std::signbit(get<0>(b)) ? 0 : 1; }')
bug('c15-cat-steals', 'C15', (TU, 'return R{get<OuterIndex>(get<InnerIndex>(std::move(tup)))...};', 'return R{get<OuterIndex>(std::move(get<InnerIndex>(tup)))...};'), 'concatenating an lvalue tuple and using it afterwards', 'tuple_cat moves the elements out of tuples that were passed as lvalues.',
 TH + 'int main() { xme::Tuple<std::string> a{std::string(100, \'x\')}; xme::Tuple<int> b{1}; auto c = xme::tuple_cat(a, b); return get<0>(a).size() == 100 && get<0>(c).size() == 100 ? 0 : 1; }')
bug('c16-cache-line-cap', 'C16', (AD, 'alignas(Align) std::array<std::byte, sizeof(T)> m_data{};', 'alignas(Align < 64 ? Align : 64) std::array<std::byte, sizeof(T)> m_data{};'), 'an alignment above 64 (a page, two cache lines)', 'Alignments above 64 are silently reduced to 64.',
 H + '#include <xme/container/aligned_data.hpp>\nint main() { static_assert(alignof(xme::AlignedData<int, 32>) == 32); struct S { char c; xme::AlignedData<int, 256> d; } s[3]; for(auto& x : s) if((std::uintptr_t)x.d.data() % 256) return 1; return 0; }')
UH = H + '#include <array>\n#include <functional>\n#include <xme/ranges/uninitialized.hpp>\n'
bug('c20-copy-in-end', 'C20', (UN, 'return {in_first, out_curr};', 'return {in_last, out_curr};'), 'an output range shorter than the input', 'uninitialized_copy reports that the whole input was copied although the output was full before.',
 UH + 'int main() { int a[4] = {1,2,3,4}, b[2]; std::allocator<int> al; auto r = xme::ranges::uninitialized_copy_a(a + 0, a + 4, b + 0, b + 2, al); return r.first == a + 2 && r.second == b + 2 ? 0 : 1; }')
bug('c20-fill-rollback', 'C20', (UN, '''            ranges::destroy_a(first, curr, alloc);
            throw;
        }
        return curr;''', '''            ranges::destroy_a(std::next(first), curr, alloc);
            throw;
        }
        return curr;'''), 'a copy that throws during uninitialized_fill_n after at least one element was built', 'The rollback of uninitialized_fill_n skips the first element it built.',
 UH + TRK + 'int main() { X v(1); alignas(X) char m[sizeof(X) * 4]; std::allocator<X> al; budget = 2; try { xme::ranges::uninitialized_fill_n_a((X*)m, 4, v, al); return 2; } catch(int) {} return live == 1 ? 0 : 1; }')
bug('c20-destroy-n', 'C20', (DE, 'for(; n > 0; ++first, (void)--n) {\n            ranges::destroy_at_a(std::addressof(*first), alloc);', 'for(const auto last = std::next(first, n); first != last; ++first) {\n            if(--n > 0 || first == last)\n                ranges::destroy_at_a(std::addressof(*first), alloc);'), 'destroy_n or erase of a range of elements with a destructor', 'destroy_n leaves the last of the n elements alive.',
 UH + TRK + 'int main() { alignas(X) char m[sizeof(X) * 3]; X* p = (X*)m; for(int i = 0; i < 3; i++) new(p + i) X(i); std::allocator<X> al; xme::ranges::destroy_n_a(p, 3, al); return live == 0 ? 0 : 1; }')
bug('c19-post-decrement', 'C19', (A, 'constexpr auto operator--(int) noexcept -> Iterator { return m_cursor--; }', 'constexpr auto operator--(int) noexcept -> Iterator { return --m_cursor; }'), 'use of the value of a post-decremented array iterator', 'it-- yields the decremented instead of the previous position.',
 ARR + 'int main() { xme::Array<int> a{1,2,3}; auto it = a.begin() + 2; auto old = it--; return *old == 3 && *it == 2 ? 0 : 1; }')
