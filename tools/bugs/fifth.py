A = 'include/xme/container/array.hpp'; LL = 'include/xme/container/linked_list.hpp'; HE = 'include/xme/container/heap.hpp'; AV = 'include/xme/container/array_view.hpp'; SB = 'private/container/spsc_queue_base.hpp'
TU = 'include/xme/container/tuple.hpp'; PA = 'include/xme/container/pair.hpp'; RE = 'include/xme/core/algorithm/reverse.hpp'; FI = 'include/xme/core/algorithm/find.hpp'; FL = 'include/xme/core/utility/forward_like.hpp'
BI = 'include/xme/core/functional/bind.hpp'; DG = 'include/xme/core/functional/delegate.hpp'; MM = 'include/xme/math/matrix.hpp'; M4 = 'include/xme/math/matrices/matrix4x4.hpp'; MV = 'include/xme/math/vector.hpp'; V3 = 'include/xme/math/vectors/vector3.hpp'
VF = 'include/xme/math/vectors/functions.hpp'; GE = 'include/xme/math/vectors/geometry.hpp'; MF = 'include/xme/math/matrices/functions.hpp'; MT = 'include/xme/math/matrices/transformation.hpp'; MP = 'include/xme/math/matrices/perspective.hpp'; CIT = 'include/xme/core/iterators/const_iterator.hpp'; RIT = 'include/xme/core/iterators/reverse_iterator.hpp'
H = '#include <cstdio>\n#include <cstdlib>\n#include <cstdint>\n#include <cstring>\n#include <new>\n#include <memory>\n#include <utility>\n#include <string>\n#include <vector>\n#include <cmath>\n#include <limits>\n'
ARR = H + '#include <xme/container/array.hpp>\n'; LLH = H + '#include <xme/container/linked_list.hpp>\n'; TH = H + '#include <xme/container/tuple.hpp>\n#include <xme/container/pair.hpp>\n'; HH = H + '#include <xme/container/heap.hpp>\n'; QH = H + '#include <xme/container/spsc_queue.hpp>\n'; AVH = H + '#include <array>\n#include <xme/container/array_view.hpp>\n'
MTH = H + '#include <xme/math/math.hpp>\nusing namespace xme::math;\n'
COP = 'static int copies = 0; struct M { int v; M(int a = 0) : v(a) {} M(const M& o) : v(o.v) { copies++; } M(M&& o) noexcept : v(o.v) { o.v = -1; } M& operator=(const M& o) { v = o.v; copies++; return *this; } M& operator=(M&& o) noexcept { v = o.v; return *this; } bool operator<(const M& o) const { return v < o.v; } };\n'
SIMD2 = '-O1 -mavx2 -DXME_SIMD_ENABLE_AVX2'
bug('c09-move-single', 'C09', (LL, '''        m_head.next       = other.m_head.next;
        other.m_head.next = nullptr;''', '''        m_head.next = other.m_head.next;
        if(m_head.next != nullptr && m_head.next->next != nullptr)
            other.m_head.next = nullptr;'''), 'moving from a list of exactly one element', 'The node of a list of one element belongs to both lists after the move and is released twice.', LLH + 'static int live = 0; struct T { T() { live++; } T(const T&) { live++; } ~T() { live--; } }; int main() { { xme::LinkedList<T> a; a.emplace_front(); xme::LinkedList<T> b(std::move(a)); int n = 0; for(auto it = a.begin(); it != a.end(); ++it) n++; if(n) std::_Exit(1); } return live == 0 ? 0 : 1; }')
bug('c10-carray-8', 'C10', (AV, '      ArrayView(static_cast<pointer>(arr), Lenght) {}', '      ArrayView(static_cast<pointer>(arr), Size == dynamic_size ? static_cast<std::uint8_t>(Lenght) : Lenght) {}'), 'a dynamic view of a built-in array of 256 or more elements', 'The length of a built-in array is truncated to eight bits.', AVH + 'int main() { static int a[300]; xme::ArrayView<int, std::size_t(-1)> v(a); return v.size() == 300 ? 0 : 1; }')
bug('c10-last-middle', 'C10', (AV, '        return ArrayView<T, dynamic_size>(m_view + (size() - count), count);', '        return ArrayView<T, dynamic_size>(m_view + static_cast<unsigned>(size() - count), count);'), 'last() of a view of more than 4 gibielements', 'The offset of the last elements is truncated to 32 bits.', AVH + 'int main() { char* p = reinterpret_cast<char*>(0x10000); std::size_t n = (1ull << 32) + 10; const xme::ArrayView<char> v(p, n); auto w = v.last(2); return w.begin() == p + n - 2 ? 0 : 1; }')
bug('c12-consume-relaxed', 'C12', (SB, '''        fn(std::move(buffer[read_index]));
        std::ranges::destroy_at(buffer + read_index);
        m_read_index.store(next_index(read_index, max_size), std::memory_order_release);''', '''        fn(std::move(buffer[read_index]));
        std::ranges::destroy_at(buffer + read_index);
        m_read_index.store(next_index(read_index, max_size), std::memory_order_relaxed);'''), 'a consumer that uses consume and a producer that reuses the slot', 'consume gives the slot back without ordering the use of the element before its reuse.', QH + '#include <thread>\nint main() { xme::SPSCQueue<std::string> q(2); const int n = 20000; std::thread c([&] { for(int i = 0; i < n;) if(q.read_available()) { q.consume([](std::string&& s) { std::string t(std::move(s)); if(t.empty()) std::abort(); }); i++; } }); for(int i = 0; i < n;) if(q.emplace(std::size_t(40), char(65))) i++; c.join(); return 0; }', flags='-O1 -fsanitize=thread')
bug('c13-consume-forward', 'C13', (SB, '''    template<typename Fun>
    constexpr void consume(T* buffer, size_type max_size, Fun&& fn) {
        const std::size_t read_index = m_read_index.load(std::memory_order_relaxed);''', '''    template<typename Fun>
    constexpr void consume(T* buffer, size_type max_size, Fun&& fn) noexcept {
        const std::size_t read_index = m_read_index.load(std::memory_order_relaxed);'''), 'a consuming function that throws', 'An exception of the consuming function terminates the program.', QH + 'int main() { xme::SPSCQueue<int> q(4); q.push(1); try { q.consume([](int) { throw 1; }); } catch(int) { return q.read_available() == 1 ? 0 : 1; } return 1; }')
bug('c15-make-noexcept', 'C15', (TU, '  noexcept(std::is_nothrow_constructible_v<Tuple<std::unwrap_ref_decay_t<T>...>, T...>) {', '  noexcept((std::is_nothrow_constructible_v<T, T> && ...)) {'), 'make_tuple of an lvalue whose copy throws', 'An exception of an element copy terminates the program.', TH + 'struct E { E() {} E(const E&) { throw 1; } }; int main() { E e; try { auto t = xme::make_tuple(e); } catch(int) { return 0; } return 1; }')
bug('c18-index-int', 'C18', (CIT, '        return m_current[n];', '        return m_current[static_cast<int>(n)];'), 'an index of two gibielements or more', 'The index is truncated to int.', H + '#include <xme/core/iterators/const_iterator.hpp>\n#include <sys/mman.h>\nint main() { std::size_t n = (1ull << 32) + 4096; char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) return 0; p[n - 4096] = 7; xme::ConstIterator<char*> it(p); return it[n - 4096] == 7 ? 0 : 1; }')
bug('c21-fill-alloc', 'C21', (A, '      Array(n, alloc) {\n        m_data.end = ranges::uninitialized_fill_n_a', '      Array(n) {\n        if constexpr(!alloc_traits::is_always_equal::value && alloc_traits::propagate_on_container_copy_assignment::value)\n            m_allocator = alloc;\n        m_data.end = ranges::uninitialized_fill_n_a'), 'a stateful allocator given to the constructor from a count and a value', 'The block comes from a default allocator instead of the given one.', ARR + 'static int from = -1; template<class T> struct SA { using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using propagate_on_container_swap = std::true_type; using is_always_equal = std::false_type; int id = 0; SA(int i = 0) : id(i) {} T* allocate(std::size_t n) { from = id; return (T*)std::malloc(sizeof(T) * n + 1); } void deallocate(T* p, std::size_t) { std::free(p); } bool operator==(const SA&) const = default; }; int main() { xme::Array<int, SA<int>> a(std::size_t(3), 5, SA<int>(7)); return from == 7 ? 0 : 1; }')
bug('c22-insert-after', 'C22', (LL, '        return emplace_after(pos, std::forward<U>(value));', '        return emplace_after(pos, value);'), 'insert_after with an rvalue', 'insert_after copies rvalues.', LLH + COP + 'int main() { xme::LinkedList<M> l; l.insert_after(l.before_begin(), M(3)); return copies == 0 ? 0 : 1; }')
bug('c22-heap-emplace', 'C22', (HE, '        m_array.emplace_back(std::forward<Args>(args)...);\n', '        m_array.push_back(static_cast<const T&>(T(std::forward<Args>(args)...)));\n'), 'emplace into a heap', 'Heap::emplace copies a temporary element.', HH + COP + 'int main() { xme::Heap<M> h; h.emplace(4); return copies == 0 && h.front().v == 4 ? 0 : 1; }')
bug('a01-last-match', 'A01', (FI, '        return mask == 0 ? 4 : std::countr_zero(mask);\n    }\n    else\n#elif', '        return mask == 0 ? 4 : std::bit_width(mask) - 1;\n    }\n    else\n#elif'), 'an AVX2 build and two equal 64-bit elements in one block', 'The last instead of the first match of a block of 64-bit elements is returned.', H + '#include <xme/core/algorithm/find.hpp>\nint main() { std::int64_t a[4] = {1, 5, 2, 5}; return xme::find(a, a + 4, std::int64_t(5)) == a + 1 ? 0 : 1; }', flags=SIMD2, libs='-ltbb')
bug('f03-return-value', 'F03', (BI, '''      std::is_nothrow_invocable_v<const F&, CallArgs..., const Args&...>) -> decltype(auto) {
        return BindBack''', '''      std::is_nothrow_invocable_v<const F&, CallArgs..., const Args&...>) {
        return BindBack'''), 'a constant bind_back object whose function returns a reference', 'A reference returned through a constant binder becomes a copy.', H + '#include <xme/core/functional/bind.hpp>\nstatic int g = 1; int& f(int, int) { return g; } int main() { const auto b = xme::bind_back(f, 2); auto&& r = b(1); return &r == &g ? 0 : 1; }')
bug('f05-array-decay', 'F05', (FL, '            return std::move(std::as_const(value));', '            return static_cast<const std::decay_t<T>&&>(value);'), 'an array and a constant rvalue model', 'An array decays to a pointer to a temporary that is gone on return.', H + '#include <xme/core/utility/forward_like.hpp>\nint main() { int a[3] = {1, 2, 3}; return std::is_same_v<decltype(xme::forward_like<const int>(a)), const int(&&)[3]> ? 0 : 1; }')
bug('m01-div-reciprocal', 'M01', (V3, '    VEC_OP(*)\n    VEC_OP(/)\n', '''    VEC_OP(*)

    [[nodiscard]]
    constexpr auto operator/(auto s) const noexcept -> Vector {
        if constexpr(CFloatingPoint<T>) {
            const T inverse = 1 / static_cast<T>(s);
            return {x * inverse, y * inverse, z * inverse};
        }
        else
            return {x / static_cast<T>(s), y / static_cast<T>(s), z / static_cast<T>(s)};
    }

    template<typename U>
    [[nodiscard]]
    constexpr auto operator/(const Vector<U, 3>& v) const noexcept -> Vector {
        return {x / static_cast<T>(v.x), y / static_cast<T>(v.y), z / static_cast<T>(v.z)};
    }
'''), 'dividing a floating vector by a scalar that is no power of two', 'The quotient is rounded twice and differs from the division of the components.', MTH + 'int main() { for(int d = 1; d < 60; d++) for(int i = 1; i < 60; i++) { volatile float n = float(i), q = float(d); vec3 v = vec3(float(n), 1.f, 2.f) / float(q); if(v.x != n / q) return 1; } return 0; }')
bug('m03-dot-float', 'M03', (GE, '''    T result = 0;
    for(std::size_t i = 0; i < Size; ++i)
        result += (v1[i] * v2[i]);''', '''    std::conditional_t<(Size > 4), float, T> result = 0;
    for(std::size_t i = 0; i < Size; ++i)
        result += (v1[i] * v2[i]);'''), 'the dot product of double vectors of more than four components', 'The sum is accumulated in single precision.', MTH + 'int main() { Vector<double, 5> a(1.0, 0.0, 0.0, 0.0, 1e-10), b(1.0, 0.0, 0.0, 0.0, 1.0); return std::fabs(dot(a, b) - (1.0 + 1e-10)) < 1e-15 ? 0 : 1; }')
bug('m04-float', 'M04', (MV, '        return (*this) * (1 / length());', '        return (*this) * static_cast<T>(1 / static_cast<float>(length()));'), 'normalising a generic vector of double components', 'The factor is rounded to single precision.', MTH + 'int main() { Vector<double, 5> a(1.0, 1.0, 1.0, 0.0, 0.0); return std::fabs(a.normalize().length() - 1.0) < 1e-12 ? 0 : 1; }')
bug('m06-compound-wide', 'M06', (MM, '''        for(std::size_t i = 0; i < Cols; ++i)                \\
            (*this)[i] op static_cast<T>(s);                 \\''', '''        for(std::size_t i = 0; i < std::min(Cols, Rows); ++i) \\
            (*this)[i] op static_cast<T>(s);                 \\'''), 'compound scalar operators of a matrix with more columns than rows', 'The columns beyond the number of rows keep their values.', MTH + 'int main() { Matrix<float, 4, 2> m(1.f); m[3][1] = 2.f; m *= 3.f; return m[3][1] == 6.f ? 0 : 1; }')
bug('m10-float-sine', 'M10', (MT, '    const auto s{std::sin(static_cast<T>(angle))};', '    const T s{std::sin(static_cast<float>(angle))};'), 'rotating a matrix of doubles', 'The sine is computed in single precision.', MTH + 'int main() { auto m = rotate(dmat4(1.0), 0.7, dvec3(0.0, 0.0, 1.0)); return std::fabs(m[0][1] - std::sin(0.7)) < 1e-12 ? 0 : 1; }')
bug('m11-fov-clamp', 'M11', (MP, '''    const auto halfTan = std::tan(fov / 2);

    Matrix<T, 4, 4> result{0};
    result[0][0] = 1 / (aspect_ratio * halfTan);
    result[1][1] = 1 / halfTan;
    result[2][2] = -(far''', '''    const auto halfTan = std::min(std::tan(fov / 2), T(4));

    Matrix<T, 4, 4> result{0};
    result[0][0] = 1 / (aspect_ratio * halfTan);
    result[1][1] = 1 / halfTan;
    result[2][2] = -(far'''), 'a right-handed perspective with a field of view above 152 degrees', 'Very wide fields of view are narrowed.', MTH + 'int main() { double f = 2.9; auto m = perspective_rh(f, 1.0, 1.0, 10.0); return std::fabs(m[1][1] * std::tan(f / 2) - 1) < 1e-9 ? 0 : 1; }')
