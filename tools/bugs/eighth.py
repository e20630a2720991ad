A = 'include/xme/container/array.hpp'; LL = 'include/xme/container/linked_list.hpp'; HE = 'include/xme/container/heap.hpp'; AV = 'include/xme/container/array_view.hpp'; SB = 'private/container/spsc_queue_base.hpp'
TU = 'include/xme/container/tuple.hpp'; PA = 'include/xme/container/pair.hpp'; RE = 'include/xme/core/algorithm/reverse.hpp'; FI = 'include/xme/core/algorithm/find.hpp'; FL = 'include/xme/core/utility/forward_like.hpp'
BI = 'include/xme/core/functional/bind.hpp'; DG = 'include/xme/core/functional/delegate.hpp'; MM = 'include/xme/math/matrix.hpp'; M4 = 'include/xme/math/matrices/matrix4x4.hpp'; MV = 'include/xme/math/vector.hpp'; V3 = 'include/xme/math/vectors/vector3.hpp'
VF = 'include/xme/math/vectors/functions.hpp'; GE = 'include/xme/math/vectors/geometry.hpp'; MF = 'include/xme/math/matrices/functions.hpp'; MT = 'include/xme/math/matrices/transformation.hpp'; MP = 'include/xme/math/matrices/perspective.hpp'; CIT = 'include/xme/core/iterators/const_iterator.hpp'; RIT = 'include/xme/core/iterators/reverse_iterator.hpp'
H = '#include <cstdio>\n#include <cstdlib>\n#include <cstdint>\n#include <cstring>\n#include <new>\n#include <memory>\n#include <utility>\n#include <string>\n#include <vector>\n#include <cmath>\n#include <limits>\n'
ARR = H + '#include <xme/container/array.hpp>\n'; LLH = H + '#include <xme/container/linked_list.hpp>\n'; TH = H + '#include <xme/container/tuple.hpp>\n#include <xme/container/pair.hpp>\n'; HH = H + '#include <xme/container/heap.hpp>\n'; QH = H + '#include <xme/container/spsc_queue.hpp>\n'; AVH = H + '#include <array>\n#include <xme/container/array_view.hpp>\n'
MTH = H + '#include <xme/math/math.hpp>\nusing namespace xme::math;\n'
COP = 'static int copies = 0; struct M { int v; M(int a = 0) : v(a) {} M(const M& o) : v(o.v) { copies++; } M(M&& o) noexcept : v(o.v) { o.v = -1; } M& operator=(const M& o) { v = o.v; copies++; return *this; } M& operator=(M&& o) noexcept { v = o.v; return *this; } bool operator<(const M& o) const { return v < o.v; } };\n'
SIMD2 = '-O1 -mavx2 -DXME_SIMD_ENABLE_AVX2'
SD = 'include/xme/core/functional/scoped_delegate.hpp'; PL = 'include/xme/hal/linux/platform.hpp'; SL = 'include/xme/hal/shared_library.hpp'; QU = 'include/xme/math/quaternion.hpp'; TR = 'include/xme/math/scalars/trigonometry.hpp'; UN = 'include/xme/ranges/uninitialized.hpp'; TB = 'private/container/tuple_base.hpp'; AD = 'include/xme/container/aligned_data.hpp'

SI = 'include/xme/hal/simd_detection.hpp'; SC = 'include/xme/math/scalars/functions.hpp'; IC = 'include/xme/container/icontainer.hpp'
bug('c02-insert-assign', 'C02', (A, '        alloc_traits::construct(m_allocator, m_data.end, std::move(*(m_data.end - 1)));', '        *m_data.end = std::move(*(m_data.end - 1));'), 'an element inserted in the middle of an array with spare capacity, with elements whose assignment reads the target', 'The slot past the last element, which holds no element, is assigned to.', ARR + 'static int bad = 0; struct E { unsigned magic = 0xC0FFEE; int v; E(int a) : v(a) {} E(const E& o) : v(o.v) {} E(E&& o) noexcept : v(o.v) {} E& operator=(const E& o) { if (magic != 0xC0FFEE) bad++; v = o.v; return *this; } E& operator=(E&& o) noexcept { if (magic != 0xC0FFEE) bad++; v = o.v; return *this; } ~E() { magic = 0; } };\nint main() { xme::Array<E> a; a.reserve(8); for (int i = 0; i < 8; i++) a.push_back(E(i)); while (a.size() > 3) a.pop_back(); a.insert(a.begin() + 1, E(9)); return bad == 0 && a.size() == 4 && a[1].v == 9 && a[3].v == 2 ? 0 : 1; }\n')
bug('c07-emplace', 'C07', (HE, '        m_array.emplace_back(std::forward<Args>(args)...);\n        heapfy_up(m_array.size() - 1);', '        m_array.emplace_back(std::forward<Args>(args)...);\n        for(auto i = m_array.size() > 1 && !m_compare(m_array[m_array.size() - 1], m_array[m_array.size() - 2]) ? 1 : m_array.size() - 1; i < m_array.size(); ++i)\n            heapfy_up(i);'), 'emplacing an element that is not below the one before it', 'The whole heap is sifted again: a linear number of comparisons.', HH + 'static long n = 0; struct C { bool operator()(int a, int b) const { n++; return a < b; } };\nint main() { xme::Heap<int, xme::Array<int>, C> h; for (int i = 0; i < 5000; i++) h.push(i); n = 0; h.emplace(7); h.emplace(8); h.emplace(9); return n < 200 ? 0 : 1; }\n')
bug('h03-and-subset', 'H03', (SI, '    return ESimd(static_cast<u>(e1) & static_cast<u>(e2));', '    return (static_cast<u>(e1) & static_cast<u>(e2)) == static_cast<u>(e2) ? e2 : ESimd{};'), 'two sets neither of which contains the other', 'The intersection is empty unless the second set lies in the first.', H + '#include <xme/hal/simd_detection.hpp>\nusing xme::hal::ESimd;\nint main() { return ((ESimd::sse | ESimd::avx) & (ESimd::avx | ESimd::mmx)) == ESimd::avx && (ESimd::sse & ESimd::sse) == ESimd::sse ? 0 : 1; }\n')
bug('h03-swapped', 'H03', (SI, '     | XME_SIMD_USE_AVX2 * XME_SIMD_AVX2 | XME_SIMD_USE_AVX512F * XME_SIMD_AVX512F)', '     | XME_SIMD_USE_AVX2 * XME_SIMD_AVX2 | XME_SIMD_HAS_AVX512F * XME_SIMD_AVX512F)'), 'a target with AVX512F for which the switch enables less', 'AVX512F is reported as enabled when it is only available.', H + '#include <xme/hal/simd_detection.hpp>\nusing xme::hal::ESimd;\nint main() { return (xme::hal::enabled_simd & ESimd::avx512f) == ESimd{} && (xme::hal::enabled_simd & ESimd::avx2) == ESimd::avx2 ? 0 : 1; }\n', flags='-O1 -mavx2 -DXME_SIMD_ENABLE_AVX2 -D__AVX512F__=1')
bug('m05-wide', 'M05', (SC, '    return (T(0) < n) - (n < T(0));', '    if constexpr(sizeof(T) > 4 && std::is_integral_v<T>) {\n        const auto i = static_cast<int>(n);\n        return (0 < i) - (i < 0);\n    }\n    else\n        return (T(0) < n) - (n < T(0));'), '64-bit integers beyond 32 bits', 'Only the low 32 bits decide the sign.', MTH + 'int main() { return sign(5ll) == 1 && sign(1ll << 40) == 1 && sign(-(3ll << 33)) == -1 && sign(0ll) == 0 ? 0 : 1; }\n')
bug('m07-tall', 'M07', (MM, '            const row_type row = this->row(rowIndex);', '            const row_type row = Rows > 4 && rowIndex >= 4 ? this->row(rowIndex % 4) * static_cast<T>(rowIndex == rowIndex % 4) : this->row(rowIndex);'), 'a product of matrices with more than four rows', 'The rows beyond the fourth are zero.', MTH + 'int main() { Matrix<float, 5, 5> a{1}, b{1}; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) a[i][j] = i * 5 + j; return a * b == a && b * a == a ? 0 : 1; }\n')
bug('c15-apply-fn', 'C15', (TU, '    return std::forward<F>(fun)(get<I>(std::forward<T>(tup))...);', '    return fun(get<I>(std::forward<T>(tup))...);'), 'apply with a temporary function object that tells the categories apart', 'The function is always called as an lvalue.', TH + 'struct F { int operator()(int a) & { return a; } int operator()(int a) && { return -a; } };\nint main() { F f; xme::Tuple<int> t{4}; return xme::apply(f, t) == 4 && xme::apply(F{}, t) == -4 ? 0 : 1; }\n')
bug('f02-copied-in', 'F02', (DG, '                f.template access<Functor*>() = new Functor(std::forward<Fn>(fn));', '                f.template access<Functor*>() = new Functor(fn);'), 'storing a large temporary function object', 'It is copied instead of moved.', H + '#include <xme/core/functional/delegate.hpp>\nstatic int copies = 0; struct F { long pad[8] = {}; int v; F(int a) : v(a) {} F(const F& o) : v(o.v) { copies++; } F(F&& o) noexcept : v(o.v) {} int operator()() const { return v; } };\nint main() { xme::Delegate<int()> d(F(3)); if (d() != 3 || copies != 0) return 1; F g(5); d = g; return d() == 5 && copies == 1 ? 0 : 1; }\n')
bug('c19-index-int', 'C19', (A, '    constexpr auto operator[](difference_type n) const noexcept -> reference { return m_cursor[n]; }', '    constexpr auto operator[](std::int32_t n) const noexcept -> reference { return m_cursor[n]; }'), 'indexing an iterator by more than 2^31 elements', 'The offset is truncated to 32 bits.', ARR + '#include <sys/mman.h>\nint main() { std::size_t n = 5000000000ull; char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == (char*)-1) return 0; p[4900000000ull] = 7; xme::Array<char>::iterator a(p); return a[4900000000ll] == 7 ? 0 : 1; }\n')
bug('c20-array-order', 'C20', (UN, '            for(; n > 0; --n, (void)++curr) {', '            for(; n > 0 && n <= 0x7fffffff; --n, (void)++curr) {'), 'filling 2^31 elements or more', 'Nothing is constructed at all.', H + '#include <xme/ranges/uninitialized.hpp>\nstruct It { using difference_type = std::ptrdiff_t; using value_type = char; using reference = char&; using pointer = char*; using iterator_category = std::forward_iterator_tag; char* p = nullptr; std::ptrdiff_t n = 0; char& operator*() const { return p[n & 7]; } It& operator++() { ++n; return *this; } It operator++(int) { It t = *this; ++n; return t; } bool operator==(const It&) const = default; };\nint main() { static char b[8]; std::allocator<char> al; auto r = xme::ranges::uninitialized_fill_n_a(It{b, 0}, 5, (char)3, al); if (r.n != 5) return 1; r = xme::ranges::uninitialized_fill_n_a(It{b, 0}, 0x80000001ull, (char)4, al); return r.n == 0x80000001ll ? 0 : 1; }\n')
bug('f06-return', 'F06', ('include/xme/core/functional/bind.hpp', '    return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(\n             this Self&&, T&&... call_args) -> decltype(auto) {\n        return std::invoke(f, xme', '    return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(\n             this Self&&, T&&... call_args) -> auto {\n        return std::invoke(f, xme'), 'bindFront of a function that returns a reference', 'A copy of the object is returned.', H + '#include <xme/core/functional/bind.hpp>\nstatic int cell = 3; int& f(int, int) { return cell; }\nint main() { auto b = xme::bindFront<f>(1); static_assert(true); auto&& r = b(2); return &r == &cell ? 0 : 1; }\n', cxx='clang++', flags='-std=c++23 -D__cpp_explicit_this_parameter=202110L')
