A = 'include/xme/container/array.hpp'; LL = 'include/xme/container/linked_list.hpp'; HE = 'include/xme/container/heap.hpp'; AV = 'include/xme/container/array_view.hpp'; SB = 'private/container/spsc_queue_base.hpp'
TU = 'include/xme/container/tuple.hpp'; PA = 'include/xme/container/pair.hpp'; RE = 'include/xme/core/algorithm/reverse.hpp'; FI = 'include/xme/core/algorithm/find.hpp'; FL = 'include/xme/core/utility/forward_like.hpp'
BI = 'include/xme/core/functional/bind.hpp'; DG = 'include/xme/core/functional/delegate.hpp'; MM = 'include/xme/math/matrix.hpp'; M4 = 'include/xme/math/matrices/matrix4x4.hpp'; MV = 'include/xme/math/vector.hpp'; V3 = 'include/xme/math/vectors/vector3.hpp'
VF = 'include/xme/math/vectors/functions.hpp'; GE = 'include/xme/math/vectors/geometry.hpp'; MF = 'include/xme/math/matrices/functions.hpp'; MT = 'include/xme/math/matrices/transformation.hpp'; MP = 'include/xme/math/matrices/perspective.hpp'; CIT = 'include/xme/core/iterators/const_iterator.hpp'; RIT = 'include/xme/core/iterators/reverse_iterator.hpp'
H = '#include <cstdio>\n#include <cstdlib>\n#include <cstdint>\n#include <cstring>\n#include <new>\n#include <memory>\n#include <utility>\n#include <string>\n#include <vector>\n#include <cmath>\n#include <limits>\n'
ARR = H + '#include <xme/container/array.hpp>\n'; LLH = H + '#include <xme/container/linked_list.hpp>\n'; TH = H + '#include <xme/container/tuple.hpp>\n#include <xme/container/pair.hpp>\n'; HH = H + '#include <xme/container/heap.hpp>\n'; QH = H + '#include <xme/container/spsc_queue.hpp>\n'; AVH = H + '#include <array>\n#include <xme/container/array_view.hpp>\n'
MTH = H + '#include <xme/math/math.hpp>\nusing namespace xme::math;\n'
COP = 'static int copies = 0; struct M { int v; M(int a = 0) : v(a) {} M(const M& o) : v(o.v) { copies++; } M(M&& o) noexcept : v(o.v) { o.v = -1; } M& operator=(const M& o) { v = o.v; copies++; return *this; } M& operator=(M&& o) noexcept { v = o.v; return *this; } bool operator<(const M& o) const { return v < o.v; } };\n'
SIMD2 = '-O1 -mavx2 -DXME_SIMD_ENABLE_AVX2'
SD = 'include/xme/core/functional/scoped_delegate.hpp'; PL = 'include/xme/hal/linux/platform.hpp'; SL = 'include/xme/hal/shared_library.hpp'; QU = 'include/xme/math/quaternion.hpp'; TR = 'include/xme/math/scalars/trigonometry.hpp'; UN = 'include/xme/ranges/uninitialized.hpp'; TB = 'private/container/tuple_base.hpp'; AD = 'include/xme/container/aligned_data.hpp'
bug('c06-single-pass', 'C06', (HE, '        if constexpr(std::contiguous_iterator<Iter>)\n            m_array.reserve(std::ranges::distance(first, last));', '        if constexpr(std::copyable<Iter>)\n            m_array.reserve(std::ranges::distance(first, last));'), 'a heap built from a single-pass iterator pair', 'Measuring the range consumes it: the heap misses its elements.', HH + '#include <iterator>\nstruct S { int* p; int* e; }; struct It { using value_type = int; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag; S* s = nullptr; int operator*() const { return *s->p; } It& operator++() { ++s->p; return *this; } void operator++(int) { ++s->p; } bool operator==(std::default_sentinel_t) const { return s->p == s->e; } };\nint main() { int d[] = {3, 9, 1, 4}; S s{d, d + 4}; xme::Heap<int> h(It{&s}, std::default_sentinel); return h.size() == 4 && h.front() == 9 ? 0 : 1; }\n')
bug('c22-heap-range-moves', 'C22', (HE, '''        for(; first != last; ++first) {
            push(*first);
        }
    }

    [[nodiscard]]
    constexpr auto begin()''', '''        for(; first != last; ++first) {
            push(::ranges::iter_move(first));
        }
    }

    [[nodiscard]]
    constexpr auto begin()'''), 'a heap built from an lvalue range of elements that can be moved', 'The elements of the source range are moved out.', HH + COP + 'int main() { std::vector<M> v(3); for (int i = 0; i < 3; i++) v[i].v = i + 1; xme::Heap<M> h(v); for (int i = 0; i < 3; i++) if (v[i].v != i + 1) return 1; return h.front().v == 3 ? 0 : 1; }\n')
bug('f04-const-call', 'F04', (SD, 'constexpr ~ScopedDelegate() noexcept { m_callable(); }', '''constexpr ~ScopedDelegate() noexcept {
        if constexpr(std::invocable<const F&>)
            std::as_const(m_callable)();
        else
            m_callable();
    }'''), 'a callable whose constant call operator differs', 'The constant overload is called instead of the callable the scope holds.', H + '#include <xme/core/functional/scoped_delegate.hpp>\nstatic int n = 0; struct F { void operator()() { n += 1; } void operator()() const { n += 100; } };\nint main() { { F f; xme::ScopedDelegate<F> s(f); } return n == 1 ? 0 : 1; }\n')
bug('h01-same-length', 'H01', (PL, '    if(value.length() == 0) {', '    if(const char* old = std::getenv(std::string(name).c_str());\n       old != nullptr && !value.empty() && std::string_view(old).starts_with(value))\n        return;\n    else if(value.empty()) {'), 'setting a value that the current one starts with', 'The longer old value stays.', H + '#include <xme/hal/platform.hpp>\nint main() { xme::hal::set_environment_variable("XME_T", "abc"); xme::hal::set_environment_variable("XME_T", "ab"); const char* p = std::getenv("XME_T"); return p && std::string(p) == "ab" ? 0 : 1; }\n')
bug('m12-double-cover', 'M12', (QU, '    constexpr bool operator==(const Quaternion&) const noexcept = default;', '''    constexpr bool operator==(const Quaternion& q) const noexcept {
        return (w == q.w && x == q.x && y == q.y && z == q.z)
               || (w == -q.w && x == -q.x && y == -q.y && z == -q.z);
    }'''), 'comparing a quaternion with its negative', 'A quaternion equals its negative.', MTH + 'int main() { Quaternion<float> a(1, 2, 3, 4), b(-1, -2, -3, -4); return a == b || !(a == a) ? 1 : 0; }\n')
bug('m02-round', 'M02', (V3, '    explicit constexpr Vector(const Vector<U, 3>& v) noexcept : Vector(v.x, v.y, v.z) {}', '''    explicit constexpr Vector(const Vector<U, 3>& v) noexcept : Vector(v.x, v.y, v.z) {
        if constexpr(std::is_integral_v<T> && std::is_same_v<U, double>) {
            x = static_cast<T>(std::floor(v.x));
            y = static_cast<T>(std::floor(v.y));
            z = static_cast<T>(std::floor(v.z));
        }
    }'''), 'converting a double vector with negative fractions to integers', 'Negative fractions are rounded down instead of towards zero.', MTH + 'int main() { Vector<double, 3> d(-1.5, 1.5, -0.25); Vector<int, 3> i(d); return i.x == -1 && i.y == 1 && i.z == 0 ? 0 : 1; }\n')
bug('m10-reduced', 'M10', (MT, '    const auto s{std::sin(static_cast<T>(angle))};\n    const auto c{std::cos(static_cast<T>(angle))};', '    const T half{std::abs(static_cast<T>(angle)) > 4 ? static_cast<T>(angle) - T(6.2831855) : static_cast<T>(angle)};\n    const auto s{std::sin(half)};\n    const auto c{std::cos(half)};'), 'rotating by a negative angle below -4 with doubles, or by any large one', 'The angle is reduced by a rounded turn.', MTH + '#include <cmath>\nint main() { for (double a = -6; a < 7; a += 0.25) { dmat4 m = rotate(dmat4(1), a, dvec3(0, 0, 1)); if (std::fabs(m[0][0] - std::cos(a)) > 1e-9 || std::fabs(m[0][1] - std::sin(a)) > 1e-9) return 1; } return 0; }\n')
bug('m14-int', 'M14', (TR, '''XME_INLINE constexpr auto csc(T s) noexcept -> decltype(1 / sin(s)) {
    return 1 / sin(s);''', '''XME_INLINE constexpr auto csc(T s) noexcept -> decltype(1 / sin(s)) {
    return 1 / sin(static_cast<std::conditional_t<std::is_integral_v<T>, float, T>>(s));'''), 'csc of an integral argument', 'The cosecant of integers is only precise to single precision.', MTH + 'int main() { for (int i = 1; i < 30; i++) { double e = csc(i) - 1 / std::sin((double)i); if (std::fabs(e) > 1e-9 * std::fabs(csc(i))) return 1; } return 0; }\n')
bug('m11-flip', 'M11', (MP, '''    Matrix<T, 4, 4> result{1};
    result[0][0] = 2 / (right - left);
    result[1][1] = 2 / (top - bottom);
    result[2][2] = -2 / (far - near);''', '''    Matrix<T, 4, 4> result{1};
    result[0][0] = 2 / (right - left);
    result[1][1] = 2 / std::abs(top - bottom);
    result[2][2] = -2 / (far - near);'''), 'a right-handed ortho with the top below the bottom', 'A flipped volume is no longer flipped.', MTH + 'int main() { auto m = ortho_rh(0.f, 8.f, 6.f, 0.f, -1.f, 1.f); auto p = m * vec4(0.f, 0.f, 0.f, 1.f), q = m * vec4(8.f, 6.f, 0.f, 1.f); return std::fabs(p.y - 1) < 1e-4f && std::fabs(q.y + 1) < 1e-4f ? 0 : 1; }\n')
bug('c11-wide-index', 'C11', (SB, '        if(write_index >= read_index)\n            return write_index - read_index;', '        if(static_cast<std::make_signed_t<size_type>>(write_index - read_index) > 0 || write_index == 0)\n            return write_index - read_index;'), 'reading the fill level when the ring has just wrapped to zero', 'The number of elements underflows after the wrap.', QH + 'int main() { xme::SPSCQueue<int> q(4); for (int i = 0; i < 3; i++) q.push(i); q.pop(); if (!q.push(3)) return 2; return q.read_available() == 3 ? 0 : 1; }\n')
bug('c20-copy-range', 'C20', (UN, '''        try {
            for(; n > 0; --n, (void)++curr) {''', '''        try {
            if constexpr(std::is_trivially_copyable_v<T> && sizeof(T) == 1 && std::contiguous_iterator<Iter>) {
                std::fill_n(std::to_address(curr), n, value);
                return curr + static_cast<std::ptrdiff_t>(n);
            }
            for(; n != 0; --n, (void)++curr) {'''), 'filling with one-byte elements through an allocator that counts or tags constructions', 'The elements are not constructed through the allocator.', ARR + '#include <algorithm>\nstatic int made = 0; template <class T> struct AL { using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using propagate_on_container_swap = std::true_type; using is_always_equal = std::true_type; T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); } void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); } template <class U, class... A> void construct(U* p, A&&... a) { made++; ::new ((void*)p) U(std::forward<A>(a)...); } bool operator==(const AL&) const { return true; } };\nint main() { xme::Array<unsigned char, AL<unsigned char>> a(5, (unsigned char)7); return made == 5 && a[4] == 7 ? 0 : 1; }\n')
