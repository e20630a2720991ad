A = 'include/xme/container/array.hpp'; LL = 'include/xme/container/linked_list.hpp'; HE = 'include/xme/container/heap.hpp'; AV = 'include/xme/container/array_view.hpp'; SB = 'private/container/spsc_queue_base.hpp'
TU = 'include/xme/container/tuple.hpp'; PA = 'include/xme/container/pair.hpp'; RE = 'include/xme/core/algorithm/reverse.hpp'; FI = 'include/xme/core/algorithm/find.hpp'; FL = 'include/xme/core/utility/forward_like.hpp'
BI = 'include/xme/core/functional/bind.hpp'; DG = 'include/xme/core/functional/delegate.hpp'; MM = 'include/xme/math/matrix.hpp'; M4 = 'include/xme/math/matrices/matrix4x4.hpp'; MV = 'include/xme/math/vector.hpp'; V3 = 'include/xme/math/vectors/vector3.hpp'
VF = 'include/xme/math/vectors/functions.hpp'; GE = 'include/xme/math/vectors/geometry.hpp'; MF = 'include/xme/math/matrices/functions.hpp'; MT = 'include/xme/math/matrices/transformation.hpp'; MP = 'include/xme/math/matrices/perspective.hpp'; CIT = 'include/xme/core/iterators/const_iterator.hpp'; RIT = 'include/xme/core/iterators/reverse_iterator.hpp'
H = '#include <cstdio>\n#include <cstdlib>\n#include <cstdint>\n#include <cstring>\n#include <new>\n#include <memory>\n#include <utility>\n#include <string>\n#include <vector>\n#include <cmath>\n#include <limits>\n'
ARR = H + '#include <xme/container/array.hpp>\n'; LLH = H + '#include <xme/container/linked_list.hpp>\n'; TH = H + '#include <xme/container/tuple.hpp>\n#include <xme/container/pair.hpp>\n'; HH = H + '#include <xme/container/heap.hpp>\n'; QH = H + '#include <xme/container/spsc_queue.hpp>\n'; AVH = H + '#include <array>\n#include <xme/container/array_view.hpp>\n'
MTH = H + '#include <xme/math/math.hpp>\nusing namespace xme::math;\n'
COP = 'static int copies = 0; struct M { int v; M(int a = 0) : v(a) {} M(const M& o) : v(o.v) { copies++; } M(M&& o) noexcept : v(o.v) { o.v = -1; } M& operator=(const M& o) { v = o.v; copies++; return *this; } M& operator=(M&& o) noexcept { v = o.v; return *this; } bool operator<(const M& o) const { return v < o.v; } };\n'
SIMD2 = '-O1 -mavx2 -DXME_SIMD_ENABLE_AVX2'
SD = 'include/xme/core/functional/scoped_delegate.hpp'; PL = 'include/xme/hal/linux/platform.hpp'; SL = 'include/xme/hal/shared_library.hpp'; QU = 'include/xme/math/quaternion.hpp'; TR = 'include/xme/math/scalars/trigonometry.hpp'; UN = 'include/xme/ranges/uninitialized.hpp'; TB = 'private/container/tuple_base.hpp'; AD = 'include/xme/container/aligned_data.hpp'
bug('a02-return', 'A02', (RE, '            s -= readable_bytes;\n        }\n        while(i < s)\n            ::ranges::iter_swap(i++, --s);\n        return end;', '            s -= readable_bytes;\n        }\n        while(i < s)\n            ::ranges::iter_swap(i++, --s);\n        return count < 0 && end - s < readable_bytes ? end : s;'), 'the result of a vectorised reversal of at least two blocks', 'The middle of the range is returned instead of its end.', H + '#include <xme/core/algorithm/reverse.hpp>\nint main() { unsigned char a[200]; for (int i = 0; i < 200; i++) a[i] = i; auto e = xme::reverse(a + 0, a + 200); for (int i = 0; i < 200; i++) if (a[i] != 199 - i) return 1; return e == a + 200 ? 0 : 1; }\n', flags=SIMD2, libs='-ltbb')
bug('c04-self-move', 'C04', (A, '        Array(std::move(other)).swap(*this);', '        clear();\n        swap(other);'), 'moving an array to itself', 'The array is empty afterwards.', ARR + 'int main() { xme::Array<int> a{1, 2, 3}; auto& b = a; a = std::move(b); return a.size() == 3 && a[2] == 3 ? 0 : 1; }\n')
bug('c16-lvalue', 'C16', (AD, '        std::construct_at(data(), std::forward<Args>(args)...);', '        std::construct_at(data(), args...);'), 'constructing from an rvalue of a type that tells the categories apart', 'The element is constructed from lvalues whatever was passed.', H + '#include <xme/container/aligned_data.hpp>\nstruct K { int k; K(int&) : k(1) {} K(const int&) : k(2) {} K(int&&) : k(3) {} };\nint main() { int x = 0; const int c = 0; xme::AlignedData<K> a(x), b(c), d(5); return a.data()->k == 1 && b.data()->k == 2 && d.data()->k == 3 ? 0 : 1; }\n')
bug('c17-distance-int', 'C17', (RIT, '        return rhs.m_current - lhs.m_current;', '        return static_cast<int>(rhs.m_current - lhs.m_current);'), 'reverse iterators more than 2^31 elements apart', 'The distance is truncated to int.', H + '#include <xme/core/iterators/reverse_iterator.hpp>\n#include <ranges>\nusing It = decltype(std::views::iota(0ll).begin());\nint main() { std::vector<int> d; auto r = std::views::iota(0ll, 10000000000ll); (void)r; char* p = (char*)0x100000; xme::ReverseIterator<char*> a(p + 10000000000ll), b(p); return b - a == 10000000000ll ? 0 : 1; }\n')
bug('c19-distance-int', 'C19', (A, '        return m_cursor - it.m_cursor;', '        return static_cast<int>(m_cursor - it.m_cursor);'), 'positions more than 2^31 elements apart', 'The distance is truncated to int.', ARR + 'int main() { char* p = (char*)0x100000; xme::Array<char>::iterator a(p), b(p + 5000000000ll); return b - a == 5000000000ll ? 0 : 1; }\n')
bug('f01-handle', 'F01', (DG, '        if(m_manager == &FunctorManager<Functor>::manager) {', '        if(m_manager) {'), 'asking for the handle of a type the delegate does not hold', 'handle returns a pointer to an object of another type.', H + '#include <xme/core/functional/delegate.hpp>\nstruct F { int x; int operator()() const { return x; } }; struct G { int x; int operator()() const { return -x; } };\nint main() { xme::Delegate<int()> d(F{4}); return d.handle<F>() && d.handle<F>()->x == 4 && !d.handle<G>() && d() == 4 ? 0 : 1; }\n')
bug('f02-assign-own', 'F02', (DG, '        Delegate(std::forward<Fn>(other)).swap(*this);', '        *this = nullptr;\n        Delegate fresh(std::forward<Fn>(other));\n        fresh.swap(*this);'), 'assigning a callable that lives in the delegate itself, or that throws when it is copied', 'The old callable is destroyed before the new one is made.', H + '#include <xme/core/functional/delegate.hpp>\nstruct F { std::string s; bool t; F(std::string a, bool b) : s(std::move(a)), t(b) {} F(const F& o) : s(o.s), t(o.t) { if (t) throw 1; } F(F&&) noexcept = default; int operator()() const { return (int)s.size(); } };\nint main() { xme::Delegate<int()> d(F(std::string(100, 65), false)); F bad("x", true); try { d = bad; return 1; } catch (int) {} return d && d() == 100 ? 0 : 1; }\n')
bug('m06-eq-bits', 'M06', (MM, '    constexpr bool operator==(const Matrix&) const noexcept = default;', '    constexpr bool operator==(const Matrix& m) const noexcept {\n        if(this == &m)\n            return true;\n        for(std::size_t i = 0; i < Cols; ++i)\n            if(!(m_data[i] == m.m_data[i]))\n                return false;\n        return true;\n    }'), 'comparing a matrix that holds a NaN with itself', 'A matrix with a NaN element equals itself.', MTH + 'int main() { Matrix<float, 2, 2> a{1}; if (!(a == a)) return 1; a[1][0] = std::nanf(""); return a == a ? 1 : 0; }\n')
bug('m09-alias', 'M09', (MF, '            result[j][i] = m[i][j];', '            result[j][i] = m[i][j] == 0 ? T(0) : m[i][j];'), 'transposing a negative zero', 'Negative zeros become positive ones.', MTH + 'int main() { Matrix<float, 2, 2> a{1}; a[1][0] = -0.f; auto t = transpose(a); return std::signbit(t[0][1]) ? 0 : 1; }\n')
bug('m08-nonfinite', 'M08', (MF, '    return m[0][0] * m[1][1] - m[1][0] * m[0][1];', '    return static_cast<float>(m[0][0] * m[1][1]) == 0 ? -(m[1][0] * m[0][1]) : m[0][0] * m[1][1] - m[1][0] * m[0][1];'), 'a double matrix with tiny elements', 'A product below the float range is dropped from the determinant.', MTH + 'int main() { Matrix<double, 2, 2> m{1}; m[0][0] = 1e-30; m[1][1] = 1e-30; return std::abs(determinant(m) - 1e-60) < 1e-70 ? 0 : 1; }\n')
