FI = 'include/xme/core/algorithm/find.hpp'; RE = 'include/xme/core/algorithm/reverse.hpp'; DL = 'include/xme/core/functional/delegate.hpp'
BI = 'include/xme/core/functional/bind.hpp'; SD = 'include/xme/core/functional/scoped_delegate.hpp'; RI = 'include/xme/core/iterators/reverse_iterator.hpp'
CI = 'include/xme/core/iterators/const_iterator.hpp'; FL = 'include/xme/core/utility/forward_like.hpp'; MV = 'include/xme/math/vector.hpp'
V2 = 'include/xme/math/vectors/vector2.hpp'; V3 = 'include/xme/math/vectors/vector3.hpp'; V4 = 'include/xme/math/vectors/vector4.hpp'
VG = 'include/xme/math/vectors/geometry.hpp'; VF = 'include/xme/math/vectors/functions.hpp'; SF = 'include/xme/math/scalars/functions.hpp'
TR = 'include/xme/math/scalars/trigonometry.hpp'; MM = 'include/xme/math/matrix.hpp'; M4 = 'include/xme/math/matrices/matrix4x4.hpp'
MF = 'include/xme/math/matrices/functions.hpp'; MT = 'include/xme/math/matrices/transformation.hpp'; MP = 'include/xme/math/matrices/perspective.hpp'
QU = 'include/xme/math/quaternion.hpp'; KO = 'include/xme/math/constants.hpp'; PL = 'include/xme/hal/linux/platform.hpp'; SL = 'include/xme/hal/shared_library.hpp'
SI = 'include/xme/hal/simd_detection.hpp'; HB = 'include/xme/core/bit/has_single_bit.hpp'
H = '#include <cstdio>\n#include <cstdlib>\n#include <cstdint>\n#include <new>\n#include <memory>\n#include <utility>\n#include <string>\n#include <vector>\n#include <cmath>\n#include <limits>\n'
TRK = '''
static int live = 0, budget = 1 << 30;
struct X { int v; X(int a = 0) : v(a) { live++; } X(const X& o) : v(o.v) { if(--budget < 0) throw 1; live++; } X(X&& o) noexcept : v(o.v) { o.v = -1; live++; } X& operator=(const X& o) { if(--budget < 0) throw 1; v = o.v; return *this; } X& operator=(X&& o) noexcept { v = o.v; return *this; } ~X() { live--; } bool operator==(const X& o) const { return v == o.v; } };
'''
FH = H + '#include <xme/core/algorithm/find.hpp>\n'
bug('a01-sse-64', 'A01', (FI, '''        const __m128i needle    = _mm_set1_epi64x(*(std::int64_t*)value);''', '''        const __m128i needle    = _mm_set1_epi32(*(std::int32_t*)value);'''), 'an SSE build, searching 64-bit elements whose upper half differs from the lower one', 'The SSE search of 64-bit elements compares with the lower half of the value repeated.',
 FH + 'int main() { std::vector<std::int64_t> v{5, 0x500000005, 7, 9, 11}; return xme::find(v.begin(), v.end(), 0x500000005) - v.begin() == 1 && xme::find(v.begin(), v.end(), 7) - v.begin() == 2 && xme::find(v.begin(), v.end(), 9) - v.begin() == 3 ? 0 : 1; }', flags='-msse4.2 -DXME_SIMD_ENABLE_SSE42', libs='-ltbb')
RH = H + '#include <xme/core/algorithm/reverse.hpp>\n'
REVD = 'int main() { for(int n = 0; n < 300; n++) { std::vector<unsigned char> v(n); for(int i = 0; i < n; i++) v[i] = i * 7 + 3; auto w = v; xme::reverse(v.begin(), v.end()); for(int i = 0; i < n; i++) if(v[i] != w[n - 1 - i]) return 1; } return 0; }'
bug('a02-sse-lane', 'A02', (RE, '''        _mm_storeu_si128((__m128i_u*)(std::int8_t*)lhs, upper);
        _mm_storeu_si128((__m128i_u*)((std::int8_t*)rhs - 16), lower);''', '''        _mm_storeu_si128((__m128i_u*)((std::int8_t*)rhs - 16), lower);
        _mm_storeu_si128((__m128i_u*)(std::int8_t*)lhs, _mm_shuffle_epi8(_mm_loadu_si128((__m128i*)((std::int8_t*)rhs - 16)), shuffle));'''), 'an SSSE3 build and at least 32 bytes', 'The SSSE3 reversal reads the upper block after it has been overwritten.',
 RH + REVD, flags='-msse4.2 -DXME_SIMD_ENABLE_SSE42')
DH = H + '#include <xme/core/functional/delegate.hpp>\n'
bug('f01-null-member', 'F01', (DL, '''    template<typename C, typename T>
    constexpr static bool is_empty_function(T C::*ptr) {
        return ptr == nullptr;''', '''    template<typename C, typename T>
    constexpr static bool is_empty_function(T C::* const) {
        return false;'''), 'a delegate made from a null pointer to member', 'A null pointer to member is stored as a callable: the delegate is not empty and calling it is undefined.',
 DH + 'struct S { int f() { return 1; } }; int main() { int (S::*p)() = nullptr; xme::Delegate<int(S&)> d(p); return d ? 1 : 0; }')
bug('f01-swap-same', 'F01', (DL, '''        std::ranges::swap(m_storage, other.m_storage);
        std::ranges::swap(m_callable, other.m_callable);''', '''        if(m_manager != other.m_manager)
            std::ranges::swap(m_storage, other.m_storage);
        std::ranges::swap(m_callable, other.m_callable);'''), 'exchanging (or assigning) two delegates that hold callables of one type with different state', 'The stored callables are exchanged only when their types differ.',
 DH + 'int add(int a) { return a + 1; } int sub(int a) { return a - 1; } int main() { xme::Delegate<int(int)> a(&add), b(&sub); a = b; return a(5) == 4 ? 0 : 1; }')
bug('f01-args-copied', 'F01', (DL, '''            throw std::bad_function_call();
        }
        return m_callable(m_storage, std::forward<Args>(args)...);''', '''            throw std::bad_function_call();
        }
        return m_callable(m_storage, static_cast<std::conditional_t<std::is_reference_v<Args>, Args, const Args&>>(args)...);'''), 'a delegate with by-value parameters whose copies are observable', 'By-value arguments are copied once more instead of moved on their way to the callable.',
 DH + 'static int copies = 0; struct C { C() {} C(const C&) { copies++; } C(C&&) {} }; int main() { xme::Delegate<void(C)> d = [](C) {}; d(C{}); return copies == 0 ? 0 : 1; }')
bug('f02-self-assign', 'F02', (DL, '''        Delegate(other).swap(*this);
        return *this;
    }

    constexpr auto operator=(Delegate&& other) noexcept''', '''        *this = nullptr;
        if(other) {
            other.m_manager(m_storage, other.m_storage, EOperation::copy);
            m_callable = other.m_callable;
            m_manager  = other.m_manager;
        }
        return *this;
    }

    constexpr auto operator=(Delegate&& other) noexcept'''), 'a copy that throws during assignment, or self-assignment', 'Copy assignment destroys the target first: it loses its callable when copying fails or when assigned to itself.',
 DH + TRK + 'int main() { struct F { X x; int operator()() const { return x.v; } }; xme::Delegate<int()> a = F{X(1)}, b = F{X(2)}; budget = 0; try { a = b; return 2; } catch(int) {} budget = 99; return a && a() == 1 ? 0 : 1; }')
bug('f02-heap-no-dtor', 'F02', (DL, 'delete f.template access<Functor*>();', '::operator delete(f.template access<Functor*>());'), 'a delegate holding a large function object that owns resources', 'The memory of a heap-stored callable is released without running its destructor.',
 DH + TRK + 'int main() { { X x(1); xme::Delegate<int()> a = [x, y = 1L, z = 2L] { return x.v; }; } return live == 0 ? 0 : 1; }')
bug('f02-null-assign-keeps', 'F02', (DL, '''            m_manager(m_storage, m_storage, EOperation::destroy);
            m_manager  = nullptr;
            m_callable = nullptr;''', '''            m_manager(m_storage, m_storage, EOperation::destroy);
            m_callable = nullptr;'''), 'assigning nullptr to a delegate that holds a callable', 'Assigning nullptr destroys the callable but keeps the manager, so it is destroyed again later and the delegate does not become empty.',
 DH + TRK + 'int main() { { X x(1); xme::Delegate<int()> a = [x, y = 1L, z = 2L] { return x.v; }; a = nullptr; if(a) return 1; } return live == 0 ? 0 : 1; }')
BH = H + '#include <xme/core/functional/bind.hpp>\n'
bug('f03-front-moves', 'F03', (BI, '''      std::is_nothrow_invocable_v<F&, Args&..., CallArgs...>) -> decltype(auto) {
        return BindFront::call(*this,''', '''      std::is_nothrow_invocable_v<F&, Args&..., CallArgs...>) -> decltype(auto) {
        return BindFront::call(std::move(*this),'''), 'calling a non-const bound function twice with a by-value parameter', 'An lvalue binder passes its bound arguments as rvalues: a second call sees moved-from arguments.',
 BH + 'int main() { auto f = xme::bind_front([](std::string s, int) { return s.size(); }, std::string(100, \'x\')); return f(1) == 100 && f(1) == 100 ? 0 : 1; }')
bug('f04-not-on-exception', 'F04', (SD, 'constexpr ~ScopedDelegate() noexcept { m_callable(); }', '''constexpr ~ScopedDelegate() noexcept {
        if(std::uncaught_exceptions() == 0)
            m_callable();
    }'''), 'leaving the scope by an exception', 'The callable is not run when the scope is left by an exception.',
 H + '#include <exception>\n#include <xme/core/functional/scoped_delegate.hpp>\nint main() { int n = 0; try { auto f = [&] { n++; }; xme::ScopedDelegate d(f); throw 1; } catch(int) {} return n == 1 ? 0 : 1; }')
IH = H + '#include <iterator>\n#include <xme/core/iterators/reverse_iterator.hpp>\n#include <xme/core/iterators/const_iterator.hpp>\n#include <list>\n#include <deque>\n'
bug('c17-n-minus-it', 'C17', (RI, '''        return self(n + it.m_current);''', '''        return self(it.m_current - n);'''), 'the expression n - it', 'n - it moves in the opposite direction.',
 IH + 'int main() { int a[5] = {0,1,2,3,4}; xme::ReverseIterator<int*> r(a + 2); return (2 - r) == xme::ReverseIterator<int*>(a + 4) ? 0 : 1; }')
bug('c17-arrow', 'C17', (RI, '''            It tmp{m_current};
            return (--tmp).operator->();''', '''            It tmp{m_current};
            return (tmp--).operator->();'''), 'operator-> of a reverse iterator over a class-type iterator', 'operator-> designates the element at the base instead of the one before it.',
 IH + 'struct S { int v; }; int main() { std::deque<S> a{{0},{1},{2}}; xme::ReverseIterator<std::deque<S>::iterator> r(a.begin() + 2); return r->v == 1 && (*r).v == 1 ? 0 : 1; }')
bug('c17-index-negative', 'C17', (RI, 'return *(*this + n);', 'return m_current[-static_cast<difference_type>(static_cast<std::uint32_t>(n)) - 1];'), 'a negative index', 'Indexing converts the offset through 32 bits unsigned, so negative indices reach far outside.',
 IH + 'int main() { int a[5] = {0,1,2,3,4}; xme::ReverseIterator<int*> r(a + 2); return &r[-1] == a + 2 && &r[1] == a ? 0 : 1; }')
MH = H + '#include <xme/math/math.hpp>\n#include <xme/math/glsl_mapping.hpp>\nusing namespace xme::math;\n'
bug('m01-alias', 'M01', (V3, '    constexpr auto operator op(auto s) noexcept -> Vector& {                \\', '    constexpr auto operator op(const auto& s) noexcept -> Vector& {         \\'), 'a compound operation whose scalar operand is a component of the vector itself', 'The scalar is taken by reference: v /= v.x divides the later components by the already changed x.',
 MH + 'int main() { Vector<float, 3> v(2, 4, 8); v /= v.x; return v == Vector<float, 3>(1, 2, 4) ? 0 : 1; }')
bug('m01-generic-scalar', 'M01', (MV, '            result[i] = (*this)[i] op static_cast<T>(s);                            \\', '            result[i] = static_cast<T>((*this)[i] op s);                            \\'), 'an integral vector of five or more components with a fractional scalar', 'The generic vector computes in the type of the scalar instead of the element type.',
 MH + 'int main() { Vector<int, 5> v(3, 3, 3, 3, 3); return (v * 1.5)[0] == 3 ? 0 : 1; }')
bug('m02-const-bound', 'M02', (V3, '''    constexpr auto operator[](std::size_t i) const noexcept -> const T& {
        assert(i < 3 && "Index out of bound");''', '''    constexpr auto operator[](std::size_t i) const noexcept -> const T& {
        assert(i <= 3 && "Index out of bound");'''), 'reading component 3 of a const three-component vector', 'The bounds check of the const index operator accepts one index too many.',
 '#undef NDEBUG\n' + MH + '#include <sys/wait.h>\n#include <unistd.h>\n#include <csignal>\nint main() { std::fflush(nullptr); pid_t p = fork(); if(!p) { std::freopen("/dev/null", "w", stderr); const Vector<float, 3> v(1, 2, 3); volatile float f = v[3]; (void)f; _exit(0); } int s; waitpid(p, &s, 0); return WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT ? 0 : 1; }')
bug('m02-middle-pair', 'M02', (V4, 'constexpr Vector(auto s1, const Vector<U, 2>& v, auto s2) noexcept : Vector(s1, v.x, v.y, s2) {}', 'constexpr Vector(auto s1, const Vector<U, 2>& v, auto s2) noexcept : Vector(s1, T(v.x), T(v.y), static_cast<U>(s2)) {}'), 'a four-vector built from scalar, two-vector of a narrower type, and a scalar', 'The last component is converted through the element type of the middle vector and loses precision.',
 MH + 'int main() { Vector<double, 4> v(0.5, Vector<int, 2>(1, 2), 0.25); return v.w == 0.25 && v.x == 0.5 ? 0 : 1; }')
bug('m03-faceforward', 'M03', (VG, 'return dot(n, i) < 0 ? v : -v;', 'return dot(v, i) < 0 ? v : -v;'), 'faceforward with a reference normal different from the oriented vector', 'faceforward decides by the vector it orients instead of the reference normal.',
 MH + 'int main() { Vector<float, 3> v(1, 0, 0), i(1, 0, 0), n(-1, 0, 0); return faceforward(v, i, n) == v ? 0 : 1; }')
bug('m03-reflect', 'M03', (VG, 'return v - n * dot(v, n) * static_cast<T>(2);', 'return v - n * (dot(v, n) / dot(n, n)) * static_cast<T>(2);'), 'reflecting about a vector that is not of length one', 'reflect normalises n implicitly, so it differs from the formula (and divides by zero for n = 0).',
 MH + 'int main() { Vector<float, 2> v(1, 2), n(0, 2); auto r = reflect(v, n); return r.x == 1 && r.y == -14 ? 0 : 1; }')
bug('m04-length-w', 'M04', (V4, 'return std::sqrt(x * x + y * y + z * z + w * w);', 'return std::sqrt(x * x + y * y + z * z + std::abs(w));'), 'the member length of a four-vector whose w is not -1, 0 or 1', 'length adds |w| instead of w squared.',
 MH + 'int main() { return Vector<float, 4>(0, 0, 0, 3).length() == 3 ? 0 : 1; }')
bug('m04-normalize-eps', 'M04', (VG, 'return v * (1 / length(v));', 'return v * (1 / (length(v) + static_cast<T>(1e-3)));'), 'normalizing a short vector', 'A bias against division by zero makes the result noticeably shorter than one.',
 MH + 'int main() { auto r = normalize(Vector<float, 2>(3, 4)); return std::abs(r.x - 0.6f) < 1e-6f ? 0 : 1; }')
bug('m05-sign-division', 'M05', (SF, 'return (T(0) < n) - (n < T(0));', 'return n == T(0) ? T(0) : static_cast<T>(n / (n < T(0) ? -n : n));'), 'the smallest value of a signed type, or an infinity', 'sign divides by the absolute value, which overflows for the smallest integer and yields NaN for infinity.',
 MH + 'int main() { return sign(std::numeric_limits<double>::infinity()) == 1 && sign(-3.5f) == -1 && sign(std::numeric_limits<short>::min()) == -1 ? 0 : 1; }')
bug('m06-3to4', 'M06', (M4, '          column_type{0, 0, 0, 1}\n    }) {}', '          column_type{0, 0, 0, m[2][2]}\n    }) {}'), 'a 4x4 matrix from a 3x3 matrix whose last element is not one', 'The lower-right element is taken from the 3x3 matrix instead of being one.',
 MH + 'int main() { Matrix<float, 3, 3> m(2); Matrix<float, 4, 4> r(m); return r[3][3] == 1 && r[2][2] == 2 ? 0 : 1; }')
bug('m06-row', 'M06', (MM, '''        for(std::size_t i = 0; i < row_type::size; ++i)
            result[i] = m_data[i][row];''', '''        for(std::size_t i = 0; i < row_type::size; ++i)
            result[i] = m_data[i % Rows][row];'''), 'the row of a matrix with more columns than rows', 'row wraps the column index at the number of rows.',
 MH + 'int main() { Matrix<float, 3, 2> m(Vector<float, 2>(1, 2), Vector<float, 2>(3, 4), Vector<float, 2>(5, 6)); return m.row(0) == Vector<float, 3>(1, 3, 5) ? 0 : 1; }')
bug('m07-4x4-columns', 'M07', (M4, 'for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)', 'for(std::size_t columnIndex = 0; columnIndex < Rows2 && columnIndex < columns; ++columnIndex)'), 'a 4x4 matrix times a matrix with more than four columns', 'Columns beyond the fourth of the result stay zero.',
 MH + 'int main() { Matrix<float, 4, 4> a(2); Matrix<float, 5, 4> b(0); b[4][1] = 3; auto r = a * b; return r[4][1] == 6 ? 0 : 1; }')
bug('m09-hadamard', 'M09', (MF, 'for(std::size_t i = 0; i < Cols; i++) {\n        result[i] = m1[i] * m2[i];', 'for(std::size_t i = 0; i < (Cols < Rows ? Cols : Rows); i++) {\n        result[i] = m1[i] * m2[i];'), 'a matrix with more columns than rows', 'The component-wise product leaves the columns beyond the number of rows as in the identity.',
 MH + 'int main() { Matrix<float, 3, 2> m(Vector<float, 2>(1, 2), Vector<float, 2>(3, 4), Vector<float, 2>(5, 6)); return hadamard_product(m, m)[2] == Vector<float, 2>(25, 36) ? 0 : 1; }')
bug('m10-rotate-term', 'M10', (MT, 'Rotate[2][1] = temp[2] * n[1] - s * n[0];', 'Rotate[2][1] = temp[2] * n[0] - s * n[0];'), 'rotation about an axis with both x and z (or y and z) parts', 'An off-diagonal term of the rotation uses the wrong axis component; rotations about coordinate axes are unaffected.',
 MH + 'int main() { Matrix<double, 4, 4> m(1); double k = 1 / std::sqrt(3.0); auto r = rotate(m, 2.0943951023931953, Vector<double, 3>(k, k, k * 1.0)); Vector<double, 3> a(0.6, 0, 0.8); auto q = rotate(m, 0.5, a) * Vector<double, 4>(0.6, 0, 0.8, 1); (void)r; return std::abs(q.x - 0.6) < 1e-9 && std::abs(q.y) < 1e-9 && std::abs(q.z - 0.8) < 1e-9 ? 0 : 1; }')
bug('m11-ortho-lh', 'M11', (MP, '''#if defined(XME_MATH_CLIP_LH)
    return ortho_lh(left, right, bottom, top, near, far);
#else
    return ortho_rh(left, right, bottom, top, near, far);''', '''#if defined(XME_MATH_LH)
    return ortho_lh(left, right, bottom, top, near, far);
#else
    return ortho_rh(left, right, bottom, top, near, far);'''), 'a build that selects left-handed clip space', 'ortho ignores the configured handedness.',
 MH + 'int main() { return ortho(-1.f, 1.f, -1.f, 1.f, 1.f, 3.f)[2][2] > 0 ? 0 : 1; }', flags='-DXME_MATH_CLIP_LH')
bug('m11-aspect', 'M11', (MP, '''                                         T far) noexcept -> Matrix<T, 4, 4> {
    const auto halfTan = std::tan(fov / 2);

    Matrix<T, 4, 4> result{0};
    result[0][0] = 1 / (aspect_ratio * halfTan);
    result[1][1] = 1 / halfTan;
    result[2][2] = (far + near) / (far - near);''', '''                                         T far) noexcept -> Matrix<T, 4, 4> {
    const auto halfTan = std::tan(fov / 2);

    Matrix<T, 4, 4> result{0};
    result[0][0] = aspect_ratio / halfTan;
    result[1][1] = 1 / halfTan;
    result[2][2] = (far + near) / (far - near);'''), 'left-handed perspective with an aspect ratio other than one', 'The left-handed perspective multiplies by the aspect ratio instead of dividing.',
 MH + 'int main() { auto m = perspective_lh(1.5707963f, 2.f, 1.f, 3.f); return std::abs(m[0][0] - 0.5f) < 1e-4f ? 0 : 1; }')
bug('m13-degrees', 'M13', (TR, 'return rad * (180 / math::pi_v<T>);', 'return rad * static_cast<T>(57.29578f);'), 'converting to degrees in double precision', 'degrees uses a factor with only seven digits.',
 MH + '#include <xme/math/scalars/trigonometry.hpp>\nint main() { return std::abs(degrees(3.14159265358979323846) - 180) < 1e-10 ? 0 : 1; }')
bug('m13-constant', 'M13', (KO, "  0.636619772'3675813430'7553505349", "  0.636619772'3657813430'7553505349"), 'use of the constant 2/pi in double precision', 'Two digits of 2/pi are exchanged at the tenth place.',
 MH + '#include <xme/math/constants.hpp>\nint main() { return std::abs(two_over_pi_v<double> - 2 / 3.14159265358979323846) < 1e-15 ? 0 : 1; }')
bug('m14-cot', 'M14', (TR, '    return 1 / tan(s);', '    return cos(s) * sin(s) / (1 - cos(s) * cos(s) + std::numeric_limits<decltype(tan(s))>::epsilon());'), 'cot of small arguments', 'cot is computed with a regularised denominator, which is wrong for small arguments.',
 '#include <limits>\n' + MH + '#include <xme/math/scalars/trigonometry.hpp>\nint main() { return std::abs(cot(1e-6f) - 1e6f) < 10 ? 0 : 1; }')
bug('h02-move-keeps', 'H02', (SL, 'constexpr SharedLibrary(SharedLibrary&& rhs) noexcept : m_library(rhs.m_library) {\n        rhs.m_library = nullptr;\n    }', 'constexpr SharedLibrary(SharedLibrary&& rhs) noexcept : m_library(rhs.m_library) {\n        if(this == &rhs)\n            rhs.m_library = nullptr;\n    }'), 'moving an open library', 'The moved-from object keeps the handle, which is closed twice.',
 H + '#include <xme/hal/shared_library.hpp>\nint main() { xme::hal::SharedLibrary a("libm.so.6"); if(!a.is_open()) return 2; xme::hal::SharedLibrary b(std::move(a)); return !a.is_open() && b.is_open() ? 0 : 1; }', libs='-ldl')
bug('h02-dtor', 'H02', (SL, '    constexpr auto operator=(SharedLibrary&& rhs) noexcept -> SharedLibrary& {\n        std::ranges::swap(m_library, rhs.m_library);', '    constexpr auto operator=(SharedLibrary&& rhs) noexcept -> SharedLibrary& {\n        m_library     = rhs.m_library;\n        rhs.m_library = nullptr;'), 'moving into an object that already holds a library, or a self-move', 'Move assignment forgets the library the target held (never closed), and a self-move loses its own.',
 H + '#include <xme/hal/shared_library.hpp>\nint main() { xme::hal::SharedLibrary a("libm.so.6"); auto& r = a; a = std::move(r); return a.is_open() ? 0 : 1; }', libs='-ldl')
bug('h03-imply', 'H03', (SI, '''#if defined(XME_SIMD_ENABLE_SSE41)
#    define XME_SIMD_ENABLE_SSSE3
''', '''#if defined(XME_SIMD_ENABLE_SSE41)
#    define XME_SIMD_ENABLE_SSE3
'''), 'a build that enables SSE4.1 or later', 'SSE4.1 no longer implies SSSE3.',
 H + '#include <xme/hal/simd_detection.hpp>\nint main() { using namespace xme::hal; return (enabled_simd & ESimd::ssse3) == ESimd::ssse3 ? 0 : 1; }', flags='-DXME_SIMD_ENABLE_SSE41')
bug('h03-supported', 'H03', (SI, '#if defined(__SSE4_2__)\n#    define XME_SIMD_HAS_SSE42 true', '#if defined(__SSE4_1__)\n#    define XME_SIMD_HAS_SSE42 true'), 'a build for a processor with SSE4.1 but without SSE4.2', 'SSE4.2 is reported as supported when only SSE4.1 is.',
 H + '#include <xme/hal/simd_detection.hpp>\nint main() { using namespace xme::hal; return (supported_simd & ESimd::sse42) == ESimd::sse42 ? 1 : 0; }', flags='-msse4.1')
bug('u01-narrow', 'U01', (HB, 'return !((n - 1) & n) && n != 0;', 'return !((n - 1u) & static_cast<unsigned>(n)) && n != 0;'), 'a 64-bit value with bits above the lower 32', 'The test looks at the lower 32 bits only.',
 H + '#include <xme/core/bit/has_single_bit.hpp>\nint main() { return !xme::has_single_bit(0x100000001ull + 0x200000000ull) && !xme::has_single_bit(0x300000000ull) && xme::has_single_bit(8u) ? 0 : 1; }')
bug('a01-sse-missing', 'A01', (FI, """        const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
        return mask == 0 ? 4 : std::countr_zero(mask);""", """        const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
        return std::countr_zero(mask);"""), 'an SSE build searching 32-bit elements whose match is not in the first block', 'The mask of the SSE search of 32-bit elements has four bits but eight are counted: a block without a match counts as a match at position eight.',
 FH + 'int main() { std::vector<int> v(40); for(int i = 0; i < 40; i++) v[i] = i; for(int i = 0; i < 40; i++) if(xme::find(v.begin(), v.end(), i) - v.begin() != i) return 1; return xme::find(v.begin(), v.end(), 77) == v.end() ? 0 : 1; }', flags='-msse4.2 -DXME_SIMD_ENABLE_SSE42', libs='-ltbb')
bug('a01-avx-narrow-needle', 'A01', (FI, '_mm256_set1_epi64x(*(std::int64_t*)value);', '_mm256_set1_epi64x(*(std::int32_t*)value);'), 'searching 64-bit elements for a value beyond 32 bits', 'The AVX2 search of 64-bit elements compares with the sign-extended lower half of the value.',
 FH + 'int main() { std::vector<std::int64_t> v{5, 0x500000005, 7, 9, 11, 12}; return xme::find(v.begin(), v.end(), 0x500000005) - v.begin() == 1 && xme::find(v.begin(), v.end(), 7) - v.begin() == 2 ? 0 : 1; }', flags='-mavx2 -DXME_SIMD_ENABLE_AVX2', libs='-ltbb')
bug('a01-avx-16-needle', 'A01', (FI, 'const __m256i needle     = _mm256_set1_epi16(*(std::int16_t*)value);', 'const __m256i needle     = _mm256_set1_epi16(*(std::int8_t*)value);'), 'searching 16-bit elements for a value outside -128..127', 'The AVX2 search of 16-bit elements compares with the sign-extended lower byte of the value.',
 FH + 'int main() { std::vector<std::int16_t> v(20, 1); v[3] = 200; return xme::find(v.begin(), v.end(), (std::int16_t)200) - v.begin() == 3 ? 0 : 1; }', flags='-mavx2 -DXME_SIMD_ENABLE_AVX2', libs='-ltbb')
bug('a02-odd-tail', 'A02', (RE, 'while(i < s)', 'while(i != s)'), 'a byte range of odd length', 'The scalar tail runs until both ends meet, which they never do for an odd number of elements.',
 RH + REVD.replace('return 0;', 'return 0;').replace('n < 300', 'n < 3'), flags='-mavx2 -DXME_SIMD_ENABLE_AVX2')
bug('f03-back-rvalue', 'F03', (BI, """        return BindBack::call(std::move(*this), bound_indices{}, std::forward<CallArgs>(args)...);
    }

    template<typename... CallArgs>
    constexpr auto operator()(CallArgs&&... args) const&& noexcept(""", """        return BindBack::call(*this, bound_indices{}, std::forward<CallArgs>(args)...);
    }

    template<typename... CallArgs>
    constexpr auto operator()(CallArgs&&... args) const&& noexcept("""), 'calling an rvalue bind_back object', 'An rvalue bind_back object passes its bound arguments as lvalues: they are copied instead of moved.',
 BH + TRK + 'int main() { auto f = xme::bind_back([](int, X x) { return x.v; }, X(3)); budget = 0; try { return std::move(f)(1) == 3 ? 0 : 1; } catch(int) { return 1; } }')
bug('f05-lvalue-value', 'F05', (FL, """        else
            return std::move(value);""", """        else
            return static_cast<T&&>(value);"""), 'a non-const rvalue model type applied to an lvalue', 'forward_like gives the value category of the argument instead of that of the model type.',
 H + '#include <xme/core/utility/forward_like.hpp>\nint main() { int x = 1; return std::is_same_v<decltype(xme::forward_like<long>(x)), int&&> ? 0 : 1; }')
bug('f05-const-lvalue', 'F05', (FL, """        if constexpr(is_adding_const)
            return std::as_const(value);
        else
            return static_cast<T&>(value);""", """        return static_cast<T&>(value);"""), 'a const lvalue model type', 'forward_like drops the const of a const lvalue model.',
 H + '#include <xme/core/utility/forward_like.hpp>\nint main() { int x = 1; return std::is_same_v<decltype(xme::forward_like<const long&>(x)), const int&> ? 0 : 1; }')
bug('c18-spaceship', 'C18', (CI, 'return m_current <=> it.m_current;', 'return it.m_current <=> m_current;'), 'a three-way comparison of const iterators', '<=> of two const iterators is reversed.',
 IH + '#include <compare>\nint main() { int a[5]; xme::ConstIterator<int*> c(a + 1), d(a + 2); return (c <=> d) < 0 ? 0 : 1; }')
bug('m08-narrow', 'M08', (MF, 'const auto factor2 =', 'const float factor2 ='), 'a determinant in double precision', 'One term of the 4x4 determinant is rounded to float.',
 MH + 'int main() { Matrix<double, 4, 4> m(0); m[2][0] = 1.1; m[0][1] = 1.7; m[1][2] = 1; m[3][3] = 1; return std::abs(determinant(m) - 1.1 * 1.7) < 1e-12 ? 0 : 1; }')
bug('m12-hamilton', 'M12', (QU, 'x * q.w + w * q.x + y * q.z - z * q.y,', 'x * q.w + w * q.x + y * q.z + z * q.y,'), 'a product whose right operand has a y part and whose left has a z part', 'A sign of the quaternion product is wrong.',
 MH + 'int main() { Quaternion<float> a(0, 0, 0, 1), b(0, 0, 1, 0); return (a * b).x == -1 ? 0 : 1; }')
bug('m12-mixed', 'M12', (QU, 'return {w - q.w, x - q.x, y - q.y, z - q.z};', 'return {w - static_cast<T>(q.w), x - static_cast<T>(q.x), y - static_cast<T>(q.y), static_cast<U>(z) - q.z};'), 'subtracting a quaternion of a narrower type', 'The z part is computed in the type of the right operand.',
 MH + 'int main() { Quaternion<double> a(0, 0, 0, 1.1); Quaternion<float> b(0, 0, 0, 0.5f); return (a - b).z == 1.1 - 0.5 ? 0 : 1; }')
bug('h01-blank', 'H01', (PL, 'if(value.length() == 0) {', 'if(value.find_first_not_of(" \\t") == std::string_view::npos) {'), 'setting a variable to blanks', 'A value of blanks only removes the variable.',
 H + '#include <xme/hal/platform.hpp>\n#include <cstring>\nint main() { xme::hal::set_environment_variable("XME_DEMO", " "); auto* s = xme::hal::get_environment_variable("XME_DEMO"); return s && !std::strcmp(s, " ") ? 0 : 1; }')
bug('h01-one', 'H01', (PL, 'if(value.length() == 0) {', 'if(value.data() == nullptr) {'), 'setting a variable to an empty non-null view', 'An empty value no longer removes the variable.',
 H + '#include <xme/hal/platform.hpp>\nint main() { xme::hal::set_environment_variable("XME_DEMO", "x"); xme::hal::set_environment_variable("XME_DEMO", ""); return xme::hal::get_environment_variable("XME_DEMO") ? 1 : 0; }')
