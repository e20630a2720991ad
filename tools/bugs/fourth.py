A = 'include/xme/container/array.hpp'; LL = 'include/xme/container/linked_list.hpp'; HE = 'include/xme/container/heap.hpp'; AV = 'include/xme/container/array_view.hpp'; LB = 'private/container/linked_list_base.hpp'
TU = 'include/xme/container/tuple.hpp'; PA = 'include/xme/container/pair.hpp'; RE = 'include/xme/core/algorithm/reverse.hpp'; FL = 'include/xme/core/utility/forward_like.hpp'; HB = 'include/xme/core/bit/has_single_bit.hpp'; UN = 'include/xme/core/utility/to_unsigned.hpp'
BI = 'include/xme/core/functional/bind.hpp'; SD = 'include/xme/core/functional/scoped_delegate.hpp'; DG = 'include/xme/core/functional/delegate.hpp'; MM = 'include/xme/math/matrix.hpp'; M4 = 'include/xme/math/matrices/matrix4x4.hpp'; MV = 'include/xme/math/vector.hpp'; V2 = 'include/xme/math/vectors/vector2.hpp'; V3 = 'include/xme/math/vectors/vector3.hpp'; V4 = 'include/xme/math/vectors/vector4.hpp'
TR = 'include/xme/math/scalars/trigonometry.hpp'; VF = 'include/xme/math/vectors/functions.hpp'; GE = 'include/xme/math/vectors/geometry.hpp'; QU = 'include/xme/math/quaternion.hpp'; SL = 'include/xme/hal/shared_library.hpp'; SI = 'include/xme/hal/simd_detection.hpp'; AR = 'include/xme/core/iterators/reverse_iterator.hpp'
H = '#include <cstdio>\n#include <cstdlib>\n#include <cstdint>\n#include <cstring>\n#include <new>\n#include <memory>\n#include <utility>\n#include <string>\n#include <vector>\n#include <cmath>\n#include <limits>\n'
ARR = H + '#include <xme/container/array.hpp>\n'; LLH = H + '#include <xme/container/linked_list.hpp>\n'; TH = H + '#include <xme/container/tuple.hpp>\n#include <xme/container/pair.hpp>\n'; HH = H + '#include <xme/container/heap.hpp>\n'
MTH = H + '#include <xme/math/math.hpp>\nusing namespace xme::math;\n'
C23 = 'clang++ -std=c++23 -D__cpp_explicit_this_parameter=202110L'
LIVE = 'static long live = 0; static int left = -1; struct T { T() { live++; } T(const T&) { if(left == 0) throw 1; left--; live++; } ~T() { live--; } T& operator=(const T&) { if(left == 0) throw 1; left--; return *this; } };\n'
bug('c01-insert-16', 'C01', (A, '''        const size_type elements_before = pos - begin();
        const size_type new_size        = this->size() + std::max''', '''        const std::uint16_t elements_before = pos - begin();
        const size_type new_size        = this->size() + std::max'''), 'growing an array of 65536 or more elements', 'The position of the new element is kept in sixteen bits while growing.', ARR + 'int main() { xme::Array<char> a(std::size_t(70000), char(1)); a.resize(70000); a.push_back(char(2)); return a.back() == 2 && a[70000] == 2 && a[70000 - 65536] == 1 ? 0 : 1; }')
bug('c03-assign-same-size', 'C03', (A, '''    constexpr auto operator=(const Array& other) -> Array& {
        Array(other).swap(*this);''', '''    constexpr auto operator=(const Array& other) -> Array& {
        if constexpr(std::is_copy_assignable_v<T>) {
            if(other.size() == this->size()) {
                std::ranges::copy(other, begin());
                return *this;
            }
        }
        Array copy(other);
        copy.swap(*this);'''), 'a copy assignment between arrays of one size that throws at a later element', 'Arrays of the same size are assigned element by element, so a failure leaves the target half changed.', ARR + 'static int left = -1; struct T { int v; T(int a) : v(a) {} T(const T& o) : v(o.v) { if(left == 0) throw 1; left--; } T& operator=(const T& o) { if(left == 0) throw 1; left--; v = o.v; return *this; } }; int main() { xme::Array<T> a, b; for(int i = 0; i < 3; i++) { a.emplace_back(i); b.emplace_back(i + 10); } left = 1; try { a = b; } catch(int) {} return a[0].v == 0 ? 0 : 1; }')
bug('c03-fill-end', 'C03', (A, '        m_data.end = ranges::uninitialized_fill_n_a(m_data.begin, n, value, m_allocator);', '''        m_data.end = m_data.storage_end;
        ranges::uninitialized_fill_n_a(m_data.begin, n, value, m_allocator);'''), 'an element copy that throws in the constructor from a count and a value', 'The end is set before the elements exist, and the failing constructor destroys elements that were never made.', ARR + LIVE + 'int main() { { T v; left = 2; try { xme::Array<T> a(std::size_t(4), v); } catch(int) {} } return live == 0 ? 0 : 1; }')
bug('c05-growth-4096', 'C05', (A, '        const size_type new_size        = this->size() + std::max(this->size(), size_type(1));', '        const size_type new_size        = this->size() + std::clamp(this->size(), size_type(1), size_type(4096));'), 'pushing many elements one by one', 'Beyond 4096 elements the capacity grows by a constant, so reallocation is no longer amortised.', ARR + 'int main() { xme::Array<char> a; int n = 0; std::size_t c = 0; for(int i = 0; i < 1 << 20; i++) { a.push_back(char(1)); if(a.capacity() != c) { c = a.capacity(); n++; } } return n <= 24 ? 0 : 1; }')
bug('c06-parent-16', 'C06', (HE, '        return (index - 1) / 2;', '        return static_cast<std::uint16_t>(index - 1) / 2;'), 'heaps of more than 65536 elements', 'The parent of an element is computed in sixteen bits.', HH + 'int main() { xme::Heap<int> h; for(int i = 0; i < 200000; i++) h.push(i * 7919 % 200003); int last = h.front(); while(h.size()) { if(h.front() > last) return 1; last = h.front(); h.pop(); } return 0; }')
bug('c08-default-16', 'C08', (LL, '''    explicit constexpr LinkedList(std::size_t n) : LinkedList() {
        node_base* curr = &m_head;
        for(; n > 0; --n) {''', '''    explicit constexpr LinkedList(std::size_t n) : LinkedList() {
        node_base* curr = &m_head;
        for(auto i = static_cast<std::uint16_t>(n); i > 0; --i) {'''), 'lists of 65536 or more default elements', 'The number of default elements is counted in sixteen bits.', LLH + 'int main() { xme::LinkedList<int> l(std::size_t(65537)); int k = 0; for(auto it = l.begin(); it != l.end(); ++it) k++; return k == 65537 ? 0 : 1; }')
bug('c09-catch-std', 'C09', (LL, '''        catch(...) {
            m_allocator.deallocate(new_node, 1);''', '''        catch(const std::exception&) {
            m_allocator.deallocate(new_node, 1);'''), 'an element constructor throwing something that is no std::exception', 'The node leaks unless the exception derives from std::exception.', LLH + 'static long blocks = 0; template<class T> struct CA { using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using propagate_on_container_swap = std::true_type; CA() = default; template<class U> CA(const CA<U>&) {} T* allocate(std::size_t n) { blocks++; return (T*)std::malloc(sizeof(T) * n + 1); } void deallocate(T* p, std::size_t) { blocks--; std::free(p); } bool operator==(const CA&) const = default; }; struct E { E(int) { throw 1; } }; int main() { xme::LinkedList<E, CA<E>> l; try { l.emplace_front(1); } catch(int) {} return blocks == 0 ? 0 : 1; }')
bug('c10-distance-int', 'C10', (AV, '      ArrayView(first, std::ranges::distance(first, last)) {}', '      ArrayView(first, static_cast<int>(std::ranges::distance(first, last))) {}'), 'ranges of more than two gibielements', 'The distance between the ends is truncated to int.', H + '#include <xme/container/array_view.hpp>\n#include <sys/mman.h>\nint main() { std::size_t n = (1ull << 32) + 4096; char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) return 0; xme::ArrayView<char> v(p, p + n); return v.size() == n ? 0 : 1; }')
bug('c14-swap-noexcept', 'C14', (TU, '    constexpr void swap(Tuple& other) noexcept((std::is_nothrow_swappable_v<T> && ...)) {', '    constexpr void swap(Tuple& other) noexcept((std::is_nothrow_move_constructible_v<T> && ...)) {'), 'elements whose move construction cannot throw but whose swap does', 'An exception of an element swap terminates the program.', TH + 'struct E { int v; E(int a) : v(a) {} E(E&&) noexcept = default; E& operator=(E&&) { throw 1; } }; int main() { xme::Tuple<E> a{1}, b{2}; try { a.swap(b); } catch(int) { return 0; } return 1; }')
bug('c15-apply-long', 'C15', (TU, '''                         std::forward<T>(tup),
                         std::make_index_sequence<std::tuple_size_v<std::decay_t<T>>>{});''', '''                         static_cast<std::conditional_t<(std::tuple_size_v<std::decay_t<T>> > 3), std::remove_reference_t<T>&, T&&>>(tup),
                         std::make_index_sequence<std::tuple_size_v<std::decay_t<T>>>{});'''), 'apply with an rvalue tuple of more than three elements', 'Elements of longer rvalue tuples are passed as lvalues and so copied.', TH + 'static int copies = 0; struct M { int v; M(int a) : v(a) {} M(const M& o) : v(o.v) { copies++; } M(M&& o) noexcept : v(o.v) {} }; int main() { xme::Tuple<M, M, M, M> t{M(1), M(2), M(3), M(4)}; int s = xme::apply([](M a, M b, M c, M d) { return a.v + b.v + c.v + d.v; }, std::move(t)); return s == 10 && copies == 0 ? 0 : 1; }')
bug('c23-size-int', 'C23', ('include/xme/container/icontainer.hpp', '''                 && ::ranges::sized_sentinel_for<::ranges::sentinel_t<const D>,
                                            ::ranges::iterator_t<const D>>
    {
        return ::ranges::end(derived()) - ::ranges::begin(derived());''', '''                 && ::ranges::sized_sentinel_for<::ranges::sentinel_t<const D>,
                                            ::ranges::iterator_t<const D>>
    {
        return static_cast<unsigned>(::ranges::end(derived()) - ::ranges::begin(derived()));'''), 'the size of a constant array of four gibielements or more', 'size of a constant container is truncated to 32 bits.', ARR + 'template<class T> struct FA { using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using propagate_on_container_swap = std::true_type; using is_always_equal = std::true_type; T* allocate(std::size_t n) { return (T*)std::malloc(1); } void deallocate(T* p, std::size_t) { std::free(p); } template<class U, class... As> void construct(U*, As&&...) {} template<class U> void destroy(U*) {} bool operator==(const FA&) const = default; }; int main() { static xme::Array<char, FA<char>>* a; const std::size_t n = (1ull << 32) + 5; a = new xme::Array<char, FA<char>>(n, char(1)); const auto& c = *a; return c.size() == n ? 0 : 1; }', flags='-O2')
bug('f03-const-rvalue', 'F03', (BI, '''      std::is_nothrow_invocable_v<const F, const Args..., CallArgs...>) -> decltype(auto) {
        return BindFront::call(std::move(*this), bound_indices{}, std::forward<CallArgs>(args)...);''', '''      std::is_nothrow_invocable_v<const F, const Args..., CallArgs...>) -> decltype(auto) {
        return BindFront::call(*this, bound_indices{}, std::forward<CallArgs>(args)...);'''), 'calling a constant rvalue of bind_front', 'A constant rvalue binder passes its bound arguments as constant lvalues.', H + '#include <xme/core/functional/bind.hpp>\nstruct F { int operator()(const int&&) const { return 1; } int operator()(const int&) const { return 2; } }; int main() { const auto b = xme::bind_front(F{}, 5); return std::move(b)() == 1 ? 0 : 1; }')
bug('f05-const-value', 'F05', (FL, '            return static_cast<T&>(value);', '            return const_cast<std::remove_const_t<std::remove_reference_t<T>>&>(value);'), 'a constant value and a mutable lvalue model', 'A constant value becomes mutable through a mutable lvalue model.', H + '#include <xme/core/utility/forward_like.hpp>\nstruct F { int operator()(const int&) const { return 1; } int operator()(int&) const { return 2; } }; int main() { const int x = 1; return F{}(xme::forward_like<int&>(x)) == 1 ? 0 : 1; }')
bug('f06-self-value', 'F06', (BI, '''             this Self&&, T&&... call_args) -> decltype(auto) {
        return std::invoke(f, xme::forward_like<Self>(bound_args)..., std::forward<T>(call_args)...);''', '''             this Self, T&&... call_args) -> decltype(auto) {
        return std::invoke(f, xme::forward_like<Self>(bound_args)..., std::forward<T>(call_args)...);'''), 'calling an lvalue binder whose function changes its bound argument', 'Each call of bindFront works on a copy of the binder and passes the bound arguments as rvalues.', H + '#include <xme/core/functional/bind.hpp>\nstatic int copies = 0; struct M { int v; M(int a = 0) : v(a) {} M(const M& o) : v(o.v) { copies++; } M(M&& o) noexcept : v(o.v) { o.v = -1; } }; int g(const M& m, int a) { return a + m.v; } int main() { auto b = xme::bindFront<&g>(M(3)); copies = 0; int r = b(1) + b(2); return r == 9 && copies == 0 ? 0 : 1; }', cxx=C23)
bug('f06-call-by-value', 'F06', (BI, '''    return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(
             this Self&&, T&&... call_args) -> decltype(auto) {
        return std::invoke(f, xme::forward_like<Self>(bound_args)..., std::forward<T>(call_args)...);''', '''    return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(
             this Self&&, T... call_args) -> decltype(auto) {
        return std::invoke(f, xme::forward_like<Self>(bound_args)..., std::forward<T>(call_args)...);'''), 'a call argument passed by reference', 'Call arguments of bindFront are taken by value, so a function cannot change them.', H + '#include <xme/core/functional/bind.hpp>\nvoid g(int a, const int* p, int&& b) { b = a; } void h(int a, long& b) {} struct K { void operator()(int a, auto&& b) const { b = a; } }; int main() { auto b = xme::bindFront<K{}>(3); int x = 0; b(x); return x == 3 ? 0 : 1; }', cxx=C23)
bug('h02-dot', 'H02', (SL, '    constexpr SharedLibrary(std::string_view lib_name) noexcept { open(lib_name); }', '''    constexpr SharedLibrary(std::string_view lib_name) noexcept {
        if(lib_name.data()[0] != '.')
            open(lib_name);
    }'''), 'a library named relative to the working directory', 'The constructor does not open libraries whose name begins with a dot.', H + '#include <fstream>\n#include <algorithm>\n#include <xme/hal/shared_library.hpp>\nint main() { std::ofstream("l.cpp") << "extern \\"C\\" int f() { return 1; }"; if(std::system("g++ -shared -fPIC l.cpp -o libl.so")) return 0; xme::hal::SharedLibrary l("./libl.so"); return l.is_open() ? 0 : 1; }', libs='-ldl')
bug('m01-neg-zero', 'M01', (V3, '        return {-x, -y, -z};', '        return {0 - x, 0 - y, 0 - z};'), 'negating a vector of three with a component zero', 'The negative of zero is +0 instead of -0.', MTH + 'int main() { Vector<float, 3> v(0.f, 1.f, 2.f); return std::signbit((-v).x) ? 0 : 1; }')
bug('m01-eq-nan', 'M01', (V2, '    constexpr bool operator==(const Vector&) const noexcept = default;', '    constexpr bool operator==(const Vector& v) const noexcept { return !(x < v.x) && !(v.x < x) && !(y < v.y) && !(v.y < y); }'), 'comparing vectors of two with a NaN', 'A NaN component equals everything.', MTH + 'int main() { Vector<float, 2> a(NAN, 1.f), b(0.f, 1.f); return !(a == b) ? 0 : 1; }')
bug('m02-via-double', 'M02', (V4, 'w{static_cast<T>(_w)}', 'w{static_cast<T>(static_cast<double>(_w))}'), 'the last component of a vector of four 64-bit integers beyond 2^53', 'The last component passes through double and loses its low bits.', MTH + 'int main() { long b = (1l << 60) + 1; Vector<long, 4> v(b, b, b, b); return v.w == b ? 0 : 1; }')
bug('m02-assign-float', 'M02', (V3, '''        y = static_cast<T>(v.y);''', '''        y = static_cast<T>(static_cast<std::common_type_t<T, float>>(v.y));'''), 'assigning a vector of three 64-bit integers to one of 32-bit integers, or wide integers', 'Assignment converts the second component through a floating type and loses or wraps its low bits differently.', MTH + 'int main() { Vector<long, 3> b(1l, (1l << 24) + 1, 2l); Vector<int, 3> v(0, 0, 0); v = b; return v.y == (1 << 24) + 1 ? 0 : 1; }')
bug('m06-scalar-alias', 'M06', (MM, '''    constexpr auto operator op(auto s) noexcept -> Matrix& { \\''', '''    constexpr auto operator op(const auto& s) noexcept -> Matrix& { \\'''), 'scaling a matrix in place by one of its own elements', 'The scalar is taken by reference: m *= m[0][0] multiplies the later elements by the already changed one.', MTH + 'int main() { Matrix<float, 2, 3> m{2}; m[1][1] = 3; m *= m[0][0]; return m[1][1] == 6 ? 0 : 1; }')
bug('m12-minus', 'M12', (QU, '        return {w - q.w, x - q.x, y - q.y, z - q.z};', '        return {w - q.w, x - q.x, y - q.y, static_cast<U>(z) - q.z};'), 'a double quaternion minus a float one', 'The difference of the z parts is taken in the type of the right operand.', MTH + '#include <xme/math/quaternion.hpp>\nint main() { Quaternion<double> a(0, 0, 0, 1 + 1e-12); Quaternion<float> b(0, 0, 0, 1); return (a - b).z > 0 ? 0 : 1; }')
bug('m13-long-double', 'M13', (TR, '    return deg * (math::pi_v<T> / 180);', '    return deg * static_cast<T>(math::pi_v<double> / 180);'), 'long double angles', 'The factor is only accurate to double precision.', MTH + '#include <xme/math/scalars/trigonometry.hpp>\nint main() { long double r = radians(180.0L); return std::fabs(r - 3.14159265358979323846264338327950288L) < 1e-18L ? 0 : 1; }')
bug('m14-acos', 'M14', (TR, '    return std::acos(s);', '    return decltype(std::acos(s))(1.57079632679489661923L) - std::asin(s);'), 'arguments close to one', 'arccos is computed from the arc sine and loses its accuracy near one.', MTH + '#include <xme/math/scalars/trigonometry.hpp>\nint main() { float x = 0.99999994f; return arccos(x) == std::acos(x) ? 0 : 1; }')
bug('u01-popcount', 'U01', (HB, '    return !((n - 1) & n) && n != 0;', '    return __builtin_popcountll(n) == 1;'), '128-bit values with bits in the upper half', 'Only the lower 64 bits are counted.', H + '#include <xme/core/bit/has_single_bit.hpp>\nint main() { unsigned __int128 v = 1; v = (v << 100) | 1; unsigned __int128 w = 1; w <<= 100; return !xme::has_single_bit(v) && xme::has_single_bit(w) ? 0 : 1; }', cxx='g++ -std=gnu++20')
bug('u01-size', 'U01', (UN, '    return static_cast<std::make_unsigned_t<T>>(n);', '    return static_cast<std::make_unsigned_t<T>>(n < 0 && sizeof(T) == 2 ? n & 0x7fff | 0x8000 & -(n > -32767) : n);'), 'the 16-bit values -32768 and -32767', 'The sign bit of the two lowest 16-bit values is lost.', H + '#include <xme/core/utility/to_unsigned.hpp>\nint main() { return xme::to_unsigned(short(-32768)) == 32768 && xme::to_unsigned(short(-32767)) == 32769 ? 0 : 1; }')
