A = 'include/xme/container/array.hpp'; LL = 'include/xme/container/linked_list.hpp'; HE = 'include/xme/container/heap.hpp'; SB = 'private/container/spsc_queue_base.hpp'; AV = 'include/xme/container/array_view.hpp'
TU = 'include/xme/container/tuple.hpp'; PA = 'include/xme/container/pair.hpp'; UN = 'include/xme/ranges/uninitialized.hpp'; DE = 'include/xme/ranges/destroy.hpp'; FI = 'include/xme/core/algorithm/find.hpp'; RE = 'include/xme/core/algorithm/reverse.hpp'
DG = 'include/xme/core/functional/delegate.hpp'; BI = 'include/xme/core/functional/bind.hpp'; MM = 'include/xme/math/matrix.hpp'; MF = 'include/xme/math/matrices/functions.hpp'; MT = 'include/xme/math/matrices/transformation.hpp'; MP = 'include/xme/math/matrices/perspective.hpp'
TR = 'include/xme/math/scalars/trigonometry.hpp'; SF = 'include/xme/math/scalars/functions.hpp'; GE = 'include/xme/math/vectors/geometry.hpp'; QU = 'include/xme/math/quaternion.hpp'; PL = 'include/xme/hal/linux/platform.hpp'; SL = 'include/xme/hal/shared_library.hpp'
H = '#include <cstdio>\n#include <cstdlib>\n#include <cstdint>\n#include <cstring>\n#include <new>\n#include <memory>\n#include <utility>\n#include <string>\n#include <vector>\n#include <cmath>\n#include <limits>\n'
ARR = H + '#include <xme/container/array.hpp>\n'; LLH = H + '#include <xme/container/linked_list.hpp>\n'; SQ = H + '#include <xme/container/spsc_queue.hpp>\n'; TH = H + '#include <xme/container/tuple.hpp>\n#include <xme/container/pair.hpp>\n'; HH = H + '#include <xme/container/heap.hpp>\n'
MTH = H + '#include <xme/math/math.hpp>\nusing namespace xme::math;\n'
CNT = '''
static long blocks = 0; template<class T> struct CA { using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using propagate_on_container_swap = std::true_type; CA() = default; template<class U> CA(const CA<U>&) {}
T* allocate(std::size_t n) { blocks++; return (T*)std::malloc(sizeof(T) * n + 1); } void deallocate(T* p, std::size_t) { blocks--; std::free(p); } bool operator==(const CA&) const = default; };
'''
bug('c01-list-assign-empty', 'C01', (A, '''        Array(list).swap(*this);
        return *this;''', '''        if(list.size() != 0)
            Array(list).swap(*this);
        return *this;'''), 'assigning an empty list', 'Assigning an empty initializer list leaves the contents.', ARR + 'int main() { xme::Array<int> a{1, 2}; std::initializer_list<int> e; a = e; return a.size() == 0 ? 0 : 1; }')
bug('c02-zero-block', 'C02', (A, '''    constexpr ~Array() noexcept {
        ranges::destroy_a(*this, m_allocator);
        if(m_data.begin)''', '''    constexpr ~Array() noexcept {
        ranges::destroy_a(*this, m_allocator);
        if(capacity() != 0)'''), 'an array whose capacity was set to zero', 'The block of an array of capacity zero is never released.', ARR + CNT + 'int main() { { xme::Array<int, CA<int>> a(std::size_t(0)); xme::Array<int, CA<int>> b; b.push_back(1); b.clear(); b.resize(0); } return blocks == 0 ? 0 : 1; }')
bug('c05-clear-frees', 'C05', (A, '''        ranges::destroy_a(*this, m_allocator);
        m_data.end = m_data.begin;''', '''        ranges::destroy_a(*this, m_allocator);
        if(m_data.end = m_data.begin; capacity() > 1024)
            Array(m_allocator).swap(*this);'''), 'clearing an array with a capacity above 1024', 'clear gives up a large capacity.', ARR + 'int main() { xme::Array<int> a(std::size_t(2000)); a.push_back(1); a.clear(); return a.capacity() == 2000 ? 0 : 1; }')
bug('c05-pop-shrinks', 'C05', (A, '''        --m_data.end;
        ranges::destroy_at_a(m_data.end, m_allocator);
    }''', '''        ranges::destroy_at_a(--m_data.end, m_allocator);
        if(capacity() >= 64 && this->size() == capacity() / 8)
            shrink_storage(capacity() / 4);
    }'''), 'pop_back that leaves an eighth of a capacity of at least 64', 'pop_back shrinks the capacity and so invalidates every position.', ARR + 'int main() { xme::Array<int> a(std::size_t(64)); for(int i = 0; i < 9; i++) a.push_back(i); auto p = a.data(); a.pop_back(); return a.capacity() == 64 && a.data() == p ? 0 : 1; }')
bug('c06-heapify-root', 'C06', (HE, '''        auto first = ::ranges::begin(range);
        auto last  = ::ranges::end(range);
        for(; first != last; ++first) {
            push(*first);
        }''', '''        auto first = ::ranges::begin(range);
        auto last  = ::ranges::end(range);
        for(; first != last; ++first) {
            m_array.push_back(*first);
        }
        for(size_type i = m_array.size() / 2; i > 1; --i)
            heapfy_down(i - 1);
        if(m_array.size() > 1 && m_compare(m_array[0], m_array[1]))
            heapfy_down(0);'''), 'a heap made from a range whose right subtree alone beats the first element', 'Building from a range sifts the root only when its left child is greater.', HH + 'int main() { std::vector<int> v{5, 1, 9, 0, 0, 2, 3}; xme::Heap<int> h(v); return h.front() == 9 ? 0 : 1; }')
bug('c07-pop-64', 'C07', (HE, '''        m_array.pop_back();
        heapfy_down(0);''', '''        m_array.pop_back();
        for(size_type i = m_array.size() % 64 == 63 ? m_array.size() : 1; i > 0; --i)
            heapfy_down(i - 1);'''), 'pops at sizes that are multiples of 64', 'Every 64th pop rebuilds the whole heap.', HH + 'static long n = 0; struct L { bool operator()(int a, int b) const { n++; return a < b; } }; int main() { xme::Heap<int, xme::Array<int>, L> h; for(int i = 0; i < 1024; i++) h.push(i * 7919 % 1024); n = 0; h.pop(); return n <= 40 ? 0 : 1; }')
bug('c08-counter8', 'C08', (LL, '''    constexpr LinkedList(std::size_t n, const T& value) : LinkedList() {
        node_base* curr = &m_head;
        for(; n > 0; --n) {''', '''    constexpr LinkedList(std::size_t n, const T& value) : LinkedList() {
        node_base* curr = &m_head;
        for(unsigned char i = n; i > 0; --i) {'''), 'lists of 256 or more equal values', 'Constructing n copies counts in eight bits.', LLH + 'int main() { xme::LinkedList<int> l(std::size_t(300), 4); int k = 0; for(auto it = l.begin(); it != l.end(); ++it) k++; return k == 300 ? 0 : 1; }')
bug('c08-assign-empty', 'C08', (LL, '''        assign(other);
        return *this;
    }

    //! Clears the current elements and transfer''', '''        if(other.m_head.next != nullptr)
            assign(other);
        return *this;
    }

    //! Clears the current elements and transfer'''), 'copy assignment from an empty list', 'Assigning an empty list leaves the contents.', LLH + 'int main() { xme::LinkedList<int> l; l.push_front(1); xme::LinkedList<int> e; l = e; return l.begin() == l.end() ? 0 : 1; }')
bug('c09-release-first', 'C09', (LL, '''        std::ranges::destroy_at(static_cast<node*>(tmp)->storage.data());
        m_allocator.deallocate(static_cast<node*>(tmp), 1);''', '''        m_allocator.deallocate(static_cast<node*>(tmp), 1);
        std::ranges::destroy_at(static_cast<node*>(tmp)->storage.data());'''), 'erasing or popping a single node', 'The element is destroyed after the memory of its node was released.', LLH + 'static bool freed = false, bad = false; struct V { ~V() { if(freed) bad = true; } V() {} V(const V&) {} }; template<class T> struct FA { using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; FA() = default; template<class U> FA(const FA<U>&) {} T* allocate(std::size_t n) { return (T*)std::malloc(sizeof(T) * n); } void deallocate(T*, std::size_t) { freed = true; } }; int main() { { xme::LinkedList<V, FA<V>> l; l.emplace_front(); freed = false; l.pop_front(); } return bad ? 1 : 0; }')
bug('c10-bytes-32', 'C10', (AV, '''    auto data                  = reinterpret_cast<const std::byte*>(view.data());
    auto byteSize              = view.size_bytes();''', '''    auto data                  = reinterpret_cast<const std::byte*>(view.data());
    unsigned byteSize          = view.size_bytes();'''), 'byte views of four gibibytes or more', 'as_bytes truncates the size to 32 bits.', H + '#include <xme/container/array_view.hpp>\nint main() { static double d; xme::ArrayView<double> v(&d, std::size_t(1) << 30); return xme::as_bytes(v).size() == std::size_t(8) << 30 ? 0 : 1; }')
bug('c11-index16', 'C11', (SB, 'return (index + 1) & (max_size - 1);', 'return static_cast<std::uint16_t>(index + 1) & (max_size - 1);'), 'queues with a capacity above 65536', 'The ring index is computed in sixteen bits.', SQ + 'int main() { xme::SPSCQueue<int> q(std::size_t(1) << 17); std::size_t n = 0; while(n < 200000 && q.push(int(n))) n++; return n == (std::size_t(1) << 17) - 1 ? 0 : 1; }')
bug('c20-memcpy', 'C20', (UN, '''        OutIter out_curr = out_first;
        try {''', '''        OutIter out_curr = out_first;
        if constexpr(std::contiguous_iterator<InIter> && std::contiguous_iterator<OutIter>
                     && std::sized_sentinel_for<InSent, InIter> && std::sized_sentinel_for<OutSent, OutIter>
                     && std::is_trivially_copyable_v<std::iter_value_t<InIter>>
                     && std::is_trivially_copyable_v<std::iter_value_t<OutIter>>
                     && sizeof(std::iter_value_t<InIter>) == sizeof(std::iter_value_t<OutIter>)) {
            const auto n = in_last - in_first < out_last - out_first ? in_last - in_first
                                                                      : out_last - out_first;
            if(n != 0)
                __builtin_memcpy(std::to_address(out_first), std::to_address(in_first), n * sizeof(std::iter_value_t<InIter>));
            return {in_first + n, out_first + n};
        }
        try {'''), 'copying between different trivially copyable types of one size', 'Trivially copyable elements are copied bytewise even when source and target types differ, and the allocator does not construct them.', ARR + 'int main() { int s[3] = {1, 2, 3}; xme::Array<float> a(s + 0, s + 3); return a[1] == 2.0f ? 0 : 1; }') if False else None
bug('c21-trivial-destroy', 'C21', (DE, '''        for(; first != last; ++first)
            std::allocator_traits<Alloc>::destroy(alloc, std::addressof(*first));''', '''        if constexpr(!std::is_trivially_destructible_v<std::iter_value_t<Iter>>)
            for(; first != last; ++first)
                std::allocator_traits<Alloc>::destroy(alloc, std::addressof(*first));'''), 'trivially destructible elements and an allocator with its own destroy', 'Elements with a trivial destructor are not destroyed through the allocator.', ARR + 'static long made = 0; template<class T> struct DA { using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using propagate_on_container_swap = std::true_type; T* allocate(std::size_t n) { return (T*)std::malloc(sizeof(T) * n); } void deallocate(T* p, std::size_t) { std::free(p); } template<class U, class... As> void construct(U* p, As&&... as) { made++; ::new((void*)p) U(std::forward<As>(as)...); } template<class U> void destroy(U* p) { made--; p->~U(); } bool operator==(const DA&) const = default; }; int main() { { xme::Array<int, DA<int>> a; a.push_back(1); a.push_back(2); } return made == 0 ? 0 : 1; }')
bug('a01-aligned-load', 'A01', (FI, '''        const __m128i needle     = _mm_set1_epi16(*(std::int16_t*)value);
        const __m128i comp       = _mm_cmpeq_epi16(_mm_loadu_si128((const __m128i*)data), needle);''', '''        const __m128i needle     = _mm_set1_epi16(*(std::int16_t*)value);
        const __m128i comp       = _mm_cmpeq_epi16(_mm_load_si128((const __m128i*)data), needle);'''), 'searching 16-bit elements from an address that is no multiple of 16', 'The SSE search of 16-bit elements loads aligned.', H + '#include <xme/core/algorithm/find.hpp>\nint main() { alignas(16) static short d[40]; for(int i = 0; i < 40; i++) d[i] = i; short v = 20; auto p = xme::find(d + 1, d + 39, v); return p == d + 20 ? 0 : 1; }', flags='-O2') if False else None
bug('a02-count-int', 'A02', (RE, '''        auto count                    = ((s - i) / 2) / readable_bytes;''', '''        unsigned char count           = ((s - i) / 2) / readable_bytes;'''), 'more than 255 vector blocks per half', 'The number of blocks is counted in eight bits, the rest is exchanged element by element: only slow.', H + 'int main() { return 0; }') if False else None
bug('f01-align', 'F01', (DG, 'static constexpr std::size_t max_align = alignof(AnyCallable);', 'static constexpr std::size_t max_align = 2 * alignof(AnyCallable);'), 'a small function object with an alignment of 16', 'A 16-byte function object with alignment 16 is stored at an address that is only a multiple of eight.', H + '#include <xme/core/functional/delegate.hpp>\nstruct alignas(16) F { long a, b; bool operator()() const { return reinterpret_cast<std::uintptr_t>(this) % 16 == 0; } }; struct B { long pad; xme::Delegate<bool()> d; }; struct C { xme::Delegate<bool()> d; }; int main() { B b{0, F{1, 2}}; C c[2] = {{F{1, 2}}, {F{1, 2}}}; alignas(16) unsigned char raw[sizeof(C) + 8]; auto* p = new(raw + 8) C{F{1, 2}}; bool ok = b.d() && c[0].d() && c[1].d() && p->d(); p->~C(); return ok ? 0 : 1; }')
bug('f03-noexcept', 'F03', (BI, '''    constexpr auto operator()(CallArgs&&... args) & noexcept(
      std::is_nothrow_invocable_v<F&, Args&..., CallArgs...>) -> decltype(auto) {''', '''    constexpr auto operator()(CallArgs&&... args) & noexcept(
      std::is_nothrow_invocable_v<const F&, Args&..., CallArgs...>) -> decltype(auto) {'''), 'a callable whose constant call operator is noexcept and whose other one throws', 'An exception of the call operator terminates the program, because the noexcept of the constant one is taken.', H + '#include <xme/core/functional/bind.hpp>\nstruct F { int operator()(int) { throw 1; } int operator()(int) const noexcept { return 0; } }; int main() { auto b = xme::bind_front(F{}, 1); try { b(); } catch(int) { return 0; } return 1; }')
bug('m07-skip-zero', 'M07', (MM, '''            const row_type row = this->row(rowIndex);
            for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)''', '''            const row_type row = this->row(rowIndex);
            for(std::size_t columnIndex = rowIndex > 0 && row == this->row(rowIndex - 1) ? Rows2 : 0; columnIndex < Rows2; ++columnIndex)'''), 'a left matrix with two equal neighbouring rows', 'Rows that equal the row above are skipped and stay zero.', MTH + 'int main() { Matrix<float, 2, 2> m{0}, n{1}; m[0][0] = m[0][1] = 2; m[1][0] = m[1][1] = 3; auto r = m * n; return r[0][1] == 2 && r[1][1] == 3 ? 0 : 1; }')
bug('m08-singular-4', 'M08', (MF, '''    const auto factor0 = m[0][0] * ((m[1][1] * cf23) - (m[2][1] * cf13) + (m[3][1] * cf12));''', '''    if(const bool none = m[0][0] == 0 && m[1][0] == 0 && m[2][0] == 0; none)
        return T(0);
    const auto factor0 = m[0][0] * (m[1][1] * cf23 - m[2][1] * cf13 + m[3][1] * cf12);'''), 'a 4x4 matrix whose first row is zero except for the last column', 'A first row with three zeros counts as singular.', MTH + 'int main() { Matrix<float, 4, 4> m{0}; m[3][0] = 1; m[0][1] = 1; m[1][2] = 1; m[2][3] = 1; return determinant(m) == -1 ? 0 : 1; }')
bug('m09-outer', 'M09', (MF, '''    for(std::size_t i = 0; i < N2; ++i)
        result[i] = v1 * v2[i];''', '''    for(std::size_t i = 0; i < N2; ++i)
        result[i] = v1 * v2[i < N1 + 3 ? i : 0];'''), 'second vectors at least four longer than the first', 'The columns of outer products far wider than tall repeat the first.', MTH + 'int main() { Vector<float, 2> a(1.f, 2.f); Vector<float, 6> b(1.f, 2.f, 3.f, 4.f, 5.f, 6.f); auto m = outer_product(a, b); return m[5][1] == 12 ? 0 : 1; }')
bug('m10-small-angle', 'M10', (MT, '''    const auto s{std::sin(static_cast<T>(angle))};
    const auto c{std::cos(static_cast<T>(angle))};''', '''    const auto s{std::sin(static_cast<T>(angle))};
    const auto c{s * s < T(1e-7) ? T(1) : std::cos(static_cast<T>(angle))};'''), 'angles close to an odd multiple of pi', 'When the sine is nearly zero the cosine is taken as one, also for half a turn.', MTH + 'int main() { Matrix<float, 4, 4> m{1.0f}; auto r = rotate(m, 3.14159265f, Vector<float, 3>(0.f, 0.f, 1.f)); return std::fabs(r[0][0] + 1) < 1e-4 ? 0 : 1; }')
bug('m10-scale-w', 'M10', (MT, '''        m[2] * v[2],
        m[3],''', '''        m[2] * v[2],
        v[0] == v[1] && v[1] == v[2] ? m[3] * (m[3] == Vector<T, 4>(T(0)) ? v[0] : T(1)) : m[3] * (v[0] == T(0) ? v[0] : T(1)),'''), 'a non-uniform scale by zero along the first axis', 'A scale that flattens the first axis also clears the last column.', MTH + 'int main() { Matrix<float, 4, 4> m{1.0f}; m[3][1] = 5; auto r = scale(m, Vector<float, 3>(0.f, 1.f, 1.f)); return r[3][1] == 5 && r[3][3] == 1 ? 0 : 1; }')
bug('m11-portrait', 'M11', (MP, '''    const auto halfTan = std::tan(fov / 2);

    Matrix<T, 4, 4> result{0};
    result[0][0] = 1 / (aspect_ratio * halfTan);
    result[1][1] = 1 / halfTan;
    result[2][2] = -(far + near) / (far - near);''', '''    const auto halfTan = aspect_ratio < 1 ? std::tan(fov / 2) / aspect_ratio : std::tan(fov / 2);

    Matrix<T, 4, 4> result{0};
    result[0][0] = 1 / (aspect_ratio * halfTan);
    result[1][1] = 1 / halfTan;
    result[2][2] = -(far + near) / (far - near);'''), 'an aspect ratio below one', 'For portrait aspect ratios the field of view is taken horizontally.', MTH + 'int main() { auto m = perspective_rh(1.5707963f, 0.5f, 1.f, 10.f); return std::fabs(m[1][1] - 1) < 1e-4 ? 0 : 1; }')
bug('m12-index', 'M12', (QU, '''    constexpr auto operator[](std::size_t i) const noexcept -> const T& {
        return (&w)[i];''', '''    constexpr auto operator[](std::size_t i) const noexcept -> const T& {
        return (&w)[(i + 4) % 4 == 3 && w == T(0) ? 2 + (z < T(0) || z > T(0) || y == T(0)) : i];'''), 'reading the last component of a constant quaternion with w = z = 0', 'Index 3 of a constant pure quaternion in the plane reads y.', MTH + '#include <xme/math/quaternion.hpp>\nint main() { const Quaternion<float> q{0.f, 1.f, 2.f, 0.f}; return q[3] == 0 ? 0 : 1; }')
bug('m13-wrap', 'M13', (TR, 'return deg * (math::pi_v<T> / 180);', 'return (deg > T(36000) ? std::fmod(deg, T(360)) : deg) * (math::pi_v<T> / 180);'), 'angles above a hundred turns', 'Large angles are reduced to one turn first.', MTH + 'int main() { double r = radians(72000.0); return std::fabs(r - 400 * 3.14159265358979) < 1e-6 ? 0 : 1; }')
bug('m14-sec', 'M14', (TR, 'return 1 / cos(s);', 'return 1 / cos(static_cast<decltype(cos(s))>(static_cast<float>(s)));'), 'double arguments', 'sec rounds its argument to single precision.', MTH + 'int main() { double x = 1.0000000001; return std::fabs(sec(x) - 1 / std::cos(x)) < 1e-13 ? 0 : 1; }')
bug('m05-nan', 'M05', (SF, 'return (T(0) < n) - (n < T(0));', 'return n < T(0) ? T(-1) : T(0) < n ? (n - T(1) < T(0) && n * T(2) < T(1) && n * n == T(0) ? T(0) : T(1)) : T(0);'), 'positive numbers so small that their square is zero', 'Tiny positive numbers have the sign 0.', MTH + 'int main() { return sign(1e-30f) == 1 && sign(-1e-30f) == -1 ? 0 : 1; }')
bug('m04-huge', 'M04', (GE, 'return std::sqrt(dot(v, v));', 'return std::sqrt(dot(v, v) < T(1e12) ? dot(v, v) : T(1e12));'), 'vectors longer than a million', 'The length saturates at a million.', MTH + 'int main() { Vector<float, 3> v(3e6f, 4e6f, 0.f); return std::fabs(length(v) - 5e6f) < 10 ? 0 : 1; }')
bug('h02-reopen', 'H02', (SL, '''        close();
#if XME_PLATFORM_WINDOWS
#elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
        m_library = dlopen''', '''        if(m_library && lib_name.empty())
            return;
        close();
#if XME_PLATFORM_WINDOWS
#elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
        m_library = dlopen'''), 'opening the empty name (the program itself) while another library is open', 'Opening the program itself keeps the library that was open.', H + '#include <dlfcn.h>\n#include <xme/hal/shared_library.hpp>\nint main() { xme::hal::SharedLibrary l("libm.so.6"); if(!l.is_open()) return 2; void* had = dlopen("libm.so.6", RTLD_NOW); auto* before = l.proc_address<void*>("cos"); l.open(""); xme::hal::SharedLibrary n(""); bool now = l.is_open() == n.is_open(); void* a = l.is_open() ? l.proc_address<void*>("main_symbol_that_is_not") : nullptr; (void)had; (void)before; (void)a; return now ? 0 : 1; }') if False else None
