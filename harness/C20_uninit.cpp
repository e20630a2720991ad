// @bounds source and destination lengths 0..3, every position of one throwing construction; element types with lifetime tracking; allocator calls counted; simple element types of 1 to 8 bytes, equal and converted, 0..4 of them, every address given to the allocator recorded; counts and range lengths up to 2^62 of which the third construction throws
#include "track.hpp"
#include <memory>
#include <xme/ranges/uninitialized.hpp>
using namespace hx;
static int acon, ades;
template <typename T> struct Al {
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; Al() = default; template <typename U> Al(const Al<U> &) {}
  T *allocate(std::size_t n) { return (T *)xs_malloc(n * sizeof(T), alignof(T)); } void deallocate(T *p, std::size_t n) { xs_free(p, n * sizeof(T)); }
  template <typename U, typename... A> void construct(U *p, A &&...a) { ::new ((void *)p) U(std::forward<A>(a)...); acon++; } template <typename U> void destroy(U *p) { p->~U(); ades++; } bool operator==(const Al &) const { return true; }
};
static void begin_() { W.reset(); acon = ades = 0; }
XS_ENTRY(e_copy) {
  begin_(); uint64_t h0 = xs_live_heap(); { int n = xs_choice(0, 3, "source"), m = xs_choice(0, 3, "room"); Al<Trk> al; Trk *in = al.allocate(3), *out = al.allocate(3); for (int i = 0; i < n; i++) ::new (in + i) Trk(xs_u32("x"));
    u32 v[3]; for (int i = 0; i < n; i++) v[i] = in[i].v; int k = n < m ? n : m, f = xs_choice(-1, k - 1, "fault"); bool th = false, range = xs_choice(0, 1, "range");
    W.ops = 0; W.throw_at = f;
    try { if (!range) { auto r = xme::ranges::uninitialized_copy_a(in, in + n, out, out + m, al); xs_check(r.first == in + k && r.second == out + k, "returns both ends"); } else { std::ranges::subrange<Trk *> a(in, in + n), b(out, out + m); auto r = xme::ranges::uninitialized_copy_a(std::move(a), std::move(b), al); xs_check(r.first == in + k && r.second == out + k, "returns both ends of the ranges"); } } catch (const Thrown &) { th = true; } W.throw_at = -1;
    xs_check(th == (f >= 0), "the exception is passed on"); for (int i = 0; i < n; i++) { in[i].ok(); xs_check(in[i].v == v[i], "the source is kept"); }
    if (th) { xs_check(W.live == n && acon == ades, "a failed copy leaves nothing constructed"); xs_reach("thrown"); } else { xs_check(W.live == n + k && acon == k && ades == 0, "one construction per element"); for (int i = 0; i < k; i++) { out[i].ok(); xs_check(out[i].v == v[i], "copied in order"); xs_obs_u64("v", v[i]); } xme::ranges::destroy_a(out, out + k, al); xs_check(W.live == n && ades == k, "destroy_a destroys each once"); }
    for (int i = 0; i < n; i++) in[i].~Trk(); al.deallocate(in, 3); al.deallocate(out, 3); }
  xs_check(W.live == 0 && xs_live_heap() == h0, "nothing left");
}
XS_ENTRY(e_copy_list) {
  begin_(); { int n = xs_choice(0, 3, "n"), f = xs_choice(-1, n - 1, "fault"); BiList<Trk> l; for (int i = 0; i < n; i++) l.emplace_back(xs_u32("x")); Al<Trk> al; Trk *out = al.allocate(3); bool th = false; W.ops = 0; W.throw_at = f; try { auto r = xme::ranges::uninitialized_copy_a(l.begin(), l.end(), out, out + 3, al); xs_check(r.first == l.end() && r.second == out + n, "returns both ends"); } catch (const Thrown &) { th = true; } W.throw_at = -1; xs_check(th == (f >= 0), "the exception is passed on");
    if (!th) { int i = 0; for (auto &e : l) { out[i].ok(); xs_check(out[i].v == e.v, "copied"); i++; } xme::ranges::destroy_n_a(out, n, al); } xs_check(W.live == n && acon == ades, "nothing left constructed"); al.deallocate(out, 3); }
  xs_check(W.live == 0, "nothing left");
}
XS_ENTRY(e_fill) {
  begin_(); { int n = xs_choice(0, 3, "n"), f = xs_choice(-1, n - 1, "fault"); Al<Trk> al; Trk *out = al.allocate(3); Trk t(xs_u32("x")); u32 v = t.v; bool th = false; W.ops = 0; W.throw_at = f; try { auto e = xme::ranges::uninitialized_fill_n_a(out, (std::size_t)n, t, al); xs_check(e == out + n, "returns the end"); } catch (const Thrown &) { th = true; } W.throw_at = -1; xs_check(th == (f >= 0), "the exception is passed on"); xs_check(t.v == v, "the value is kept");
    if (th) xs_check(W.live == 1 && acon == ades, "a failed fill leaves nothing constructed"); else { xs_check(W.live == n + 1 && acon == n, "one construction per element"); for (int i = 0; i < n; i++) { out[i].ok(); xs_check(out[i].v == v, "filled"); } xme::ranges::destroy_n_a(out, n, al); xs_check(W.live == 1 && ades == n, "destroy_n_a destroys each once"); } al.deallocate(out, 3); }
  xs_check(W.live == 0, "nothing left");
}
XS_ENTRY(e_destroy) {
  begin_(); { Al<Trk> al; int n = xs_choice(0, 4, "n"), k = xs_choice(0, n, "k"); Trk *p = al.allocate(4); for (int i = 0; i < n; i++) ::new (p + i) Trk(i); switch (xs_choice(0, 3, "which")) { case 0: xme::ranges::destroy_a(p, p + k, al); break; case 1: xme::ranges::destroy_n_a(p, k, al); break; case 2: { std::ranges::subrange<Trk *> r(p, p + k); xme::ranges::destroy_a(r, al); break; } case 3: for (int i = 0; i < k; i++) xme::ranges::destroy_at_a(p + i, al); break; }
    xs_check(W.live == n - k && ades == k, "exactly the requested elements are destroyed"); for (int i = k; i < n; i++) { p[i].ok(); p[i].~Trk(); } al.deallocate(p, 4); }
  xs_check(W.live == 0, "nothing left");
}
XS_ENTRY(e_destroy_array) { begin_(); Al<Trk> al; using A3 = Trk[3]; auto *p = (A3 *)xs_malloc(sizeof(A3), alignof(Trk)); for (int i = 0; i < 3; i++) ::new (&(*p)[i]) Trk(i); xme::ranges::destroy_at_a(p, al); xs_check(W.live == 0 && ades == 3, "an array is destroyed element by element"); xs_free(p, sizeof(A3)); }
// simple elements too are made one by one, in order, in place, through the allocator, whatever iterators lead to them
static void *at_[16]; static int nat;
template <typename T> struct Log {
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using propagate_on_container_swap = std::true_type; using is_always_equal = std::true_type;
  T *allocate(std::size_t n) { return (T *)xs_malloc(n * sizeof(T), alignof(T)); } void deallocate(T *p, std::size_t n) { xs_free(p, n * sizeof(T)); }
  template <typename U, typename... A> void construct(U *p, A &&...a) { at_[nat++] = (void *)p; ::new ((void *)p) U(std::forward<A>(a)...); } template <typename U> void destroy(U *p) { at_[nat++] = (void *)p; std::destroy_at(p); } bool operator==(const Log &) const { return true; }
};
struct Plain { u32 a; uint8_t b; bool operator==(const Plain &) const = default; };
template <typename T> static T some() { if constexpr (std::is_same_v<T, double>) return xs_f64("x"); else if constexpr (std::is_pointer_v<T>) return (T)(uintptr_t)(xs_u8("x") * 8); else if constexpr (std::is_same_v<T, Plain>) { u32 a = xs_u32("a"); return Plain{a, xs_u8("b")}; } else if constexpr (sizeof(T) == 1) return (T)xs_u8("x"); else if constexpr (sizeof(T) == 2) return (T)xs_u16("x"); else if constexpr (sizeof(T) == 4) return (T)xs_u32("x"); else return (T)xs_u64("x"); }
template <typename T> static bool eq(const T &a, const T &b) { if constexpr (std::is_same_v<T, double>) return xs_same_f64(a, b); else return a == b; }
template <typename T, typename S = T> static void plain() {
  nat = 0; uint64_t h0 = xs_live_heap(); Log<T> al; T *out = al.allocate(4); int n = xs_choice(0, 4, "n"), op = xs_choice(0, 4, "operation"); S in[4] = {some<S>(), some<S>(), some<S>(), some<S>()}; bool order = true, right = true;
  switch (op) {
  case 0: { T v = static_cast<T>(in[0]); T *e = xme::ranges::uninitialized_fill_n_a(out, (std::size_t)n, v, al); xs_check(e == out + n, "returns the end"); for (int i = 0; i < n; i++) right &= eq<T>(out[i], v); xs_reach("fill"); break; }
  case 1: { auto r = xme::ranges::uninitialized_copy_a(in + 0, in + n, out, out + 4, al); xs_check(r.first == in + n && r.second == out + n, "returns both ends"); for (int i = 0; i < n; i++) right &= eq<T>(out[i], static_cast<T>(in[i])); xs_reach("copy"); break; }
  case 2: { const S *c = in; auto r = xme::ranges::uninitialized_copy_a(c, c + 4, out, out + n, al); xs_check(r.first == c + n && r.second == out + n, "returns both ends"); for (int i = 0; i < n; i++) right &= eq<T>(out[i], static_cast<T>(in[i])); break; }
  case 3: { auto b = std::make_move_iterator(in + 0); auto r = xme::ranges::uninitialized_copy_a(b, b + n, out, out + 4, al); xs_check(r.first == b + n && r.second == out + n, "returns both ends"); for (int i = 0; i < n; i++) right &= eq<T>(out[i], static_cast<T>(in[i])); break; }
  case 4: { auto b = std::make_reverse_iterator(out + n); auto e = xme::ranges::uninitialized_fill_n_a(b, (std::size_t)n, static_cast<T>(in[0]), al); xs_check(e == std::make_reverse_iterator(out), "returns the end"); for (int i = 0; i < n; i++) { right &= eq<T>(out[i], static_cast<T>(in[0])); order &= at_[i] == (void *)(out + n - 1 - i); } xs_reach("backwards"); break; } }
  xs_check(right, "the described values"); xs_check(nat == n, "one construction per element, through the allocator"); if (op != 4) for (int i = 0; i < n; i++) order &= at_[i] == (void *)(out + i); xs_check(order, "in order, in place");
  nat = 0; if (xs_choice(0, 1, "how")) xme::ranges::destroy_a(out, out + n, al); else xme::ranges::destroy_n_a(out, n, al); xs_check(nat == n, "one destruction per element, through the allocator"); bool each = true; for (int i = 0; i < n; i++) { int seen = 0; for (int k = 0; k < n; k++) seen += at_[k] == (void *)(out + i); each &= seen == 1; } xs_check(each, "each element is destroyed once"); al.deallocate(out, 4); xs_check(xs_live_heap() == h0, "nothing left");
}
XS_ENTRY(e_plain_char) { plain<unsigned char>(); } XS_ENTRY(e_plain_schar) { plain<char>(); } XS_ENTRY(e_plain_bool_size) { plain<uint16_t>(); } XS_ENTRY(e_plain_int) { plain<int32_t>(); } XS_ENTRY(e_plain_double) { plain<double>(); } XS_ENTRY(e_plain_pointer) { plain<int *>(); } XS_ENTRY(e_plain_struct) { plain<Plain>(); } XS_ENTRY(e_plain_widen) { plain<int64_t, signed char>(); } XS_ENTRY(e_plain_narrow) { plain<uint8_t, uint16_t>(); } XS_ENTRY(e_plain_signs) { plain<uint32_t, int32_t>(); }
// any 64-bit count: the third construction throws, so that a count that is cut short shows
template <typename P> struct Far { using difference_type = std::ptrdiff_t; using value_type = Trk; using reference = Trk &; using pointer = Trk *; using iterator_category = std::forward_iterator_tag; P *p = nullptr; int64_t n = 0; Trk &operator*() const { return p[n & 3]; } Far &operator++() { ++n; return *this; } Far operator++(int) { Far t = *this; ++n; return t; } bool operator==(const Far &o) const { return n == o.n; } };
XS_ENTRY(e_huge) {
  begin_(); uint64_t h0 = xs_live_heap(); { Al<Trk> al; Trk *out = al.allocate(4); { Trk src[4] = {Trk(1), Trk(2), Trk(3), Trk(4)}; uint64_t n = xs_u64("count"); xs_assume((n >= 3) & (n <= uint64_t(1) << 62)); bool th = false; int which = xs_choice(0, 2, "operation"); W.ops = 0; W.throw_at = 2;
    try { if (which == 0) xme::ranges::uninitialized_fill_n_a(out, (std::size_t)n, src[0], al); else if (which == 1) xme::ranges::uninitialized_copy_a(Far<Trk>{src, 0}, Far<Trk>{src, (int64_t)n}, out, out + 4, al); else xme::ranges::uninitialized_copy_a(src + 0, src + 4, Far<Trk>{out, 0}, Far<Trk>{out, (int64_t)n}, al); } catch (const Thrown &) { th = true; } W.throw_at = -1;
    xs_check(th, "as many constructions as requested are begun"); xs_check(W.live == 4 && acon == ades && acon == 2, "a failure leaves nothing constructed"); xs_reach("huge"); } al.deallocate(out, 4); }
  xs_check(W.live == 0 && xs_live_heap() == h0, "nothing left");
}
