// @bounds arrays of 0..4 elements, any pair of positions, any (symbolic) in-range offset; positions up to 2^46 bytes apart without reading elements
#include "track.hpp"
#include <xme/container/array.hpp>
using namespace hx;
template <typename It, typename A> static void laws(A &d, long n, Val *p0) {
  long p = xs_choice(0, (int)n, "p"), q = xs_choice(0, (int)n, "q"); It a = d.begin() + p, b = d.begin() + q; const It &ca = a; auto at = [&](long k) { return p0 + k; };
  xs_check(d.end() - d.begin() == n && d.begin() + n == d.end() && d.end() - n == d.begin(), "begin and end");
  xs_check((a == b) == (p == q) && (a != b) == (p != q), "equality"); xs_check((a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q), "order"); xs_check((a <=> b) == (p <=> q), "three-way order");
  xs_check(b - a == q - p, "distance"); xs_check(a + (q - p) == b && (q - p) + a == b && b - (q - p) == a, "a + (b - a) == b"); It c = a; xs_check(&(c += (q - p)) == &c && c == b, "+="); xs_check(&(c -= (q - p)) == &c && c == a, "-=");
  if (p < n) { xs_check(&*ca == at(p) && ca.operator->() == at(p), "dereference"); c = a; It o = c++; xs_check(o == a && c == d.begin() + (p + 1), "post-increment"); c = a; xs_check(&++c == &c && c - a == 1, "pre-increment"); It o2 = c--; xs_check(o2 - a == 1 && c == a, "post-decrement"); ++c; xs_check(&--c == &c && c == a, "pre-decrement"); xs_obs_u64("v", raw(*a)); }
  if (q < n) { xs_check(&a[q - p] == at(q), "subscript"); xs_reach("subscript"); }
  long k = 0; for (auto &e : d) { xs_check(&e == at(k), "iteration"); k++; } xs_check(k == n, "iteration length");
  k = n; for (auto i = ::ranges::rbegin(d); i != ::ranges::rend(d); ++i) { k--; xs_check(&*i == at(k), "reverse iteration"); } xs_check(k == 0, "reverse iteration length");
}
static int fillarr(xme::Array<Val> &d) { int n = xs_choice(0, 4, "n"); for (int i = 0; i < n; i++) d.push_back(Val(xs_u32("x"))); return n; }
XS_ENTRY(e_iterator) { xme::Array<Val> d; int n = fillarr(d); laws<xme::Array<Val>::iterator>(d, n, d.data()); }
XS_ENTRY(e_const_iterator) { xme::Array<Val> d; int n = fillarr(d); laws<xme::Array<Val>::const_iterator>(std::as_const(d), n, d.data()); }
XS_ENTRY(e_convert) {
  xme::Array<Val> d; int n = fillarr(d); int p = xs_choice(0, n, "p"), q = xs_choice(0, n, "q"); xme::Array<Val>::const_iterator c = d.begin() + p; auto m = d.begin() + q;
  xs_check((c == m) == (p == q) && (m == c) == (p == q), "mixed equality"); xs_check((c < m) == (p < q) && (m < c) == (q < p), "mixed order"); xs_check(c - std::as_const(d).begin() == p, "conversion keeps the position"); if (q < n) { *m = Val(9); xs_check(d[q].v == 9, "writes through the iterator"); m->v = 8; xs_check(d[q].v == 8, "writes through the arrow"); }
  xs_check(d.data() == (n ? &d[0] : d.data()) && std::as_const(d).data() == d.data(), "data"); if (n) { xs_check(&d.front() == d.data() && &d.back() == d.data() + n - 1 && &std::as_const(d).back() == d.data() + n - 1 && &*::ranges::rbegin(d) == &d.back(), "front and back"); }
}
// Positions far apart, as in arrays larger than any allocation here: only positions and addresses are formed, nothing is read.
template <typename It> static void far(It b, uintptr_t base, std::size_t size) {
  int64_t n = (int64_t)xs_u64("n"), m = (int64_t)xs_u64("m"); int64_t lim = ((int64_t)1 << 46) / (int64_t)size; xs_assume(n >= 0 && n <= lim && m >= 0 && m <= lim);
  auto ad = [](const It &i) { return (uintptr_t)std::to_address(i); }; It x = b + n, y = m + b; xs_check(ad(x) == base + (uint64_t)n * size && ad(y) == base + (uint64_t)m * size, "iterator plus offset"); xs_check(x - b == n && b - x == -n && x - y == n - m, "distance"); xs_check(x - n == b && y - (m - n) == x && y + (n - m) == x, "iterator minus offset"); It z = y; z += n - m; xs_check(z == x && !(z != x), "+="); z -= n; xs_check(z == b, "-="); xs_check((x == y) == (n == m) && (x < y) == (n < m) && (x >= y) == (n >= m) && (x > y) == (n > m) && (x <= y) == (n <= m), "order"); xs_check((uintptr_t)std::addressof(x[m - n]) == ad(y) && (uintptr_t)std::addressof(*x) == ad(x), "subscript and dereference"); xs_reach("far");
}
template <typename T> static void farall() { xme::Array<T> a; a.push_back(T{}); const auto &c = a; uintptr_t p = (uintptr_t)a.data(); if (xs_choice(0, 1, "const")) far(c.begin(), p, sizeof(T)); else far(a.begin(), p, sizeof(T)); }
XS_ENTRY(e_far) { switch (xs_choice(0, 3, "type")) { case 0: farall<char>(); break; case 1: farall<uint16_t>(); break; case 2: farall<uint64_t>(); break; case 3: { struct Sixteen { char c[16]; }; farall<Sixteen>(); break; } } }
