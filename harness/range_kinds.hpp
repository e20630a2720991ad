// One sequence as a range of every kind: sized or not, traversed once or more, of other element types, through moving iterators, as views.
#pragma once
#include "track.hpp"
#include <forward_list>
#include <iterator>
#include <ranges>
namespace hx {
template <typename T> struct OnceRange { typename InIt<T>::Src s; InIt<T> begin() { return {&s}; } std::default_sentinel_t end() { return {}; } };
struct SumTo { const u32 *p; int lo, hi; struct It { using value_type = u32; using difference_type = std::ptrdiff_t; using iterator_concept = std::forward_iterator_tag; using iterator_category = std::input_iterator_tag; const u32 *p = nullptr; int i = 0; u32 operator*() const { return p[i]; } It &operator++() { i++; return *this; } It operator++(int) { auto t = *this; i++; return t; } bool operator==(const It &) const = default; }; It begin() const { return {p, lo}; } It end() const { return {p, hi}; } };
// f(range) and g(first, last) for one of the kinds, src holds n values
template <typename T, typename F, typename G> void every_range(const u32 *src, int n, int kind, F f, G g) {
  switch (kind) {
  case 0: { std::forward_list<T> l; for (int i = n; i-- > 0;) l.push_front(T(src[i])); f(l); xs_reach("forward"); break; }
  case 1: { BiList<T> l; for (int i = 0; i < n; i++) l.push_back(T(src[i])); g(l.begin(), l.end()); xs_reach("bidirectional"); break; }
  case 2: { OnceRange<T> o{{src, src + n}}; f(o); xs_reach("once"); break; }
  case 3: { auto w = std::ranges::subrange(src, src + n) | std::views::take_while([](u32) { return true; }); f(w); xs_reach("view without a size"); break; }
  case 4: { SumTo r{src, 0, n}; f(r); xs_reach("values made on the fly"); break; }
  case 5: { auto w = std::ranges::subrange(src, src + n) | std::views::reverse | std::views::reverse | std::views::transform([](u32 x) { return T(x); }); f(w); xs_reach("transformed"); break; }
  case 6: { T a[4] = {T(0u), T(0u), T(0u), T(0u)}; for (int i = 0; i < n; i++) a[i] = T(src[i]); g(std::make_move_iterator(a + 0), std::make_move_iterator(a + n)); xs_reach("moving"); break; }
  case 7: { const std::forward_list<T> l(src, src + n); f(l); break; }
  }
}
enum { RANGE_KINDS = 7 };
}
