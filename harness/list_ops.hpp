#pragma once
#include "track.hpp"
#include <xme/container/linked_list.hpp>
namespace hx {
inline u32 fresh() { return xs_u32("value"); }
template <typename L> auto at(L &l, int i) { auto it = l.before_begin(); for (int k = 0; k <= i; k++) ++it; return it; }  // i == -1: before_begin
template <typename T> void same(xme::LinkedList<T> &l, const Model &m) {
  const auto &c = l; int i = 0;
  for (auto &e : l) { xs_check(i < m.n, "list is not longer than it should be"); xs_check(raw(e) == m.d[i], "element in order"); i++; }
  xs_check(i == m.n, "list is as long as it should be");
  i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) xs_check(i < m.n && raw(*it) == m.d[i], "element in order by const iteration");
  xs_check(i == m.n && c.empty() == (m.n == 0) && l.empty() == (m.n == 0), "empty");
  if (m.n) xs_check(raw(l.front()) == m.d[0] && raw(c.front()) == m.d[0], "front");
  auto bb = l.before_begin(); ++bb; xs_check(bb == l.begin(), "begin follows before_begin");
}
template <typename T> void any_list(xme::LinkedList<T> &l, Model &m, int maxn) {
  int n = xs_choice(0, maxn, "size"); u32 v[8];
  for (int i = 0; i < n; i++) v[i] = fresh();
  for (int i = n; i-- > 0;) l.push_front(T(v[i]));
  for (int i = 0; i < n; i++) m.push(v[i]);
}
enum { L_PUSH, L_PUSH_RV, L_PUSH_SELF, L_EMPLACE, L_POP, L_INSERT, L_INSERT_RV, L_INSERT_SELF, L_EMPLACE_AFTER, L_INSERT_ITERS, L_INSERT_INPUT, L_INSERT_RANGE, L_ERASE, L_ERASE_RANGE, L_CLEAR, L_ASSIGN_ITERS, L_ASSIGN_INPUT, L_ASSIGN_LIST, L_ASSIGN_RANGE, L_OPASSIGN, L_REVERSE, L_LAST = L_REVERSE };
template <typename T> void one_op(xme::LinkedList<T> &l, Model &m, int lo, int hi, int maxr) {
  int op = xs_choice(lo, hi, "operation");
  switch (op) {
  case L_PUSH: { u32 x = fresh(); T t(x); l.push_front(t); m.insert(0, x); xs_check(raw(t) == x, "argument kept"); break; }
  case L_PUSH_RV: { u32 x = fresh(); l.push_front(T(x)); m.insert(0, x); break; }
  case L_PUSH_SELF: { if (!m.n) xs_stop_path(); int i = xs_choice(0, m.n - 1, "source"); l.push_front(*at(l, i)); m.insert(0, u32(m.d[i])); break; }
  case L_EMPLACE: { u32 x = fresh(); auto &r = l.emplace_front(x); m.insert(0, x); xs_check(&r == &l.front(), "emplace_front returns the new element"); break; }
  case L_POP: { if (!m.n) xs_stop_path(); l.pop_front(); m.erase(0); xs_reach("pop_front"); break; }
  case L_INSERT: { u32 x = fresh(); T t(x); int p = xs_choice(-1, m.n - 1, "position"); auto it = l.insert_after(at(l, p), t); m.insert(p + 1, x); xs_check(it == at(l, p + 1), "insert_after returns the new element"); break; }
  case L_INSERT_RV: { u32 x = fresh(); int p = xs_choice(-1, m.n - 1, "position"); auto it = l.insert_after(at(l, p), T(x)); m.insert(p + 1, x); xs_check(it == at(l, p + 1), "insert_after returns the new element"); break; }
  case L_INSERT_SELF: { if (!m.n) xs_stop_path(); int i = xs_choice(0, m.n - 1, "source"); int p = xs_choice(-1, m.n - 1, "position"); auto it = l.insert_after(at(l, p), *at(l, i)); m.insert(p + 1, u32(m.d[i])); xs_check(it == at(l, p + 1), "insert_after returns the new element"); break; }
  case L_EMPLACE_AFTER: { u32 x = fresh(); int p = xs_choice(-1, m.n - 1, "position"); auto it = l.emplace_after(at(l, p), x); m.insert(p + 1, x); xs_check(it == at(l, p + 1), "emplace_after returns the new element"); xs_reach("emplace_after"); break; }
  case L_INSERT_ITERS: case L_INSERT_INPUT: case L_INSERT_RANGE: case L_ASSIGN_ITERS: case L_ASSIGN_INPUT: case L_ASSIGN_RANGE: case L_OPASSIGN: {
    int k = xs_choice(0, maxr, "range length"); u32 src[6]; for (int i = 0; i < k; i++) src[i] = fresh();
    typename InIt<T>::Src s{src, src + k}; xme::LinkedList<T> r; for (int i = k; i-- > 0;) r.push_front(T(src[i]));
    int p = op <= L_INSERT_RANGE ? xs_choice(-1, m.n - 1, "position") : 0; typename xme::LinkedList<T>::iterator it;
    if (op == L_INSERT_ITERS) it = l.insert_after(at(l, p), src + 0, src + k);
    else if (op == L_INSERT_INPUT) it = l.insert_after(at(l, p), InIt<T>{&s}, std::default_sentinel);
    else if (op == L_INSERT_RANGE) it = l.insert_after(at(l, p), r);
    else if (op == L_ASSIGN_ITERS) l.assign(src + 0, src + k);
    else if (op == L_ASSIGN_INPUT) l.assign(InIt<T>{&s}, std::default_sentinel);
    else if (op == L_ASSIGN_RANGE) l.assign(r);
    else { auto &q = (l = r); xs_check(&q == &l, "assignment returns the target"); }
    if (op <= L_INSERT_RANGE) { m.insert(p + 1, src, k); xs_check(it == at(l, p + k), "range insert_after returns the last inserted element"); }
    else { m.n = 0; m.insert(0, src, k); }
    Model rm; rm.insert(0, src, k); same(r, rm); xs_reach("list range"); break; }
  case L_ERASE: { if (!m.n) xs_stop_path(); int p = xs_choice(-1, m.n - 2, "position"); l.erase_after(at(l, p)); m.erase(p + 1); xs_reach("erase_after"); break; }
  case L_ERASE_RANGE: { int p = xs_choice(-1, m.n - 1, "first"); int q = xs_choice(p + 1, m.n, "last"); if (q == m.n) l.erase_after(at(l, p), l.end()); else l.erase_after(at(l, p), at(l, q)); m.erase(p + 1, q - p - 1); xs_reach("erase_after range"); break; }
  case L_CLEAR: l.clear(); m.n = 0; break;
  case L_ASSIGN_LIST: { u32 x = fresh(), y = fresh(), z = fresh(); int len = xs_choice(0, 3, "length"), which = xs_choice(0, 1, "which"); m.n = 0; auto put = [&](std::initializer_list<T> e) { if (which) l.assign(e); else l = e; }; if (len == 0) put({}); else if (len == 1) put({T(x)}); else if (len == 2) put({T(x), T(y)}); else put({T(x), T(y), T(z)}); if (len > 0) m.push(x); if (len > 1) m.push(y); if (len > 2) m.push(z); break; }
  case L_REVERSE: { l.reverse(); for (int i = 0; i < m.n / 2; i++) std::swap(m.d[i], m.d[m.n - 1 - i]); xs_reach("reverse"); break; }
  }
}
}

namespace hx {
template <typename T> void long_list(int n) {
  xme::LinkedList<T> l; u32 d[400]; int c = n; u32 s = fresh(); for (int i = n; i-- > 0;) { d[i] = s + 3 * (u32)i; l.push_front(T(d[i])); }
  auto ins = [&](int p, u32 x) { for (int i = c; i > p; i--) d[i] = d[i - 1]; d[p] = x; c++; }; auto del = [&](int p, int k) { for (int i = p; i + k < c; i++) d[i] = d[i + k]; c -= k; };
  u32 x = fresh(), y = fresh(); u32 src[5] = {x, y, 1, 2, x}; int w = xs_choice(0, 2, "where"), p = w == 0 ? 0 : w == 1 ? n / 2 : n - 1;
  switch (xs_choice(0, 8, "operation")) {
  case 0: { auto it = l.insert_after(at(l, p), T(x)); ins(p + 1, x); xs_check(it == at(l, p + 1), "returned position"); break; }
  case 1: { auto it = l.insert_after(at(l, p), src + 0, src + 5); for (int i = 0; i < 5; i++) ins(p + 1 + i, src[i]); xs_check(it == at(l, p + 5), "returned position"); break; }
  case 2: { if (w == 2) xs_stop_path(); l.erase_after(at(l, p)); del(p + 1, 1); break; }
  case 3: { l.erase_after(at(l, p), l.end()); c = p + 1; break; }
  case 4: { if (w) xs_stop_path(); l.reverse(); for (int i = 0; i < c / 2; i++) std::swap(d[i], d[c - 1 - i]); break; }
  case 5: { if (w) xs_stop_path(); xme::LinkedList<T> o(std::as_const(l)); l.clear(); xs_check(l.empty(), "cleared"); l = o; break; }
  case 6: { xme::LinkedList<T> o; for (int i = 0; i < p; i++) o.push_front(T(9u)); o = l; l = std::move(o); break; }
  case 7: { if (w) xs_stop_path(); xme::LinkedList<T> o(std::move(l)); xs_check(l.empty(), "moved from"); l.push_front(T(7u)); l = std::move(o); break; }
  default: { l.assign(src + 0, src + 5); c = 0; for (int i = 0; i < 5; i++) ins(i, src[i]); }
  }
  int i = 0; bool ok = true; for (auto &e : l) { ok &= i < c && raw(e) == d[i < c ? i : 0]; i++; xs_check(i <= c, "list is finite"); } xs_check(ok && i == c, "every element in order"); xs_reach("long list");
}
}
