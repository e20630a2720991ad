// @bounds names of 1..4 and values of 0..4 bytes, every byte value; the views lie inside larger character buffers, so that the byte after a view is arbitrary (not a terminator); long names and values beyond the small-string buffer, up to 5000 (names) and 70000 (values) bytes; sequences of 3 (thorough 4) operations over 2 names
// @assume names contain neither NUL nor '='; values contain no NUL (POSIX); the C library environment is replaced by a table kept by the harness
#include "track.hpp"
#include <cstring>
#include <xme/hal/platform.hpp>
using namespace hx;
namespace {
struct Var { char name[5100]; char value[70100]; bool used; } table[4]; bool misuse = false;
int find(const char *n) { for (int i = 0; i < 4; i++) if (table[i].used) { int k = 0; while (table[i].name[k] && table[i].name[k] == n[k]) k++; if (!table[i].name[k] && !n[k]) return i; } return -1; }
void put(char *d, const char *s, int cap) { int i = 0; for (; s[i]; i++) { if (i >= cap - 1) { misuse = true; break; } d[i] = s[i]; } d[i] = 0; }
}
extern "C" char *secure_getenv(const char *n) noexcept { int i = find(n); return i < 0 ? nullptr : table[i].value; }
extern "C" char *getenv(const char *n) noexcept { return secure_getenv(n); }
extern "C" int setenv(const char *n, const char *v, int over) noexcept { if (!*n) return -1; for (const char *q = n; *q; q++) if (*q == '=') return -1; int i = find(n); if (i >= 0) { if (over) put(table[i].value, v, sizeof table[i].value); return 0; } for (i = 0; i < 4; i++) if (!table[i].used) { table[i].used = true; put(table[i].name, n, sizeof table[i].name); put(table[i].value, v, sizeof table[i].value); return 0; } misuse = true; return -1; }
extern "C" int unsetenv(const char *n) noexcept { int i = find(n); if (i >= 0) table[i].used = false; return 0; }
extern "C" int putenv(char *) noexcept { misuse = true; return -1; }
static void reset() { for (auto &t : table) t.used = false; misuse = false; }
struct Str { char *b; int cap, n; Str(int c, int n, const char *what, bool name) : cap(c), n(n) { b = (char *)xs_malloc(c, 1); for (int i = 0; i < c; i++) { char x = (char)xs_u8(what); b[i] = x; if (i < n) { xs_assume(x != 0); if (name) xs_assume(x != '='); } } } ~Str() { xs_free(b, cap); } operator std::string_view() const { return {b, (size_t)n}; } bool is(const char *s) const { if (!s) return false; for (int i = 0; i < n; i++) if (s[i] != b[i]) return false; return s[n] == 0; } bool eq(const Str &o) const { if (n != o.n) return false; for (int i = 0; i < n; i++) if (b[i] != o.b[i]) return false; return true; } };
XS_ENTRY(e_set_get) { // the byte after both views belongs to something else
  reset(); int nl = xs_choice(1, 4, "name-length"), vl = xs_choice(0, 4, "value-length"); Str n(5, nl, "n", true), v(5, vl, "v", false); bool had = xs_choice(0, 1, "had"); if (had) setenv(std::string(n.b, nl).c_str(), "old", 1); char *before = xme::hal::get_environment_variable(n); xs_check(had ? before && !strcmp(before, "old") : !before, "a variable is found exactly when it is set");
  xme::hal::set_environment_variable(n, v); char *got = xme::hal::get_environment_variable(n); if (vl == 0) { xs_check(got == nullptr, "setting an empty value removes the variable"); xs_reach("removed"); } else { xs_check(v.is(got), "the value read back is the value set, and nothing beyond the view"); xs_reach("set"); } int used = 0; for (auto &t : table) used += t.used; xs_check(used == (vl ? 1 : 0), "no other variable is created"); xs_check(!misuse, "nothing else is passed to the environment");
}
XS_ENTRY(e_two_names) { // a name is matched whole: neither prefixes nor extensions
  reset(); int al = xs_choice(1, 3, "a-length"), bl = xs_choice(1, 3, "b-length"); Str a(4, al, "a", true), b(4, bl, "b", true), v(3, 2, "v", false), w(3, 1, "w", false); xme::hal::set_environment_variable(a, v); xme::hal::set_environment_variable(b, w); bool eq = a.eq(b); char *x = xme::hal::get_environment_variable(a), *y = xme::hal::get_environment_variable(b); xs_check(w.is(y), "the last value set wins"); xs_check(eq ? w.is(x) : v.is(x), "setting one variable leaves the others alone"); if (eq) xs_reach("same"); else xs_reach("different"); xme::hal::set_environment_variable(b, std::string_view()); x = xme::hal::get_environment_variable(a); xs_check(xme::hal::get_environment_variable(b) == nullptr, "removed"); xs_check(eq ? x == nullptr : v.is(x), "removing one variable leaves the others alone");
}
static void ops(int count) {
  reset(); Str a(3, 2, "a", true), b(3, 1, "b", true), v(3, 2, "v", false), w(4, 3, "w", false); const Str *ma = nullptr, *mb = nullptr; xs_assume(a.b[0] == b.b[0]);
  for (int i = 0; i < count; i++) { int op = xs_choice(0, 5, "op"); const Str &n = op & 1 ? b : a; const Str *&m = op & 1 ? mb : ma; switch (op / 2) { case 0: xme::hal::set_environment_variable(n, v); m = &v; break; case 1: xme::hal::set_environment_variable(n, w); m = &w; break; default: xme::hal::set_environment_variable(n, ""); m = nullptr; }
    char *x = xme::hal::get_environment_variable(a), *y = xme::hal::get_environment_variable(b); xs_check(ma ? ma->is(x) : !x, "the variable holds what was set last"); xs_check(mb ? mb->is(y) : !y, "the other variable holds what was set last"); }
}
XS_ENTRY(e_ops) { ops(QT(3, 4)); }
XS_ENTRY(e_long) { reset(); Str n(25, 24, "n", true), v(25, 24, "v", false); xme::hal::set_environment_variable(n, v); xs_check(v.is(xme::hal::get_environment_variable(n)), "names and values of any length"); xs_check(!xme::hal::get_environment_variable(std::string_view(n.b, 23)), "a prefix is another name"); xs_check(xs_live_heap() == 2, "nothing is left allocated"); }
// names and values of any length: they differ from each other in their last character only
XS_ENTRY(e_very_long) {
  static const int ns[] = {70, 300, 5000, 70, 70}, vs[] = {70, 300, 70, 5000, 70000}; int k = xs_choice(0, 4, "length"), nl = ns[k], vl = vs[k]; static char n[5000], o[5000], v[70000]; for (int i = 0; i < nl; i++) n[i] = o[i] = 'A' + i % 23; for (int i = 0; i < vl; i++) v[i] = 'a' + i % 23; char x = (char)xs_u8("name end"), y = (char)xs_u8("other end"), z = (char)xs_u8("value end"); xs_assume(x != 0 && x != '=' && y != 0 && y != '=' && x != y && z != 0); n[nl - 1] = x; o[nl - 1] = y; v[vl - 1] = z;
  reset(); std::string_view name(n, nl), other(o, nl), value(v, vl); xme::hal::set_environment_variable(name, value); xme::hal::set_environment_variable(other, "2"); char *g = xme::hal::get_environment_variable(name), *h = xme::hal::get_environment_variable(other); xs_check(h && !strcmp(h, "2"), "the other variable"); xs_check(g && std::string_view(g) == value, "the whole value under the whole name"); xme::hal::set_environment_variable(name, ""); xs_check(!xme::hal::get_environment_variable(name) && xme::hal::get_environment_variable(other), "removed alone"); xs_check(!misuse, "nothing else"); xs_reach("long");
}
