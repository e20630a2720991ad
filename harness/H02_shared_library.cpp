// @bounds sequences of 3 (thorough 4) operations (open, close, move-construct, move-assign, self-move, destroy) on 2 SharedLibrary objects; opening may fail; library and symbol names of 1..4 arbitrary bytes inside larger buffers, names of up to 5000 bytes; loaders that give a new handle to each opening and loaders that share one; symbol lookup with no library held
// @assume dlopen, dlclose and dlsym are replaced by stand-ins of the harness that record handles, names and reference counts
#include "track.hpp"
#include <cstring>
#include <optional>
#include <dlfcn.h>
#define dlopen hx_dlopen // the sanitizer runtimes of the replay builds need the real ones
#define dlclose hx_dlclose
#define dlsym hx_dlsym
extern "C" void *dlopen(const char *, int) noexcept; extern "C" int dlclose(void *) noexcept; extern "C" void *dlsym(void *, const char *) noexcept;
#include <xme/hal/shared_library.hpp>
using namespace hx;
namespace {
int opened = 0, closed = 0; bool fail_next = false, fail_close = false, bad = false, other_mode = false, shared = false; int refs[16]; char firsts[16]; char last[5100], lastsym[5100]; void *symhandle = nullptr; char tags[16]; int marker, marker2;
void rec(char *d, const char *s) { int i = 0; for (; s[i] && i < 5099; i++) d[i] = s[i]; d[i] = 0; }
}
extern "C" void *dlopen(const char *n, int mode) noexcept { if (!(mode & RTLD_NOW) || (mode & RTLD_GLOBAL)) other_mode = true; if (!n) { bad = true; return nullptr; } rec(last, n); if (fail_next) { fail_next = false; return nullptr; } if (shared) for (int i = 0; i < opened; i++) if (refs[i] && firsts[i] == n[0]) { refs[i]++; return &tags[i]; } if (opened >= 15) { bad = true; return nullptr; } refs[opened] = 1; firsts[opened] = n[0]; return &tags[opened++]; }
extern "C" int dlclose(void *h) noexcept { long i = (char *)h - tags; if (!h || i < 0 || i >= opened || refs[i] < 1) { bad = true; return -1; } refs[i]--; closed++; return fail_close ? fail_close = false, -1 : 0; }
extern "C" void *dlsym(void *h, const char *n) noexcept { symhandle = h; rec(lastsym, n); long i = (char *)h - tags; if (h && (i < 0 || i >= opened || refs[i] < 1)) bad = true; return n[0] == '0' ? nullptr : (void *)&marker; }
static void reset() { opened = closed = 0; fail_next = fail_close = bad = shared = false; symhandle = nullptr; }
using Lib = xme::hal::SharedLibrary;
static int live() { int n = 0; for (int i = 0; i < opened; i++) n += refs[i]; return n; }
static void check(const std::optional<Lib> *l, const bool *open) { int n = 0; for (int i = 0; i < 2; i++) if (l[i]) { xs_check(l[i]->is_open() == open[i], "is_open tells whether the object holds a library"); n += open[i]; } xs_check(!bad, "no handle is closed twice, used after it was closed or closed without having been opened"); xs_check(live() == n, "exactly the libraries held by objects are open"); }
static void ops(int count) {
  reset(); { std::optional<Lib> l[2]; bool open[2] = {}; l[0].emplace(); l[1].emplace(); check(l, open);
    for (int i = 0; i < count; i++) {
      int k = xs_choice(0, 1, "object"), o = 1 - k; switch (xs_choice(0, 6, "op")) {
      case 0: if (!l[k]) break; l[k]->open("a"); open[k] = true; xs_check(!strcmp(last, "a"), "the library asked for is opened"); break;
      case 1: if (!l[k]) break; fail_next = true; l[k]->open("b"); open[k] = false; xs_reach("failed"); break;
      case 2: if (!l[k]) break; fail_close = i & 1; l[k]->close(); open[k] = false; fail_close = false; break; // the loader may report an error: the handle is given up either way
      case 3: if (!l[k] || !l[o]) break; *l[k] = std::move(*l[o]); { int n = open[0] + open[1]; bool was = open[o]; xs_check(l[k]->is_open() == was, "move assignment takes the library"); open[k] = was; open[o] = l[o]->is_open(); xs_check(open[o] ? n - was == 1 : true, "the source holds nothing, or what the target held"); } break;
      case 4: if (!l[k]) break; { bool was = open[k]; Lib m(std::move(*l[k])); xs_check(m.is_open() == was && !l[k]->is_open(), "move construction takes the library"); xs_check(live() == open[0] + open[1], "moving neither opens nor closes"); open[k] = false; } break;
      case 5: l[k].reset(); open[k] = false; break;
      case 6: if (l[k]) break; l[k].emplace("c"); open[k] = true; xs_check(!strcmp(last, "c"), "the library asked for is opened"); break;
      }
      check(l, open);
    } }
  xs_check(!bad && live() == 0 && opened == closed, "every opened library is closed exactly once"); xs_check(!other_mode, "libraries are opened with every symbol resolved and none of their symbols offered to other libraries"); if (opened) xs_reach("opened");
}
XS_ENTRY(e_ops) { ops(QT(3, 4)); }
struct Str { char b[5]; int n; Str(int n, const char *what) : n(n) { for (auto &c : b) { c = (char)xs_u8(what); } for (int i = 0; i < n; i++) xs_assume(b[i] != 0); } operator std::string_view() const { return {b, (size_t)n}; } bool is(const char *s) const { for (int i = 0; i < n; i++) if (s[i] != b[i]) return false; return s[n] == 0; } };
XS_ENTRY(e_names) { reset(); int ln = xs_choice(1, 4, "length"); Str n(ln, "n"), s(ln, "s"); { Lib a(n); xs_check(n.is(last), "the file name is the view, and nothing beyond it"); xs_check(a.is_open(), "open"); a.open(s); xs_check(s.is(last) && opened == 2 && closed == 1, "reopening closes the previous library"); void *p = a.proc_address<void *>(n); xs_check(n.is(lastsym) && symhandle == &tags[1], "the symbol is looked up by the whole name in this library"); xs_check(p == (n.b[0] == '0' ? nullptr : (void *)&marker), "the address found is returned"); using F = int (*)(int); F f = a.proc_address<F>(s); xs_check(f == (s.b[0] == '0' ? nullptr : (F)(void *)&marker), "the address found is returned as the requested type"); int *q = a.proc_address<int *>("x"); xs_check(q == &marker, "the address found is returned as the requested type"); } xs_check(!bad && live() == 0, "closed"); }
XS_ENTRY(e_self_move) { reset(); { Lib a("a"); Lib &r = a; a = std::move(r); xs_check(live() == (a.is_open() ? 1 : 0), "self-move loses no library"); } xs_check(!bad && live() == 0, "every opened library is closed exactly once"); }
XS_ENTRY(e_traits) { static_assert(!std::is_copy_constructible_v<Lib> && !std::is_copy_assignable_v<Lib> && std::is_nothrow_move_constructible_v<Lib>); reset(); { Lib a; xs_check(!a.is_open(), "a default constructed object holds nothing"); a.close(); a.close(); } xs_check(!bad && opened == 0 && closed == 0, "closing nothing does nothing"); }
XS_ENTRY(e_very_long) { static const int ns[] = {70, 300, 5000}; int nl = ns[xs_choice(0, 2, "length")]; static char n[5000]; for (int i = 0; i < nl; i++) n[i] = 'A' + i % 23; char x = (char)xs_u8("end"); xs_assume(x != 0); n[nl - 1] = x; std::string_view name(n, nl); reset(); { Lib a(name); xs_check(std::string_view(last) == name, "the whole file name"); xs_check(a.proc_address<void *>(name) == &marker && std::string_view(lastsym) == name, "the whole symbol name"); a.open(name.substr(1)); xs_check(std::string_view(last) == name.substr(1), "the whole file name"); } xs_check(!bad && live() == 0, "closed"); xs_reach("long"); }
// an object that holds no library finds nothing: the loader would search the whole program for a null handle
XS_ENTRY(e_none) { reset(); { Lib a; int how = xs_choice(0, 4, "how"); switch (how) { case 0: break; case 1: fail_next = true; a.open("a"); break; case 2: a.open("a"); a.close(); break; case 3: { a.open("a"); Lib b(std::move(a)); break; } case 4: { fail_next = true; Lib b("b"); a = std::move(b); break; } } xs_check(!a.is_open(), "nothing is held"); xs_check(a.proc_address<void *>("malloc") == nullptr, "no library, no symbol"); using F = int (*)(int); xs_check(a.proc_address<F>("abs") == nullptr, "no library, no symbol"); a.open("c"); xs_check(a.proc_address<void *>("f") == &marker, "found once a library is held"); } xs_check(!bad && live() == 0, "closed"); }
// the loader gives one handle to everyone who opens the same library: each opening is closed once
XS_ENTRY(e_shared) { reset(); shared = true; int n = 0; { Lib l[2]; char held[2] = {}; const char *names[] = {"a", "b"};
    for (int i = 0; i < QT(3, 4); i++) { int k = xs_choice(0, 1, "object"); switch (xs_choice(0, 4, "op")) {
      case 0: case 1: { int w = xs_choice(0, 1, "name"); l[k].open(names[w]); held[k] = names[w][0]; break; }
      case 2: l[k].close(); held[k] = 0; break;
      case 3: { l[k] = std::move(l[1 - k]); char was = held[1 - k]; if (l[1 - k].is_open()) { xs_check(held[k] != 0, "the source holds nothing, or what the target held"); held[1 - k] = held[k]; } else held[1 - k] = 0; held[k] = was; break; }
      default: { Lib m(std::move(l[k])); Lib x("a"); xs_check(x.is_open() && !l[k].is_open(), "moved"); l[k] = std::move(m); } }
      n = 0; for (int j = 0; j < 2; j++) { xs_check(l[j].is_open() == (held[j] != 0), "is_open tells whether the object holds a library"); n += held[j] != 0; if (held[j]) { (void)l[j].proc_address<void *>("f"); long at = (char *)symhandle - tags; xs_check(at >= 0 && at < opened && firsts[at] == held[j], "looked up in the library held"); } } xs_check(!bad && live() == n, "every opening is closed exactly once"); } } xs_check(!bad && live() == 0, "every opening is closed exactly once"); xs_reach("shared"); }
