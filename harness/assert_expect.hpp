// assert() of the code under test as an observable outcome: EXPECT_REJECT(cond) tells the harness whether the next call
// must be refused by its precondition assertion.
#pragma once
#include "xs.h"
namespace hx {
struct Reject {
  bool b = false; operator bool() const { return b; }
  // without assertions such a request has no defined outcome: the path ends before it is made
  Reject &operator=(bool x) { b = x;
#ifdef NDEBUG
    if (x) { xs_reach("outside the precondition"); xs_stop_path(); }
#endif
    return *this; }
};
inline Reject reject_expected;
}
extern "C" [[noreturn]] void __assert_fail(const char *, const char *, unsigned, const char *) noexcept {
  xs_check(hx::reject_expected, "a request inside the bounds is not rejected");
  xs_reach("rejected");
  xs_stop_path();
  __builtin_unreachable();
}
