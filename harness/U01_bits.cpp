// @configs none, gnu
// @bounds every value of every unsigned type of 8, 16, 32, 64 and 128 bits (the last as an unsigned type of the GNU dialect)
#include "track.hpp"
#include <xme/core/bit/has_single_bit.hpp>
#include <xme/core/utility/to_unsigned.hpp>
template <typename T> static void one(T n) { int bits = 0; for (int i = 0; i < (int)sizeof(T) * 8; i++) bits += (n >> i) & 1; bool r = xme::has_single_bit(n); xs_check(r == (bits == 1), "true exactly for powers of two"); xs_obs_u64("r", r); }
XS_ENTRY(e_u8) { one<uint8_t>(xs_u8("n")); } XS_ENTRY(e_u16) { one<uint16_t>(xs_u16("n")); } XS_ENTRY(e_u32) { one<uint32_t>(xs_u32("n")); } XS_ENTRY(e_u64) { one<uint64_t>(xs_u64("n")); } XS_ENTRY(e_ull) { one<unsigned long long>(xs_u64("n")); } XS_ENTRY(e_char8) { bool z = xme::has_single_bit((unsigned char)0); xs_check(!z, "zero has no bit"); }
XS_ENTRY(e_to_unsigned) {
  auto a = xme::to_unsigned((int8_t)xs_u8("a")); static_assert(std::is_same_v<decltype(a), uint8_t>); xs_obs_u64("a", a); uint8_t b = xs_u8("b"); xs_check(xme::to_unsigned((int8_t)b) == b && xme::to_unsigned(b) == b, "8 bit"); uint16_t c = xs_u16("c"); xs_check(xme::to_unsigned((int16_t)c) == c && xme::to_unsigned(c) == c, "16 bit"); uint32_t d = xs_u32("d"); xs_check(xme::to_unsigned((int32_t)d) == d && xme::to_unsigned(d) == d, "32 bit"); uint64_t e = xs_u64("e"); xs_check(xme::to_unsigned((int64_t)e) == e && xme::to_unsigned(e) == e, "64 bit"); static_assert(std::is_same_v<decltype(xme::to_unsigned(0LL)), unsigned long long>); unsigned __int128 w = ((unsigned __int128)e << 64) | xs_u64("f"); xs_check(xme::to_unsigned((__int128)w) == w && xme::to_unsigned(w) == w, "128 bit"); static_assert(std::is_same_v<decltype(xme::to_unsigned((__int128)0)), unsigned __int128>);
}
#ifndef __STRICT_ANSI__
XS_ENTRY(e_u128) { static_assert(std::is_unsigned_v<unsigned __int128>); uint64_t h = xs_u64("high"); unsigned __int128 n = (unsigned __int128)h << 64 | xs_u64("low"); bool power = false; for (int i = 0; i < 128; i++) power |= n == (unsigned __int128)1 << i; bool r = xme::has_single_bit(n); xs_check(r == power, "true exactly for powers of two"); }
#endif
// character types, enumerations and the type of a truth value
template <typename T, typename U, typename B> static void kept(B bits) { auto r = xme::to_unsigned((T)bits); static_assert(std::is_same_v<decltype(r), U> && sizeof(U) == sizeof(T)); xs_check(r == (U)bits, "the value modulo 2^N"); const T c = (T)bits; xs_check(xme::to_unsigned(c) == (U)bits, "of a constant"); }
enum E16 : int16_t { e16 = -1 }; enum class E64 : uint64_t { a };
XS_ENTRY(e_kinds) {
  uint8_t a = xs_u8("a"); uint16_t b = xs_u16("b"); uint32_t c = xs_u32("c"); uint64_t d = xs_u64("d"); kept<char, unsigned char>(a); kept<signed char, unsigned char>(a); kept<short, unsigned short>(b); kept<int, unsigned>(c); kept<long, unsigned long>(d); kept<long long, unsigned long long>(d); kept<unsigned long long, unsigned long long>(d); kept<wchar_t, std::make_unsigned_t<wchar_t>>(c); kept<char16_t, std::make_unsigned_t<char16_t>>(b); kept<char32_t, std::make_unsigned_t<char32_t>>(c); kept<char8_t, unsigned char>(a); kept<E16, std::make_unsigned_t<E16>>(b); kept<E64, std::make_unsigned_t<E64>>(d);
  one<char16_t>(b); one<char32_t>(c); one<char8_t>(a); bool t = a & 1; xs_check(xme::has_single_bit(t) == t, "true has one bit and false none"); const uint32_t k = c; xs_check(xme::has_single_bit(k) == xme::has_single_bit(c), "of a constant");
}
