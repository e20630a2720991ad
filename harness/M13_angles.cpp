// @bounds every angle in +-1e6 (float, double and long double) as a real number; the constants used by the conversions and all published constants in float, double and long double
#include "mathx.hpp"
#include <numbers>
using namespace mx;
template <typename T> static bool rel(T a, T b, T eps) { T d = a - b, m = b < 0 ? -b : b; return d <= eps * m && -d <= eps * m; }
template <typename T> static void ang() {
  T x = real<T>("x", -1e6, 1e6); const T eps = sizeof(T) == 4 ? T(1e-6) : sizeof(T) == 8 ? T(1e-14) : T(1e-19L), third = T(180); T r = radians(x), d = degrees(x); const T pi = T(3.14159265358979323846L); T ax = x < 0 ? -x : x;
  T e = r * third - x * pi; xs_check(e <= eps * ax * 600 && -e <= eps * ax * 600, "radians(x) is x * pi / 180"); e = d * pi - x * third; xs_check(e <= eps * ax * 600 && -e <= eps * ax * 600, "degrees(x) is x * 180 / pi"); e = degrees(radians(x)) - x; xs_check(e <= eps * ax * 4 && -e <= eps * ax * 4, "degrees inverts radians"); e = radians(degrees(x)) - x; xs_check(e <= eps * ax * 4 && -e <= eps * ax * 4, "radians inverts degrees"); xs_obs_f("r", r); xs_obs_f("d", d); static_assert(std::is_same_v<decltype(radians(x)), T> && std::is_same_v<decltype(degrees(x)), T>);
}
XS_ENTRY(e_angles_f) { ang<float>(); } XS_ENTRY(e_angles_d) { ang<double>(); } XS_ENTRY(e_angles_ld) { ang<long double>(); }
// The published constants, decided by their defining relations over exact arithmetic on the values of the type.
#define K(c, v) xs_check(rel<double>(c##_v<double>, v, 4e-16) && rel<float>(c##_v<float>, (float)v, 1.2e-7f) && rel<long double>(c##_v<long double>, v##L, 2.2e-19L) && c == c##_v<double>, #c)
XS_ENTRY(e_constants) {
  K(e, 2.71828182845904523536028747135266249775724709369995957496697); K(e_sqr, 7.38905609893065022723042746057500781318031557055184732408713); K(e_pow_pi, 23.1406926327792690057290863679485473802661062426002119934450); K(pi, 3.14159265358979323846264338327950288419716939937510582097494); K(two_pi, 6.28318530717958647692528676655900576839433879875021164194989); K(two_over_pi, 0.636619772367581343075535053490057448137838582961825794990669); K(pi_over_two, 1.57079632679489661923132169163975144209858469968755291048747); K(pi_sqr, 9.86960440108935861883449099987615113531369940724079062641335); K(inv_pi, 0.318309886183790671537767526745028724068919291480912897495335); K(tau, 6.28318530717958647692528676655900576839433879875021164194989);
  K(log2_e, 1.44269504088896340735992468100189213742664595415298593413545); K(log10_e, 0.434294481903251827651128918916605082294397005803666566114454); K(ln_two, 0.693147180559945309417232121458176568075500134360255254120680); K(ln_ten, 2.30258509299404568401799145468436420760110148862877297603333); K(sqrt_two, 1.41421356237309504880168872420969807856967187537694807317668); K(sqrt_three, 1.73205080756887729352744634150587236694280525381038062805581); K(sqrt_five, 2.23606797749978969640917366873127623544061835961152572427090); K(sqrt_e, 1.64872127070012814684865078781416357165377610071014801157508); K(sqrt_pi, 1.77245385090551602729816748334114518279754945612238712821381); K(sqrt_two_pi, 2.50662827463100050241576528481104525300698674060993831662992); K(sqrt_two_pi_e, 4.13273135412249293846939188429985264944552191699130841206); K(inv_sqrt_pi, 0.564189583547756286948079451560772585844050629328998856844086); K(cbrt_two, 1.25992104989487316476721060727822835057025146470150798008198);
  K(inv_fibonacci, 3.35988566624317755317201130291892717968890513373196848649555); K(phi, 1.61803398874989484820458683436563811772030917980576286213545); K(catalan, 0.915965594177219015054603514932384110774149374281672134266498); K(euler, 0.577215664901532860606512090082402431042159335939923598805767); K(gauss, 0.834626841674073186281429732799046808993993013490347002449827); K(plastic, 1.32471795724474602596090885447809734073440405690173336453402); K(zeta_two, 1.64493406684822643647241516664602518921894990120679843773556); K(zeta_three, 1.20205690315959428539973816151144999076498629234049888179227); K(zeta_four, 1.08232323371113819151600369654116790277475095191872690768298);
}
