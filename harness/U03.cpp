// @SOURCES: ecl_type_traits/src/lib/numeric_limits.cpp
// @BUILDS: release
// @FLAGS: -std=c++17
// @ASSUME: every character, integer and floating type of the language and non-arithmetic ones as the negative cases, on this platform's sizes;; oracle: the standard library's type traits and numeric limits
// @BUDGET: 60 120
#include "util.hpp"
#include <type_traits>
#include <limits>
#include <string>
#include <ecl/type_traits/fundamental_types.hpp>
#include <ecl/type_traits/numeric_limits.hpp>
#include <ecl/mpl/bool.hpp>
#include <ecl/mpl/if.hpp>
#include <ecl/mpl/enable_if.hpp>
#include <ecl/mpl/converters.hpp>
namespace {
struct Plain { int x; }; enum Enum { e0 }; enum class Scoped : char { s0 }; union Uni { int i; char c; };
template <class T> const char* tn() { return __PRETTY_FUNCTION__; }
// which members a class template instance provides, so that a missing one is a finding rather than a build failure
template <class T, class = void> struct has_type : std::false_type { typedef void type; }; template <class T> struct has_type<T, std::void_t<typename T::type>> : std::true_type { typedef typename T::type type; };
#define MEMBER(m) template <class T, class = void> struct has_##m : std::false_type {}; template <class T> struct has_##m<T, std::void_t<decltype(T::m)>> : std::true_type {};
MEMBER(bits) MEMBER(bytes) MEMBER(minimum) MEMBER(maximum) MEMBER(one) MEMBER(dummy_precision)
template <class T> void traits(bool arithmetic) {   // bool and the wide character types are outside what the traits cover
  typedef typename std::remove_cv<T>::type U; mc::trace("%s", tn<T>()); mc::step(8); mc::validated(8);
  auto same = [&](bool got, bool want, const char* what) { MC_CHECK(got == want, what, "%s: %s is %d, the language says %d", tn<T>(), what, got, want); };
  bool byte = std::is_same<U, char>::value || std::is_same<U, signed char>::value || std::is_same<U, unsigned char>::value;
  same(ecl::is_integral<T>::value, arithmetic && std::is_integral<T>::value, "is_integral"); same(ecl::is_signed<T>::value, arithmetic && std::is_integral<T>::value && std::is_signed<T>::value, "is_signed"); same(ecl::is_unsigned<T>::value, arithmetic && std::is_unsigned<T>::value, "is_unsigned");
  same(ecl::is_float<T>::value, std::is_floating_point<T>::value, "is_float"); same(ecl::is_byte<T>::value, byte, "is_byte"); same(ecl::is_signed_byte<T>::value, byte && std::is_signed<T>::value, "is_signed_byte"); same(ecl::is_unsigned_byte<T>::value, byte && std::is_unsigned<T>::value, "is_unsigned_byte");
  same(bool(ecl::is_integral<T>()), ecl::is_integral<T>::value, "bool()"); same(bool(ecl::is_float<T>()), ecl::is_float<T>::value, "bool()"); same(std::is_same<typename has_type<ecl::is_integral<T>>::type, ecl::Bool<ecl::is_integral<T>::value>>::value, true, "Bool::type");
}
template <class T, class L> void common(const char* n) {
  MC_CHECK(has_bits<L>::value && has_bytes<L>::value && has_minimum<L>::value && has_maximum<L>::value && has_dummy_precision<L>::value, "members", "numeric_limits<%s> misses a member", n);
  if constexpr (has_bits<L>::value && has_bytes<L>::value) { MC_CHECK(L::bits == sizeof(T) * 8, "bits", "numeric_limits<%s>::bits is %d", n, (int)L::bits); MC_CHECK(L::bytes == sizeof(T), "bytes", "numeric_limits<%s>::bytes is %d", n, (int)L::bytes); }
  if constexpr (has_minimum<L>::value && has_maximum<L>::value) {
    MC_CHECK((std::is_same<typename std::remove_cv<decltype(L::minimum)>::type, T>::value && std::is_same<typename std::remove_cv<decltype(L::maximum)>::type, T>::value), "type", "numeric_limits<%s> extremes have another type", n);
    MC_CHECK(L::minimum == std::numeric_limits<T>::lowest(), "minimum", "numeric_limits<%s>::minimum is %Lg", n, (long double)L::minimum); MC_CHECK(L::maximum == std::numeric_limits<T>::max(), "maximum", "numeric_limits<%s>::maximum is %Lg", n, (long double)L::maximum);
    const T* lo = &L::minimum; const T* hi = &L::maximum; MC_CHECK(*lo == std::numeric_limits<T>::lowest() && *hi == std::numeric_limits<T>::max(), "object", "the stored limits of %s differ", n); }
  MC_CHECK(L::max() == std::numeric_limits<T>::max() && L::min() == std::numeric_limits<T>::min() && L::digits == std::numeric_limits<T>::digits && L::is_signed == std::numeric_limits<T>::is_signed && L::is_integer == std::numeric_limits<T>::is_integer, "std", "numeric_limits<%s> differs from the standard limits", n);
  mc::step(6); mc::validated(6);
}
template <class T> void integer(const char* n) {
  typedef ecl::numeric_limits<T> L; common<T, L>(n); MC_CHECK(has_one<L>::value, "members", "numeric_limits<%s> misses one", n); if constexpr (has_one<L>::value) { const T* o = &L::one; MC_CHECK(L::one == T(1) && *o == T(1), "one", "numeric_limits<%s>::one is %Lg", n, (long double)L::one); }
  typedef has_type<ecl::Unsigned<T>> Un; MC_CHECK(Un::value && (std::is_same<typename Un::type, typename std::make_unsigned<T>::type>::value), "Unsigned", "Unsigned<%s> selects another type", n);
}
template <class T> void floating(const char* n) {
  typedef ecl::numeric_limits<T> L; common<T, L>(n); MC_CHECK((std::is_same<typename L::Precision, T>::value), "Precision", "numeric_limits<%s>::Precision is another type", n);
  const T* p = &L::dummy_precision; MC_CHECK(*p > 0 && *p < T(1e-3) && *p > std::numeric_limits<T>::epsilon(), "dummy_precision", "numeric_limits<%s>::dummy_precision is %Lg", n, (long double)*p);   // above the rounding unit, or a fuzzy comparison would be an exact one
  MC_CHECK(!has_type<ecl::Unsigned<T>>::value, "Unsigned", "Unsigned<%s> exists", n);
}
template <class T> void all(int cv, bool arithmetic) { switch (cv) { case 0: traits<T>(arithmetic); break; case 1: traits<T*>(false); break; case 2: traits<T&>(false); break; case 3: traits<T[3]>(false); break; case 4: traits<T (*)(T)>(false); break; } }
}
MC_SCENARIO(fundamental) {
  int cv = mc::choose(5);
  switch (mc::choose(21)) {
    case 0: all<char>(cv, true); break; case 1: all<signed char>(cv, true); break; case 2: all<unsigned char>(cv, true); break; case 3: all<short>(cv, true); break; case 4: all<unsigned short>(cv, true); break; case 5: all<int>(cv, true); break; case 6: all<unsigned>(cv, true); break;
    case 7: all<long>(cv, true); break; case 8: all<unsigned long>(cv, true); break; case 9: all<long long>(cv, true); break; case 10: all<unsigned long long>(cv, true); break; case 11: all<float>(cv, true); break; case 12: all<double>(cv, true); break; case 13: all<long double>(cv, true); break;
    case 14: all<Plain>(cv, false); break; case 15: all<Enum>(cv, false); break; case 16: all<Scoped>(cv, false); break; case 17: all<Uni>(cv, false); break; case 18: all<std::string>(cv, false); break; case 19: traits<void>(false); traits<std::nullptr_t>(false); break; case 20: traits<ecl::True>(false); break; }
}
MC_SCENARIO(limits) {
  switch (mc::choose(13)) { case 0: integer<char>("char"); break; case 1: integer<unsigned char>("unsigned char"); break; case 2: integer<short>("short"); break; case 3: integer<unsigned short>("unsigned short"); break; case 4: integer<int>("int"); break; case 5: integer<unsigned>("unsigned"); break; case 6: integer<long>("long"); break; case 7: integer<unsigned long>("unsigned long"); break; case 8: integer<long long>("long long"); break; case 9: integer<unsigned long long>("unsigned long long"); break; case 10: floating<float>("float"); break; case 11: floating<double>("double"); break; case 12: floating<long double>("long double"); break; }
}
namespace {
struct NoValue {}; template <class C> int chosen(typename ecl::enable_if<C>::type* = 0) { return 1; } template <class C> int chosen(typename ecl::enable_if<ecl::Bool<!C::value>>::type* = 0) { return 2; }
template <bool B, class X, class Y> void selectors() {
  mc::step(5); mc::validated(5); MC_CHECK((std::is_same<typename ecl::if_c<B, X, Y>::type, typename std::conditional<B, X, Y>::type>::value), "if_c", "if_c<%d> selects the wrong alternative", B);
  MC_CHECK((has_type<ecl::enable_if_c<B, X>>::value == B), "enable_if_c", "enable_if_c<%d> provides a type: %d", B, (int)has_type<ecl::enable_if_c<B, X>>::value); MC_CHECK((has_type<ecl::enable_if<ecl::Bool<B>, X>>::value == B), "enable_if", "enable_if<%d> provides a type: %d", B, (int)has_type<ecl::enable_if<ecl::Bool<B>, X>>::value);
  if (B) { MC_CHECK((std::is_same<typename has_type<ecl::enable_if_c<B, X>>::type, X>::value && std::is_same<typename has_type<ecl::enable_if<ecl::Bool<B>, X>>::type, X>::value), "enable_if", "enable_if gives another type"); MC_CHECK((std::is_same<typename has_type<ecl::enable_if_c<B>>::type, void>::value), "enable_if_c", "the default type is not void"); }
  MC_CHECK(ecl::Bool<B>::value == B && bool(ecl::Bool<B>()) == B && (std::is_same<typename ecl::Bool<B>::type, ecl::Bool<B>>::value) && (std::is_same<typename ecl::Bool<B>::value_type, bool>::value), "Bool", "Bool<%d> is wrong", B);
  MC_CHECK(chosen<ecl::Bool<B>>() == (B ? 1 : 2), "overload", "enable_if selects overload %d", chosen<ecl::Bool<B>>());
}
}
MC_SCENARIO(selection) {
  MC_CHECK(ecl::True::value && !ecl::False::value, "Bool", "True and False are %d and %d", ecl::True::value, ecl::False::value);
  switch (mc::choose(6)) { case 0: selectors<true, int, char>(); break; case 1: selectors<false, int, char>(); break; case 2: selectors<true, Plain, Plain*>(); break; case 3: selectors<false, Plain, Plain*>(); break; case 4: selectors<true, const int&, ecl::True>(); break; case 5: selectors<false, const int&, ecl::True>(); break; }
}
