// Scalar arithmetic operators (math/arithmetic.h, bitwise/bitwise.h, core/cast_operator.h, math/math.h)
// SX-SRCS:
#include <cmath>
#include <cstdint>
#include <limits>

#include "sx.h"
#include "arolla/qexpr/operators/bitwise/bitwise.h"
#include "arolla/qexpr/operators/core/cast_operator.h"
#include "arolla/qexpr/operators/math/arithmetic.h"
#include "arolla/qexpr/operators/math/math.h"

// Error message texts are outside the property.
namespace arolla {
ReprToken ReprTraits<bool>::operator()(const bool&) const { return ReprToken{"?"}; }
ReprToken ReprTraits<int32_t>::operator()(const int32_t&) const { return ReprToken{"?"}; }
ReprToken ReprTraits<int64_t>::operator()(const int64_t&) const { return ReprToken{"?"}; }
ReprToken ReprTraits<uint64_t>::operator()(const uint64_t&) const { return ReprToken{"?"}; }
ReprToken ReprTraits<float>::operator()(const float&) const { return ReprToken{"?"}; }
ReprToken ReprTraits<double>::operator()(const double&) const { return ReprToken{"?"}; }
}  // namespace arolla

namespace {
using namespace arolla;

// Ring operations modulo 2^n, whatever the operands: no undefined behaviour, result = low bits.
template <class T, class W>
void Wrap() {
  T a = sx<T>("a"), b = sx<T>("b"), c = sx<T>("c");
  using U = std::make_unsigned_t<T>;
  auto low = [](W x) { return (T)(U)x; };
  sx_assert(AddOp()(a, b) == low((W)a + (W)b));
  sx_assert(AddOp()(a) == a);
  sx_assert(AddOp()(a, b, c) == low((W)a + (W)b + (W)c));
  sx_assert(SubtractOp()(a, b) == low((W)a - (W)b));
  sx_assert(NegOp()(a) == low(-(W)a));
  sx_assert(PosOp()(a) == a);
  sx_assert(AbsOp()(a) == (a < 0 ? low(-(W)a) : a));
  sx_assert(MaxOp()(a, b) == (a < b ? b : a));
  sx_assert(MinOp()(a, b) == (a < b ? a : b));
  sx_assert(BitwiseAndOp()(a, b) == (T)(a & b)); sx_assert(BitwiseOrOp()(a, b) == (T)(a | b));
  sx_assert(BitwiseXorOp()(a, b) == (T)((a | b) & ~(a & b))); sx_assert(InvertOp()(a) == (T)(-1 - a));
  sx_obs(AddOp()(a, b)); sx_obs(SubtractOp()(a, b)); sx_obs(AbsOp()(a));
}
template <class T>
void Mul() {
  T a = sx<T>("a"), b = sx<T>("b");
  using U = std::make_unsigned_t<T>;
  T r = MultiplyOp()(a, b);
  sx_assert(r == (T)((U)a * (U)b));
  sx_obs(r);
}
// Quotient rounded towards minus infinity; remainder has the divisor's sign; q*b + m == a.
template <class T>
void DivMod(T a, T b) {
  auto q = FloorDivOp()(a, b);
  auto m = ModOp()(a, b);
  sx_assert(q.ok() == (b != 0)); sx_assert(m.ok() == (b != 0));
  if (b == 0) { sx_reach("division by zero"); sx_assert(q.status().code() == absl::StatusCode::kInvalidArgument && m.status().code() == absl::StatusCode::kInvalidArgument); return; }
  constexpr T kMin = std::numeric_limits<T>::min();
  sx_obs(*q); sx_obs(*m);
  if (std::is_signed_v<T> && a == kMin && b == (T)-1) { sx_reach("overflow"); sx_assert(*m == 0); return; }
  T t = a / b, r = a % b;
  bool adj = r != 0 && (r < 0) != (b < 0);
  sx_assert(*q == (T)(t - (adj ? 1 : 0)));
  sx_assert(*m == (T)(r + (adj ? b : 0)));
  if (adj) sx_reach("rounded down");
}
template <class T>
void DivModLaw() {
  T a = sx<T>("a"), b = sx<T>("b");
  sx_assume(b != 0);
  auto q = FloorDivOp()(a, b);
  auto m = ModOp()(a, b);
  if (std::is_signed_v<T> && a == std::numeric_limits<T>::min() && b == (T)-1) return;
  int64_t Q = *q, M = *m, A = a, B = b;
  sx_assert(Q * B + M == A);
  sx_assert(B > 0 ? (M >= 0) & (M < B) : (M <= 0) & (M > B));
}
template <class T>
void Count() {
  T a = sx_pick("rest", -1, 0);  // all ones or all zeros around 16 arbitrary bits anywhere
  int at = 8 * sx_pick("at", 0, sizeof(T) - 2);
  a = (T)((a & ~((T)0xffff << at)) | ((T)sx<uint16_t>("bits") << at));
  int n = 0;
  for (int i = 0; i < (int)sizeof(T) * 8; ++i) n += (a >> i) & 1;
  sx_assert(BitwiseCountOp()(a) == n);
  sx_obs(BitwiseCountOp()(a));
}
template <class T>
void Int1() {
  T a = sx<T>("a");
  sx_assert(SignOp()(a) == (a > 0 ? 1 : a < 0 ? -1 : 0));
  sx_assert(ToBoolOp()(a) == (a != 0));
  sx_obs(SignOp()(a));
}

template <class T>
bool neg(T x) { return std::signbit(x); }
template <class T>
void Float() {
  T a = sx<T>("a"), b = sx<T>("b"), c = sx<T>("c");
  const T inf = std::numeric_limits<T>::infinity();
  bool na = a != a, nb = b != b;
  sx_assert(sx_same(AddOp()(a, b), a + b)); sx_assert(sx_same(AddOp()(a, b, c), (a + b) + c));
  sx_assert(sx_same(SubtractOp()(a, b), a - b)); sx_assert(sx_same(MultiplyOp()(a, b), a * b)); sx_assert(sx_same(DivideOp()(a, b), a / b));
  sx_assert(sx_same(NegOp()(a), -a)); sx_assert(sx_same(PosOp()(a), a));
  { T r = AbsOp()(a); sx_assert(na ? r != r : !neg(r) && (r == a || r == -a)); }
  { T r = SignOp()(a); sx_assert(na ? r != r : r == (a > 0 ? 1 : a < 0 ? -1 : 0)); }
  // min and max: NaN if either is NaN, else one of the two, not beaten by the other
  { T r = MaxOp()(a, b); sx_assert(na || nb ? r != r : (sx_same(r, a) || sx_same(r, b)) && r >= a && r >= b); }
  { T r = MinOp()(a, b); sx_assert(na || nb ? r != r : (sx_same(r, a) || sx_same(r, b)) && r <= a && r <= b); }
  sx_assert(IsNanOp()(a).present == na);
  sx_assert(IsInfOp()(a).present == (a == inf || a == -inf));
  sx_assert(IsFiniteOp()(a).present == (!na && a != inf && a != -inf));
  sx_assert(ToBoolOp()(a) == !(a == 0));
  sx_assert(sx_same(FmodOp()(a, b), (T)std::fmod(a, b)));
  if (na) sx_reach("NaN");
}
template <class T>
void Rounding() {
  T a = sx<T>("a");
  T f = FloorOp()(a), c = CeilOp()(a), r = RoundOp()(a);
  sx_obs(f); sx_obs(c); sx_obs(r);
  sx_assert(sx_same(f, std::floor(a))); sx_assert(sx_same(c, std::ceil(a)));
  if (a != a) { sx_assert(f != f && c != c && r != r); return; }
  sx_assert(f <= a && a <= c); sx_assert(c - f == 0 || c - f == 1 || !(a - a == 0));
  sx_assert(sx_same(f, c) == sx_same(f, a) || a == 0 || (a < 0 && a > -1));
  // half away from zero
  sx_assert(sx_same(r, std::round(a))); sx_assert(r == f || r == c);
  if constexpr (sizeof(T) == 4) if (a - a == 0) { T d = std::fabs(a - r); sx_assert(d <= (T)0.5); if (d == (T)0.5) { sx_reach("tie"); sx_assert(std::fabs(r) > std::fabs(a)); } }
}
template <class T>
void FloatDivMod(T a, T b) {
  const T inf = std::numeric_limits<T>::infinity();
  auto q = FloorDivOp()(a, b);
  auto m = ModOp()(a, b);
  sx_assert(q.ok() == !(b == 0)); sx_assert(m.ok() == !(b == 0));
  if (!q.ok()) { sx_reach("division by zero"); return; }
  sx_obs(*q); sx_obs(*m);
  T d = a / b;
  bool fin = d - d == 0;
  if (!fin) { sx_reach("undefined"); sx_assert(*q != *q && *m != *m); return; }
  if (d != 0) {
    sx_reach("regular");
    sx_assert(sx_same(*q, (T)std::floor(d)));
    sx_assert(sx_same(*m, (T)std::copysign((T)(a - std::floor(d) * b), b)));
  } else if (a == 0) {
    sx_reach("zero dividend");
    sx_assert(*q == 0); sx_assert(*m == 0);
  } else {  // the quotient underflowed: floor of a tiny number
    sx_reach("underflow");
    bool same = (a > 0) == (b > 0);
    sx_assert(*q == (same ? 0 : -1));
    sx_assert(same ? *m == a : *m == (b > 0 ? inf : -inf));
  }
  if (*m == *m) sx_assert(neg(*m) == neg(b));  // the remainder has the divisor's sign
}
}  // namespace

SX_ENTRY(wrap_i32) { Wrap<int32_t, int64_t>(); }
SX_ENTRY(wrap_i64) { Wrap<int64_t, __int128>(); }
SX_ENTRY(mul_i32) { Mul<int32_t>(); }
SX_ENTRY(mul_i64) { Mul<int64_t>(); }
SX_ENTRY(unsigned_u64) {
  uint64_t a = sx<uint64_t>("a"), b = sx<uint64_t>("b");
  sx_assert(AddOp()(a, b) == a + b); sx_assert(SubtractOp()(a, b) == a - b); sx_assert(AbsOp()(a) == a);
  sx_assert(MaxOp()(a, b) == (a < b ? b : a)); sx_assert(MinOp()(a, b) == (a < b ? a : b));
  auto q = FloorDivOp()(a, b); auto m = ModOp()(a, b);
  sx_assert(q.ok() == (b != 0) && m.ok() == (b != 0));
  if (b) { sx_reach("divided"); sx_assert(*q == a / b && *m == a % b); }
}
SX_ENTRY(divmod_i32) { DivMod<int32_t>(sx<int32_t>("a"), sx<int32_t>("b")); }
SX_ENTRY(divmod_i64) {  // sx: shards=3 bound=dividends_within_2^13_and_divisors_within_8_of_0,_the_minimum_or_the_maximum
  constexpr int64_t kMin = std::numeric_limits<int64_t>::min(), kMax = std::numeric_limits<int64_t>::max();
  const int64_t base[] = {0, kMin, kMax};
  int64_t a = base[sx_shard(3)] ^ sx_range<int64_t>("da", -8192, 8191), b = base[sx_pick("bb", 0, 2)] ^ sx_pick("db", -8, 7);
  DivMod<int64_t>(a, b);
}
SX_ENTRY(divmod_law_i8) { DivModLaw<int8_t>(); }  // sx: bound=8-bit_instantiation_of_the_template
SX_ENTRY(count_i32) { Count<int32_t>(); }
SX_ENTRY(count_i64) { Count<int64_t>(); }
SX_ENTRY(sign_i32) { Int1<int32_t>(); }
SX_ENTRY(sign_i64) { Int1<int64_t>(); }
SX_ENTRY(float_f32) { Float<float>(); }
SX_ENTRY(float_f64) { Float<double>(); }
SX_ENTRY(rounding_f32) { Rounding<float>(); }
SX_ENTRY(rounding_f64) { Rounding<double>(); }
SX_ENTRY(float_divmod_f32) { FloatDivMod<float>(sx<float>("a"), sx<float>("b")); }
SX_ENTRY(float_divmod_f64) {  // sx: tier=thorough bound=9-bit_significands
  double a = sx<double>("a"), b = sx<double>("b");
  uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8);
  sx_assume(((x | y) << 20) == 0);
  FloatDivMod<double>(a, b);
}

// Casts: the exact value where the destination can hold it, an error where it cannot.
namespace {
template <class D, class S>
void CastInt() {
  S s = sx<S>("s");
  auto r = CastOp<D>()(s);
  __int128 v = s;
  bool fits = v >= (__int128)std::numeric_limits<D>::min() && v <= (__int128)std::numeric_limits<D>::max();
  if constexpr (std::is_same_v<decltype(r), D>) { sx_assert(fits && (__int128)r == v); }
  else {
    sx_assert(r.ok() == fits);
    if (r.ok()) { sx_reach("fits"); sx_assert((__int128)*r == v); sx_obs((uint64_t)*r); }
    else { sx_reach("does not fit"); sx_assert(r.status().code() == absl::StatusCode::kInvalidArgument); }
  }
}
// 2^n as S
template <class S> S p2(int n) { S r = 1; while (n-- > 0) r *= 2; return r; }
template <class D, class S>
void CastFloatInt() {
  S s = sx<S>("s");
  auto r = CastOp<D>()(s);
  static_assert(!std::is_same_v<decltype(r), D>);
  // The truncated value fits iff lo - 1 < s < hi, with hi a power of two. lo - 1 is rounded to S where S is coarser
  // than the integer: then the smallest value of D itself is the limit. Unsigned: negative fractions are rejected.
  constexpr int dig = std::numeric_limits<D>::digits;
  bool hi = s < p2<S>(dig);
  bool lo;
  if (!std::is_signed_v<D>) lo = s >= 0;
  else if (std::numeric_limits<S>::digits > dig) lo = s > -p2<S>(dig) - 1;
  else lo = s >= -p2<S>(dig);
  sx_assert(r.ok() == (hi && lo));
  if (r.ok()) { sx_reach("fits"); sx_assert(*r == (D)s); sx_obs((uint64_t)*r); }
  else { sx_reach("does not fit"); if (s != s) sx_reach("NaN"); sx_assert(r.status().code() == absl::StatusCode::kInvalidArgument); }
}
template <class D, class S>
void CastAny() {  // never fails, static_cast
  S s = sx<S>("s");
  auto r = CastOp<D>()(s);
  static_assert(std::is_same_v<decltype(r), D>);
  sx_assert(sx_same(r, static_cast<D>(s)));
  sx_obs(r);
}
}  // namespace
SX_ENTRY(cast_ints) {
  switch (sx_pick("which", 0, 7)) {
    case 0: CastInt<int32_t, int64_t>(); break; case 1: CastInt<int64_t, int32_t>(); break;
    case 2: CastInt<int32_t, uint64_t>(); break; case 3: CastInt<uint64_t, int32_t>(); break;
    case 4: CastInt<int64_t, uint64_t>(); break; case 5: CastInt<uint64_t, int64_t>(); break;
    case 6: CastInt<int32_t, bool>(); break; case 7: CastInt<uint64_t, bool>(); break;
  }
}
SX_ENTRY(cast_float_to_int) {
  switch (sx_pick("which", 0, 5)) {
    case 0: CastFloatInt<int32_t, float>(); break; case 1: CastFloatInt<int64_t, float>(); break; case 2: CastFloatInt<uint64_t, float>(); break;
    case 3: CastFloatInt<int32_t, double>(); break; case 4: CastFloatInt<int64_t, double>(); break; case 5: CastFloatInt<uint64_t, double>(); break;
  }
}
SX_ENTRY(cast_to_float) {
  switch (sx_pick("which", 0, 11)) {
    case 0: CastAny<float, int32_t>(); break; case 1: CastAny<float, int64_t>(); break; case 2: CastAny<float, uint64_t>(); break; case 3: CastAny<float, bool>(); break;
    case 4: CastAny<double, int32_t>(); break; case 5: CastAny<double, int64_t>(); break; case 6: CastAny<double, uint64_t>(); break; case 7: CastAny<double, bool>(); break;
    case 8: CastAny<float, double>(); break; case 9: CastAny<double, float>(); break; case 10: CastAny<float, float>(); break; case 11: CastAny<int64_t, int64_t>(); break;
  }
}
SX_ENTRY(optional_conversions) {
  int64_t v = sx<int64_t>("v"); bool p = sx<bool>("p");
  auto o = ToOptionalOp()(v);
  sx_assert(o.present && o.value == v);
  auto g = GetOptionalValueOp()(OptionalValue<int64_t>(p, v));
  sx_assert(g.ok() == p);
  if (g.ok()) { sx_reach("present"); sx_assert(*g == v); } else { sx_reach("missing"); sx_assert(g.status().code() == absl::StatusCode::kFailedPrecondition); }
}

// Elementary functions: each operator is the named libm function of its argument, composed as documented.
namespace {
template <class T>
void Elementary() {
  T x = sx<T>("x"), y = sx<T>("y"), z = sx<T>("z");
  auto eq = [](T a, T b) { return sx_same(a, b); };
  sx_assert(eq(LogOp()(x), std::log(x))); sx_assert(eq(Log2Op()(x), std::log2(x))); sx_assert(eq(Log10Op()(x), std::log10(x)));
  sx_assert(eq(Log1pOp()(x), std::log1p(x))); sx_assert(eq(ExpOp()(x), std::exp(x))); sx_assert(eq(Expm1Op()(x), std::expm1(x)));
  sx_assert(eq(SinOp()(x), std::sin(x))); sx_assert(eq(CosOp()(x), std::cos(x))); sx_assert(eq(SinhOp()(x), std::sinh(x))); sx_assert(eq(AtanOp()(x), std::atan(x)));
  sx_assert(eq(PowOp()(x, y), std::pow(x, y)));
  { T r = SqrtOp()(x); if (x != x || x < 0) sx_assert(r != r); else sx_assert(eq(r, std::sqrt(x))); }
  { T r = Symlog1pOp()(x); if (x < 0) sx_assert(eq(r, -std::log1p(-x))); else if (x >= 0) sx_assert(eq(r, std::log1p(x))); }
  { T r = LogSigmoidOp()(x); if (x < 0) sx_assert(eq(r, x - std::log1p(std::exp(x)))); else if (x >= 0) sx_assert(eq(r, -std::log1p(std::exp(-x)))); }
  sx_assert(eq(LogitOp()(x), std::log(x) - std::log1p(-x)));
  sx_assert(eq(SigmoidOp()(x, y, z), (T)1 / ((T)1 + std::exp(z * (y - x)))));
}
}  // namespace
SX_ENTRY(elementary_f32) { Elementary<float>(); }  // sx: bound=libm_uninterpreted
SX_ENTRY(elementary_f64) { Elementary<double>(); }  // sx: bound=libm_uninterpreted
