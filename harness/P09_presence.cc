// Comparison, presence and three-valued logic operators on optional scalars
// (bool/comparison.h, bool/logic.h, core/logic_operators.h, memory/optional_value.h).
#include <optional>
#include <string>

#include "sx.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/operators/bool/comparison.h"
#include "arolla/qexpr/operators/bool/logic.h"
#include "arolla/qexpr/operators/core/logic_operators.h"

namespace {
using namespace arolla;
using OB = OptionalValue<bool>;
template <class T> using O = OptionalValue<T>;
template <class T>
O<T> opt(const char* n) {
  O<T> r(sx<bool>(n), sx<T>("v"));
  return r;
}
template <> O<bool> opt<bool>(const char* n) { return O<bool>(sx<bool>(n), sx<bool>("v")); }
// 0 missing, 1 false, 2 true
int tri(const OB& x) { return x.present ? 1 + x.value : 0; }

template <class T> bool samev(const T& a, const T& b) { return sx_same(a, b); }
template <class T> bool same(const O<T>& a, const O<T>& b) { return a.present == b.present && (!a.present || samev(a.value, b.value)); }
bool same(const OptionalUnit& a, const OptionalUnit& b) { return a.present == b.present; }

template <class T>
void Compare() {
  T a = sx<T>("a"), b = sx<T>("b");
  bool nan = a != a || b != b;
  bool lt = a < b, gt = b < a;
  bool eq = !nan && !lt && !gt;
  sx_assert(EqualOp()(a, b) == eq); sx_assert(NotEqualOp()(a, b) == !eq);
  sx_assert(LessOp()(a, b) == lt); sx_assert(LessEqualOp()(a, b) == (lt || eq));
  sx_assert(MaskEqualOp()(a, b).present == eq); sx_assert(MaskNotEqualOp()(a, b).present == !eq);
  sx_assert(MaskLessOp()(a, b).present == lt); sx_assert(MaskLessEqualOp()(a, b).present == (lt || eq));
  if (nan) sx_reach("NaN");
  sx_obs(LessEqualOp()(a, b));
}
}  // namespace

SX_ENTRY(compare) {
  switch (sx_pick("type", 0, 5)) {
    case 0: Compare<int32_t>(); break; case 1: Compare<int64_t>(); break; case 2: Compare<uint64_t>(); break;
    case 3: Compare<float>(); break; case 4: Compare<double>(); break; case 5: Compare<bool>(); break;
  }
}
// Kleene logic: true and false dominate missing as documented.
SX_ENTRY(three_valued) {
  OB a = opt<bool>("pa"), b = opt<bool>("pb");
  int x = tri(a), y = tri(b);
  int ra = tri(LogicalAndOp()(a, b)), ro = tri(LogicalOrOp()(a, b));
  sx_assert(ra == (x == 1 || y == 1 ? 1 : x == 2 && y == 2 ? 2 : 0));
  sx_assert(ro == (x == 2 || y == 2 ? 2 : x == 1 && y == 1 ? 1 : 0));
  sx_assert(LogicalNotOp()(a.value) == !a.value);
  sx_assert(LogicalAndOp()(a.value, b.value) == (a.value && b.value)); sx_assert(LogicalOrOp()(a.value, b.value) == (a.value || b.value));
  sx_obs(ra); sx_obs(ro);
}
namespace {
template <class T>
void If() {
  OB c = opt<bool>("pc");
  T a = sx<T>("a"), b = sx<T>("b"), m = sx<T>("m");
  int k = tri(c);
  sx_assert(sx_same(LogicalIfOp()(c, a, b, m), k == 2 ? a : k == 1 ? b : m));
  O<T> oa(sx<bool>("pa"), a), ob(sx<bool>("pb"), b), om(sx<bool>("pm"), m);
  sx_assert(same(LogicalIfOp()(c, oa, ob, om), k == 2 ? oa : k == 1 ? ob : om));
  // only the chosen branch is evaluated
  int na = 0, nb = 0, nm = 0;
  auto r = LogicalIfOp()(c, [&] { ++na; return oa; }, [&] { ++nb; return ob; }, [&] { ++nm; return om; });
  sx_assert(same(r, k == 2 ? oa : k == 1 ? ob : om));
  sx_assert(na == (k == 2) && nb == (k == 1) && nm == (k == 0));
  na = 0;
  auto q = LogicalIfOp()(c, [&] { ++na; return a; }, b, m);
  sx_assert(sx_same(q, k == 2 ? a : k == 1 ? b : m) && na == (k == 2));
}
template <class T>
void Presence() {
  T a = sx<T>("a"), b = sx<T>("b");
  bool pa = sx<bool>("pa"), pb = sx<bool>("pb"), pm = sx<bool>("pm");
  O<T> oa(pa, a), ob(pb, b);
  OptionalUnit m(pm);
  O<T> none;
  sx_assert(!none.present);
  // has, not
  sx_assert(HasOp()(oa).present == pa); sx_assert(PresenceNotOp()(oa).present == !pa); sx_assert(PresenceNotOp()(m).present == !pm); sx_assert(HasOp()(m).present == pm);
  // a | b
  sx_assert(sx_same(PresenceOrOp()(oa, b), pa ? a : b)); sx_assert(same(PresenceOrOp()(oa, ob), pa ? oa : ob));
  sx_assert(sx_same(PresenceOrOp()(a, ob), a)); sx_assert(sx_same(PresenceOrOp()(a, b), a));
  int n = 0;
  sx_assert(sx_same(PresenceOrOp()(oa, [&] { ++n; return b; }), pa ? a : b) && n == !pa);
  n = 0; sx_assert(same(PresenceOrOp()(oa, [&] { ++n; return ob; }), pa ? oa : ob) && n == !pa);
  n = 0; sx_assert(sx_same(PresenceOrOp()(a, [&] { ++n; return b; }), a) && n == 0);
  // a & m
  sx_assert(sx_same(PresenceAndOp()(a, Unit{}), a)); sx_assert(same(PresenceAndOp()(a, m), pm ? O<T>(a) : none)); sx_assert(same(PresenceAndOp()(oa, m), pm ? oa : none));
  n = 0; sx_assert(sx_same(PresenceAndOp()([&] { ++n; return a; }, Unit{}), a) && n == 1);
  n = 0; sx_assert(same(PresenceAndOp()([&] { ++n; return O<T>(a); }, m), pm ? O<T>(a) : none) && n == pm);
  n = 0; sx_assert(same(PresenceAndOp()([&] { ++n; return oa; }, m), pm ? oa : none) && n == pm);
  { n = 0; auto r = PresenceAndOp()([&]() -> absl::StatusOr<T> { ++n; return a; }, m); sx_assert(r.ok() && same(*r, pm ? O<T>(a) : none) && n == pm); }
  { n = 0; auto r = PresenceAndOp()([&]() -> absl::StatusOr<O<T>> { ++n; return oa; }, m); sx_assert(r.ok() && same(*r, pm ? oa : none) && n == pm); }
  { auto r = PresenceAndOp()([&]() -> absl::StatusOr<T> { return absl::InternalError("x"); }, m); sx_assert(r.ok() == !pm); if (r.ok()) sx_assert(!r->present); }
  // where
  sx_assert(sx_same(WhereOp()(m, a, b), pm ? a : b)); sx_assert(same(WhereOp()(m, oa, ob), pm ? oa : ob));
  int n1 = 0, n2 = 0;
  auto fa = [&] { ++n1; return a; }; auto fb = [&] { ++n2; return b; };
  sx_assert(sx_same(WhereOp()(m, fa, fb), pm ? a : b) && n1 == pm && n2 == !pm);
  n1 = n2 = 0; sx_assert(sx_same(WhereOp()(m, fa, b), pm ? a : b) && n1 == pm);
  n1 = n2 = 0; sx_assert(sx_same(WhereOp()(m, a, fb), pm ? a : b) && n2 == !pm);
  // (a & m) | c
  T c = sx<T>("c"); O<T> oc(sx<bool>("pc"), c);
  bool t = pm && pa;
  sx_assert(same(PresenceAndOrOp()(oa, m, oc), t ? oa : oc)); sx_assert(sx_same(PresenceAndOrOp()(oa, m, c), t ? a : c));
  sx_assert(same(PresenceAndOrOp()(a, m, oc), pm ? O<T>(a) : oc)); sx_assert(sx_same(PresenceAndOrOp()(a, m, c), pm ? a : c));
  n = 0; sx_assert(sx_same(PresenceAndOrOp()(oa, m, [&] { ++n; return c; }), t ? a : c) && n == !t);
  n = 0; sx_assert(same(PresenceAndOrOp()(oa, m, [&] { ++n; return oc; }), t ? oa : oc) && n == !t);
  n = 0; sx_assert(sx_same(PresenceAndOrOp()(a, m, [&] { ++n; return c; }), pm ? a : c) && n == !pm);
  n = 0; sx_assert(same(PresenceAndOrOp()(a, m, [&] { ++n; return oc; }), pm ? O<T>(a) : oc) && n == !pm);
  // the pair of operators is the fused one
  sx_assert(same(PresenceOrOp()(PresenceAndOp()(oa, m), oc), PresenceAndOrOp()(oa, m, oc)));
}
template <class T>
void Optional() {
  T a = sx<T>("a"), b = sx<T>("b");
  bool pa = sx<bool>("pa"), pb = sx<bool>("pb");
  O<T> x(pa, a), y(pb, b);
  bool eq = a == b;
  sx_assert((x == y) == (pa == pb && (!pa || eq))); sx_assert((x != y) == !(x == y));
  sx_assert((x == b) == (pa && eq)); sx_assert((b == x) == (pa && eq)); sx_assert((x != b) == !(pa && eq)); sx_assert((b != x) == !(pa && eq));
  sx_assert((x == std::nullopt) == !pa); sx_assert((std::nullopt == x) == !pa); sx_assert((x != std::nullopt) == pa); sx_assert((std::nullopt != x) == pa);
  sx_assert((bool)x == pa);
  std::optional<T> so = x.AsOptional();
  sx_assert(so.has_value() == pa); if (pa) sx_assert(sx_same(*so, a));
  O<T> z(so); sx_assert(same(z, x));
  std::optional<T> sm = std::move(z).AsOptional(); sx_assert(sm.has_value() == pa); if (pa) sx_assert(sx_same(*sm, a));
  O<T> d; sx_assert(!d.present && !(bool)d); O<T> e(std::nullopt); sx_assert(!e.present); O<T> v(a); sx_assert(v.present && sx_same(v.value, a));
  sx_assert(same(MakeOptionalValue(a), v));
  y = a; sx_assert(y.present && sx_same(y.value, a));
  y = x; sx_assert(same(y, x));
  { auto r = MakeStatusOrOptionalValue(absl::StatusOr<T>(a)); sx_assert(r.ok() && r->present && sx_same(r->value, a)); }
  { auto r = MakeStatusOrOptionalValue(absl::StatusOr<T>(absl::InternalError("x"))); sx_assert(!r.ok() && r.status().code() == absl::StatusCode::kInternal); }
  // zero bytes are a missing value
  static_assert(is_bzero_constructible<O<T>>::value);
  alignas(O<T>) unsigned char raw[sizeof(O<T>)] = {};
  O<T> w; memcpy((void*)&w, raw, sizeof w); sx_assert(!w.present);
  // functions lifted to optional arguments
  auto add = WrapFnToAcceptOptionalArgs([](T p, T q) { return p < q ? p : q; });
  O<T> s = add(x, O<T>(pb, b));
  sx_assert(s.present == (pa && pb)); if (s.present) sx_assert(sx_same(s.value, a < b ? a : b));
  auto mix = WrapFnToAcceptOptionalArgs([](T p, O<T> q) -> O<T> { return q.present ? O<T>(p) : O<T>(); });
  O<T> t = mix(x, O<T>(pb, b)); sx_assert(same(t, pa && pb ? O<T>(a) : O<T>()));
  bool fails = sx<bool>("fails");
  auto st = WrapFnToAcceptOptionalArgs([&](T p) -> absl::StatusOr<T> { if (fails) return absl::InternalError("x"); return p; });
  auto u = st(x); sx_assert(u.ok() == !(pa && fails)); if (u.ok()) sx_assert(same(*u, x));
  auto so2 = WrapFnToAcceptOptionalArgs([&](T p) -> absl::StatusOr<O<T>> { if (fails) return absl::InternalError("x"); return O<T>(p); });
  auto u2 = so2(x); sx_assert(u2.ok() == !(pa && fails)); if (u2.ok()) sx_assert(same(*u2, x));
}
}  // namespace
SX_ENTRY(logical_if) { if (sx_pick("t", 0, 1)) If<int64_t>(); else If<float>(); }
SX_ENTRY(presence_int) { Presence<int64_t>(); }
SX_ENTRY(presence_float) { Presence<double>(); }
SX_ENTRY(presence_bool) { Presence<bool>(); }
SX_ENTRY(optional_int) { Optional<int32_t>(); }
SX_ENTRY(optional_float) { Optional<float>(); }
SX_ENTRY(optional_unit) {
  bool p = sx<bool>("p"), q = sx<bool>("q");
  OptionalUnit a(p), b(q);
  sx_assert((a == b) == (p == q)); sx_assert((a == Unit{}) == p); sx_assert((Unit{} == a) == p); sx_assert((bool)a == p);
  sx_assert(a.AsOptional().has_value() == p); sx_assert(OptionalUnit(a.AsOptional()).present == p);
  sx_assert(kPresent.present && !kMissing.present && !OptionalUnit(std::nullopt).present && OptionalUnit(Unit{}).present);
  a = b; sx_assert(a.present == q);
}
SX_ENTRY(optional_text) {  // sx: bound=texts_of_1_byte
  bool p = sx<bool>("p");
  std::string s(1, (char)sx<uint8_t>("c")), t(1, (char)sx<uint8_t>("d"));
  O<Text> a(p, Text(s));
  O<absl::string_view> v = a;
  sx_assert(v.present == p); if (p) sx_assert(v.value == s);
  O<Text> b(v); sx_assert(b.present == p); if (p) sx_assert(b.value == Text(s));
  sx_assert((a == O<Text>(Text(t))) == (p && s == t));
  sx_assert((v == absl::string_view(t)) == (p && s == t));
  O<Bytes> y(p, Bytes(s)); O<Bytes> moved(std::move(y)); sx_assert(moved.present == p);
  auto o = std::move(moved).AsOptional(); sx_assert(o.has_value() == p); if (p) sx_assert(*o == s);
}
