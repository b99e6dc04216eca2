// strings.join, strings.printf and strings.format: found for their argument types, bound to slots, and run.
// SX-SRCS: arolla/qexpr/operators/strings/join.cc arolla/qexpr/operators/strings/format.cc arolla/qexpr/operators.cc arolla/qexpr/bound_operators.cc arolla/qexpr/operator_errors.cc arolla/qexpr/qexpr_operator_signature.cc arolla/qexpr/casting.cc arolla/util/string.cc arolla/util/preallocated_buffers.cc arolla/memory/frame.cc arolla/qtype/qtype.cc arolla/qtype/base_types.cc arolla/qtype/optional_qtype.cc arolla/qtype/derived_qtype.cc arolla/qtype/weak_qtype.cc arolla/qtype/tuple_qtype.cc arolla/qtype/shape_qtype.cc arolla/qtype/typed_slot.cc arolla/qtype/typed_ref.cc arolla/qtype/typed_value.cc arolla/qtype/standard_type_properties/properties.cc arolla/qtype/standard_type_properties/common_qtype.cc arolla/util/fingerprint.cc arolla/util/text.cc arolla/util/repr.cc arolla/util/bytes.cc arolla/util/status.cc arolla/util/cancellation.cc arolla/util/demangle.cc arolla/util/class_info.cc arolla/util/init_arolla.cc arolla/util/init_arolla_internal.cc arolla/memory/optional_value.cc arolla/memory/raw_buffer_factory.cc
// SX-FLAGS: -I$VERIF/harness/stub_protobuf
#include <map>
#include <optional>
#include <string>
#include <vector>

#include "sx.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qexpr/operators/strings/format.h"
#include "arolla/qexpr/operators/strings/join.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/qtype/weak_qtype.h"
#include "arolla/util/bytes.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/text.h"

#ifdef SX_THOROUGH
constexpr int kFmt = 6;
#else
constexpr int kFmt = 5;
#endif
using namespace arolla;
namespace {
template <class S> TypedValue Make(bool optional, bool present, const S& s) {
  if (optional) return TypedValue::FromValue(OptionalValue<S>{present, s});
  return TypedValue::FromValue(s);
}
std::vector<QTypePtr> Types(const std::vector<TypedValue>& v) {
  std::vector<QTypePtr> r;
  for (auto& x : v) r.push_back(x.GetType());
  return r;
}
// runs the operator; nullopt: error; a missing result is ("", false)
struct Result { bool error = false, present = true; std::string s; };
template <class S> Result Run(const OperatorFamily& f, const std::vector<TypedValue>& args, bool optional) {
  QTypePtr out = optional ? (QTypePtr)GetQType<OptionalValue<S>>() : GetQType<S>();
  auto op = f.GetOperator(Types(args), out);
  sx_assert(op.ok());
  sx_assert((*op)->signature()->output_type() == out);
  sx_assert(!f.GetOperator(Types(args), GetQType<int32_t>()).ok());
  auto r = InvokeOperator(**op, args);
  Result res;
  if (!r.ok()) { res.error = true; return res; }
  sx_assert(r->GetType() == out);
  if (optional) {
    auto& v = r->UnsafeAs<OptionalValue<S>>();
    res.present = v.present;
    if (v.present) res.s = std::string(absl::string_view(v.value));
  } else {
    res.s = std::string(absl::string_view(r->UnsafeAs<S>()));
  }
  return res;
}
bool SameStr(absl::string_view a, absl::string_view b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i];
  return r;
}
template <class S> std::string AnyPart(int max) {
  std::string s;
  for (int n = sx_pick("size", 0, max); n > 0; --n) { char c = sx<char>("c"); sx_assume((c >= 'a') & (c <= 'z')); s.push_back(c); }
  return s;
}
template <class S> void CheckJoin(int n) {
  JoinOperatorFamily f;
  std::string sep = AnyPart<S>(1), want;
  std::vector<TypedValue> args = {TypedValue::FromValue(S(sep))};
  bool optional = false, missing = false;
  std::vector<OptionalValue<S>> parts;
  for (int i = 0; i < n; ++i) {
    bool o = sx_pick("optional", 0, 1), p = o ? sx<bool>("present") : true;
    std::string s = AnyPart<S>(i == 0 ? 2 : 1);
    optional |= o;
    missing |= !p;
    args.push_back(Make<S>(o, p, S(s)));
    if (i) want += sep;
    want += s;
    parts.push_back(OptionalValue<S>{p, S(s)});
  }
  Result r = Run<S>(f, args, optional);
  sx_assert(!r.error);
  sx_assert(r.present == !missing);
  if (!missing) sx_assert(SameStr(r.s, want));
  // the functor that generated code calls
  auto same = [&](const OptionalValue<S>& v) { sx_assert(v.present == !missing); if (!missing) sx_assert(SameStr(absl::string_view(v.value), want)); };
  if (n == 1) same(f(S(sep), parts[0]));
  if (n == 2) same(f(S(sep), parts[0], parts[1]));
  if (n == 2 && !optional) sx_assert(SameStr(absl::string_view(f(S(sep), parts[0].value, parts[1].value)), want));
}
}  // namespace

SX_ENTRY(join) { // sx: shards=6 bound=up_to_3_parts_of_up_to_2_characters,_every_choice_of_optional_parts
  InitArolla();
  int k = sx_shard(6);
  if (k % 2) CheckJoin<Text>(1 + k / 2); else CheckJoin<Bytes>(1 + k / 2);
}
SX_ENTRY(join_types) { // sx: bound=up_to_2_parts_of_5_types
  InitArolla();
  QTypePtr pool[] = {GetQType<Text>(), GetQType<Bytes>(), GetQType<OptionalValue<Text>>(), GetQType<OptionalValue<Bytes>>(), GetQType<int32_t>()};
  std::vector<QTypePtr> t = {pool[sx_pick("separator", 0, 4)]};
  int n = sx_pick("parts", 0, 2);
  bool ok = n > 0 && (t[0] == pool[0] || t[0] == pool[1]), optional = false;
  for (int i = 0; i < n; ++i) {
    t.push_back(pool[sx_pick("type", 0, 4)]);
    ok &= DecayOptionalQType(t.back()) == t[0];
    optional |= IsOptionalQType(t.back());
  }
  for (QTypePtr out : pool) {
    bool match = n > 0 && IsOptionalQType(out) == optional && DecayOptionalQType(out) == t[0];
    sx_assert(JoinOperatorFamily().GetOperator(t, out).ok() == (ok & match));
  }
}
namespace {
struct Spec { const char* fmt; int nargs; const char* types; const char* text; };  // types: s bytes, i int32, l int64, b bool, d double, f float, w weak float
const Spec kSpecs[] = {
    {"", 0, "", ""}, {"abc", 0, "", "abc"}, {"%%", 0, "", "%"}, {"%s", 1, "s", "Xy"}, {"<%d>", 1, "i", "<-7>"}, {"%d%s", 2, "ls", "5000000000Xy"},
    {"%s%s", 2, "ss", "XyXy"}, {"%5d|", 1, "i", "   -7|"}, {"%-4s|", 1, "s", "Xy  |"}, {"%d", 1, "b", "1"}, {"%g %g", 2, "df", "1.5 2.5"}, {"%g", 1, "w", "0.25"},
    {"%x", 1, "l", "12a05f200"}, {"%d%%", 1, "i", "-7%"}, {"%.1s", 1, "s", "X"},
};
TypedValue Arg(char t, bool o, bool p) {
  switch (t) {
    case 's': return Make<Bytes>(o, p, Bytes("Xy"));
    case 'i': return Make<int32_t>(o, p, -7);
    case 'l': return Make<int64_t>(o, p, 5000000000ll);
    case 'b': return Make<bool>(o, p, true);
    case 'd': return Make<double>(o, p, 1.5);
    case 'f': return Make<float>(o, p, 2.5f);
    case 'w': { auto v = o ? TypedValue::FromValueWithQType(OptionalValue<double>{p, 0.25}, GetOptionalWeakFloatQType()) : TypedValue::FromValueWithQType(0.25, GetWeakFloatQType()); sx_assert(v.ok()); return *v; }
    default: return Make<Text>(o, p, Text("no"));
  }
}
}  // namespace
SX_ENTRY(printf_values) { // sx: shards=2 bound=15_formats,_optional_arguments,_too_few_and_too_many
  InitArolla();
  PrintfOperatorFamily f;
  const Spec& s = kSpecs[sx_pick("format", 0, 14)];
  bool of = sx_pick("optional format", 0, 1), pf = of ? sx<bool>("present") : true, optional = of, missing = !pf;
  std::vector<TypedValue> args = {Make<Bytes>(of, pf, Bytes(s.fmt))};
  int extra = sx_shard(2) ? sx_pick("extra", -1, 1) : 0;
  int n = s.nargs + extra;
  if (n < 0) return;
  for (int i = 0; i < n; ++i) {
    bool o = sx_pick("optional", 0, 1), p = o ? sx<bool>("present") : true;
    optional |= o;
    missing |= !p;
    args.push_back(Arg(i < s.nargs ? s.types[i] : 'i', o, p));
  }
  Result r = Run<Bytes>(f, args, optional);
  sx_assert(r.error == (!missing & (extra != 0)));
  if (r.error) return;
  sx_assert(r.present == !missing);
  if (!missing) sx_assert(r.s == s.text);
}
SX_ENTRY(printf_call) { // sx: bound=3_formats,_optional_arguments
  PrintfOperatorFamily f;
  bool p = sx<bool>("present"), q = sx<bool>("q");
  auto a = f(Bytes("%s/%d"), Bytes("ab"), 12);
  sx_assert(a.ok() && *a == "ab/12");
  sx_assert(!f(Bytes("%s/%d"), Bytes("ab")).ok());
  auto b = f(OptionalValue<Bytes>{p, Bytes("%s/%d")}, Bytes("ab"), OptionalValue<int64_t>{q, 12});
  sx_assert(b.ok());
  sx_assert(b->present == (p & q));
  if (p & q) sx_assert(b->value == "ab/12");
  auto c = f(Bytes("%d"), OptionalValue<int64_t>{q, 12}, Bytes("x"));
  sx_assert(c.ok() == !q);
}
SX_ENTRY(printf_types) { // sx: bound=up_to_2_arguments_of_5_types
  InitArolla();
  QTypePtr pool[] = {GetQType<Bytes>(), GetQType<OptionalValue<Bytes>>(), GetQType<Text>(), GetQType<int32_t>(), GetQType<OptionalValue<Text>>()};
  std::vector<QTypePtr> t;
  bool ok = true, optional = false;
  int n = sx_pick("args", 0, 2);
  for (int i = 0; i < n; ++i) {
    int k = sx_pick("type", 0, 4);
    t.push_back(pool[k]);
    ok &= k < 2 || (k == 3 && i > 0);
    optional |= k == 1 || k == 4;
  }
  ok &= n > 0;
  sx_assert(PrintfOperatorFamily().GetOperator(t, GetQType<Bytes>()).ok() == (ok & !optional));
  sx_assert(PrintfOperatorFamily().GetOperator(t, GetQType<OptionalValue<Bytes>>()).ok() == (ok & optional));
  if (n > 0) t.insert(t.begin() + 1, GetQType<Text>());
  sx_assert(FormatOperatorFamily().GetOperator(t, GetQType<Bytes>()).ok() == (ok & !optional));
  sx_assert(FormatOperatorFamily().GetOperator(t, GetQType<OptionalValue<Bytes>>()).ok() == (ok & optional));
  if (n > 0) t[1] = GetQType<Bytes>();
  sx_assert(!FormatOperatorFamily().GetOperator(t, GetQType<Bytes>()).ok());
}
namespace {
// the format language: {{ and }} are braces, {name} and {name:spec} the value of an argument; nothing else may hold a brace
bool Format(const std::string& f, const std::map<std::string, std::string>& args, std::string* out, bool* other) {
  out->clear();
  *other = false;
  bool ok = true;
  for (size_t i = 0; i < f.size();) {
    if (f.compare(i, 2, "{{") == 0) { out->push_back('{'); i += 2; }
    else if (f.compare(i, 2, "}}") == 0) { out->push_back('}'); i += 2; }
    else if (f[i] == '}') return false;
    else if (f[i] == '{') {
      size_t e = f.find('}', i);
      if (e == f.npos) return false;
      std::string name = f.substr(i + 1, e - i - 1), spec;
      if (size_t c = name.find(':'); c != name.npos) { spec = name.substr(c + 1); name = name.substr(0, c); }
      auto it = args.find(name);
      if (it == args.end()) ok = false;
      else {
        if (!spec.empty() && spec != "v") *other = true;
        *out += it->second;
      }
      i = e + 1;
    } else out->push_back(f[i++]);
  }
  return ok;
}
}  // namespace
SX_ENTRY(format) { // sx: shards=12 bound=every_format_of_up_to_5_characters_(6_in_thorough)_of_{}ab:v
  InitArolla();
  int k = sx_shard(12);
  const char* alphabet = "{}ab:v";
  std::string f;
  int n = k % 2 ? kFmt : sx_pick("size", 1, kFmt - 1);
  for (int i = 0; i < n; ++i) f.push_back(alphabet[i == 0 ? k / 2 : sx_pick("char", 0, 5)]);
  static FormatOperatorFamily fam;
  std::string want;
  bool other;
  bool ok = Format(f, {{"a", "X1"}, {"b", "-7"}}, &want, &other);
  if (ok && other) return;  // another entry looks at formats of numbers
  Result r = Run<Bytes>(fam, {TypedValue::FromValue(Bytes(f)), TypedValue::FromValue(Text("a,b")), TypedValue::FromValue(Bytes("X1")), TypedValue::FromValue(-7)}, false);
  sx_assert(r.error == !ok);
  if (ok) sx_assert(r.s == want);
}
SX_ENTRY(format_values) { // sx: bound=8_types,_12_specifications,_optional_arguments
  InitArolla();
  const char types[] = "silbdfw";
  const char* plain[] = {"Xy", "-7", "5000000000", "true", "1.5", "2.5", "0.25"};
  struct { const char* spec; const char* i; const char* l; } specs[] = {{"", 0, 0}, {":", 0, 0}, {":v", 0, 0}, {":d", "-7", "5000000000"}, {":4", "  -7", "5000000000"}, {":4d", "  -7", "5000000000"}, {":+d", "-7", "+5000000000"}, {":012", "00000000-7", "005000000000"}, {":-4d", "-7  ", "5000000000"}, {":x", 0, "12a05f200"}, {":s", 0, 0}};
  int t = sx_pick("type", 0, 6), s = sx_pick("spec", 0, 10);
  bool o = sx_pick("optional", 0, 1), p = o ? sx<bool>("present") : true;
  std::string f = std::string("<{arg_1") + specs[s].spec + "}>";
  Result r = Run<Bytes>(FormatOperatorFamily(), {TypedValue::FromValue(Bytes(f)), TypedValue::FromValue(Text("arg_1")), Arg(types[t], o, p)}, o);
  if (!p) { sx_assert(!r.error & !r.present); return; }
  if (s < 3) {
    sx_assert(!r.error);
    sx_assert(r.s == std::string("<") + plain[t] + ">");
    return;
  }
  bool integer = t == 1 || t == 2, floating = t >= 4;
  if (!integer && !floating) { sx_assert(r.error); return; }
  if (floating) { if (s == 3 || s == 10) sx_assert(r.error); return; }
  if (s == 10) { sx_assert(r.error); return; }
  const char* want = t == 1 ? specs[s].i : specs[s].l;
  if (want && s != 7) { sx_assert(!r.error); sx_assert(r.s == std::string("<") + want + ">"); }
}
SX_ENTRY(format_names) { // sx: bound=8_lists_of_names_for_up_to_3_arguments
  InitArolla();
  const char* lists[] = {"", "a", "a,b", "b,a", "a,a", "a,b,c", "a,b,a", "a,,b"};
  int k = sx_pick("names", 0, 7), n = sx_pick("args", 0, 3);
  const int count[] = {0, 1, 2, 2, 2, 3, 3, 3};
  std::vector<TypedValue> args = {TypedValue::FromValue(Bytes(sx_pick("use", 0, 1) ? "{a}" : "-")), TypedValue::FromValue(Text(lists[k]))};
  bool use = args[0].UnsafeAs<Bytes>() != "-";
  for (int i = 0; i < n; ++i) args.push_back(TypedValue::FromValue(Bytes(std::string(1, 'p' + i))));
  Result r = Run<Bytes>(FormatOperatorFamily(), args, false);
  bool dup = k == 4 || k == 6;
  bool ok = !dup && count[k] == n && !(use && k == 0);
  sx_assert(r.error == !ok);
  if (ok) sx_assert(r.s == (!use ? "-" : k == 3 ? "q" : "p"));
}
SX_ENTRY(format_presence) { // sx: bound=optional_format_and_2_optional_arguments,_valid_or_not
  InitArolla();
  bool pf = sx<bool>("pf"), pa = sx<bool>("pa"), pb = sx<bool>("pb"), bad = sx_pick("bad", 0, 1);
  Result r = Run<Bytes>(FormatOperatorFamily(), {Make<Bytes>(true, pf, Bytes(bad ? "{" : "{a}{b}")), TypedValue::FromValue(Text("a,b")), Make<int64_t>(true, pa, 1), Make<Bytes>(true, pb, Bytes("z"))}, true);
  bool all = pf & pa & pb;
  sx_assert(r.error == (all & bad));
  if (r.error) return;
  sx_assert(r.present == all);
  if (all) sx_assert(r.s == "1z");
}
