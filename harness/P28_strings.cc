// String operators (qexpr/operators/strings) on bytes and on code points, against definitions over plain lists of characters.
// SX-SRCS: arolla/qexpr/operators/strings/find.cc arolla/qexpr/operators/strings/strings.cc arolla/dense_array/edge.cc arolla/array/edge.cc arolla/array/array.cc arolla/array/array_util.cc arolla/array/id_filter.cc arolla/dense_array/bitmap.cc arolla/dense_array/dense_array.cc arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc arolla/util/preallocated_buffers.cc arolla/util/status.cc arolla/util/fingerprint.cc arolla/util/text.cc arolla/util/cancellation.cc
// SX-FLAGS: -I$VERIF/harness/stub_protobuf
#include <optional>
#include <string>
#include <vector>

#include "sx.h"
#include "arolla/array/array.h"
#include "arolla/array/edge.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/qexpr/operators/strings/find.h"
#include "arolla/qexpr/operators/strings/findall_regex.h"
#include "arolla/qexpr/operators/strings/split.h"
#include "arolla/qexpr/operators/strings/strings.h"

// ICU's function behind U8_PREV, for well-formed text
extern "C" UChar32 utf8_prevCharSafeBody(const uint8_t* s, int32_t start, int32_t* pi, UChar32 c, UBool strict) {
  int32_t i = *pi;
  while (i > start && (s[i] & 0xC0) == 0x80) --i;
  int32_t k = i;
  UChar32 r;
  int32_t end = *pi + 1;
  U8_NEXT(s, k, end, r);
  if (k != end) return U_SENTINEL;
  *pi = i;
  return r;
}

#ifdef SX_THOROUGH
constexpr int kMax = 4;
#else
constexpr int kMax = 3;
#endif
using namespace arolla;
namespace {
// a string as the list of its characters (bytes, or code points)
struct Str {
  std::string s;
  std::vector<uint32_t> c;
  std::vector<int> off;  // off[i]: where the i-th character starts; one more for the end
};
Str AnyBytes(int n) {
  Str r;
  for (int i = 0; i < n; ++i) {
    char c = sx<char>("c");
    r.off.push_back(i);
    r.s.push_back(c);
    r.c.push_back((unsigned char)c);
  }
  r.off.push_back(n);
  return r;
}
void AddChar(Str* r, int len) {
  r->off.push_back(r->s.size());
  uint32_t c = sx<uint32_t>("code");
  auto put = [&](uint32_t b) { r->s.push_back((char)b); };
  if (len == 1) { sx_assume(c < 0x80); put(c); }
  else if (len == 2) { sx_assume((c >= 0x80) & (c < 0x800)); put(0xC0 | (c >> 6)); put(0x80 | (c & 63)); }
  else if (len == 3) { sx_assume((c >= 0x800) & (c < 0x10000) & !((c >= 0xD800) & (c < 0xE000))); put(0xE0 | (c >> 12)); put(0x80 | ((c >> 6) & 63)); put(0x80 | (c & 63)); }
  else { sx_assume((c >= 0x10000) & (c <= 0x10FFFF)); put(0xF0 | (c >> 18)); put(0x80 | ((c >> 12) & 63)); put(0x80 | ((c >> 6) & 63)); put(0x80 | (c & 63)); }
  r->c.push_back(c);
}
Str AnyText(int n, int maxlen = 4) {
  Str r;
  for (int i = 0; i < n; ++i) AddChar(&r, sx_pick("len", 1, maxlen));
  r.off.push_back(r.s.size());
  return r;
}
bool SameStr(absl::string_view a, absl::string_view b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i];
  return r;
}
std::string Sub(const Str& s, int from, int to) { return s.s.substr(s.off[from], s.off[to] - s.off[from]); }
bool Match(const Str& s, int at, const Str& t) {
  bool r = true;
  for (size_t i = 0; i < t.c.size(); ++i) r &= s.c[at + i] == t.c[i];
  return r;
}
OptionalValue<int64_t> AnyIndex(const char* n) {
  bool p = sx_pick("given", 0, 1);
  return OptionalValue<int64_t>{p, sx<int64_t>(n)};
}
// the interval of characters that start and end ask for; false if there is none
bool Interval(int64_t n, OptionalValue<int64_t> a, OptionalValue<int64_t> b, int* from, int* to) {
  int64_t i = !a.present ? 0 : a.value >= 0 ? a.value : a.value < -n ? 0 : a.value + n;
  int64_t j = !b.present ? n : b.value >= n ? n : b.value >= 0 ? b.value : b.value < -n ? -1 : b.value + n;
  if (i > j) return false;
  *from = sx_concretize((int)i);
  *to = sx_concretize((int)j);
  return true;
}
// ---------------------------------------------------------------- strip
template <class S> void CheckStrip(const Str& s, const OptionalValue<S>& chars, auto in) {
  int n = s.c.size(), i = 0, j = n;
  while (i < n && in(s.c[i])) ++i;
  sx_assert(SameStr(absl::string_view(LStripOp()(S(s.s), chars)), Sub(s, i, n)));
  while (j > 0 && in(s.c[j - 1])) --j;
  sx_assert(SameStr(absl::string_view(RStripOp()(S(s.s), chars)), Sub(s, 0, j)));
  auto both = StripOp()(S(s.s), chars);
  sx_assert(both.ok());
  sx_assert(SameStr(absl::string_view(*both), i >= j ? "" : Sub(s, i, j)));
}
template <class S> void StripEntry(const Str& s, const Str& set, bool given, auto space) {
  OptionalValue<S> chars{given, S(set.s)};
  CheckStrip<S>(s, chars, [&](uint32_t c) {
    if (!given) return (bool)space(c);
    bool r = false;
    for (uint32_t x : set.c) r |= x == c;
    return r;
  });
}
bool AsciiSpace(uint32_t c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
bool UnicodeSpace(uint32_t c) {
  return AsciiSpace(c) | (c == 0x85) | (c == 0xA0) | (c == 0x1680) | ((c >= 0x2000) & (c <= 0x200A)) | (c == 0x2028) | (c == 0x2029) | (c == 0x202F) | (c == 0x205F) | (c == 0x3000);
}
// ---------------------------------------------------------------- find
template <class S, class F, class R, class U> void CheckFind(const Str& s, const Str& t, bool any_index = false) {
  int n = s.c.size(), m = t.c.size();
  OptionalValue<int64_t> a, b;
  if (any_index) { a = AnyIndex("start"); b = AnyIndex("end"); }
  else {
    int i = sx_pick("start", -1, n), j = sx_pick("end", -1, n + 1);
    if (i >= 0) a = i;
    if (j <= n) b = j;
  }
  auto first = F()(S(s.s), S(t.s), a, b), last = R()(S(s.s), S(t.s), a, b);
  S part = U()(S(s.s), a, b);
  int i, j;
  if (!Interval(n, a, b, &i, &j)) {
    sx_reach("no interval");
    sx_assert(!first.present & !last.present);
    sx_assert(absl::string_view(part).empty());
    return;
  }
  sx_assert(SameStr(absl::string_view(part), Sub(s, i, j)));
  int lo = -1, hi = -1;
  for (int k = i; k + m <= j; ++k) if (Match(s, k, t)) { if (lo < 0) lo = k; hi = k; }
  sx_assert(first.present == (lo >= 0));
  sx_assert(last.present == (lo >= 0));
  if (lo >= 0) { sx_assert(first.value == lo); sx_assert(last.value == hi); }
}
template <class S, class C> void CheckCount(const Str& s, const Str& t) {
  int n = s.c.size(), m = t.c.size(), k = 0;
  for (int i = 0; i + m <= n; ++i) k += Match(s, i, t);
  sx_assert(C()(S(s.s), S(t.s)) == k);
  sx_assert(ContainsOp()(S(s.s), S(t.s)).present == (k > 0));
}
template <class S, class R> void CheckReplace(const Str& s, const Str& t, const Str& w) {
  OptionalValue<int64_t> limit{(bool)sx_pick("limited", 0, 1), sx<int64_t>("limit")};
  auto got = R()(S(s.s), S(t.s), S(w.s), limit);
  sx_assert(got.ok());
  int n = s.c.size(), m = t.c.size(), left = 100;
  if (limit.present && limit.value >= 0 && limit.value < 100) left = sx_concretize((int)limit.value);
  std::string want;
  int i = 0;
  while (i + m <= n) {
    if (left > 0 && Match(s, i, t)) {
      want += w.s;
      --left;
      i += m;
      if (m > 0) continue;
    }
    if (i >= n) break;
    want += Sub(s, i, i + 1);
    ++i;
  }
  if (i < n) want += Sub(s, i, n);
  sx_assert(SameStr(absl::string_view(*got), want));
}
}  // namespace

SX_ENTRY(strip_bytes) { // sx: shards=4 bound=up_to_3_bytes_(4_in_thorough),_up_to_2_characters_to_strip
  int n = sx_shard(kMax + 1);
  Str s = AnyBytes(n);
  bool given = sx_pick("given", 0, 1);
  StripEntry<Bytes>(s, AnyBytes(given ? sx_pick("set", 0, 2) : 0), given, AsciiSpace);
}
SX_ENTRY(strip_text) { // sx: shards=4 bound=up_to_3_code_points_of_1_to_4_bytes,_one_character_to_strip_(2_from_one_code_point)
  int n = sx_shard(4);
  Str s = AnyText(n, n == 3 ? 2 : 4);
  bool given = sx_pick("given", 0, 1);
  StripEntry<Text>(s, AnyText(given ? sx_pick("set", 0, n > 1 ? 1 : 2) : 0, n == 1 ? 3 : 2), given, UnicodeSpace);
}
SX_ENTRY(find_bytes) { // sx: shards=12 bound=up_to_3_bytes_searched_for_up_to_2,_every_start_and_end
  int k = sx_shard((kMax + 1) * 3), n = k / 3, m = k % 3;
  Str s = AnyBytes(n), t = AnyBytes(m);
  CheckFind<Bytes, BytesFindSubstringOp, BytesFindLastSubstringOp, BytesSubstringOp>(s, t);
}
SX_ENTRY(find_text) { // sx: shards=9 bound=up_to_3_code_points_searched_for_up_to_2,_every_start_and_end
  int k = sx_shard(9), n = 1 + k / 3, m = k % 3;
  Str s = AnyText(n, n == 3 ? 2 : 4), t = AnyText(m, n == 3 ? 2 : n == 2 ? 3 : 4);
  CheckFind<Text, TextFindSubstringOp, TextFindLastSubstringOp, TextSubstringOp>(s, t);
}
SX_ENTRY(find_index) { // sx: shards=8 bound=4_strings,_every_64-bit_start_and_end
  const char* pool[] = {"aba", "aba", "", "aa"}, *sub[] = {"a", "b", "", "ab"};
  int k = sx_shard(8), w = k % 4 == 2 ? 2 : sx_pick("substring", k % 2, k % 4 == 0 ? 1 : 2 + k % 4 / 2);
  Str s, t;
  auto add = [&](Str* r, const char* x) { for (; *x; ++x) { r->off.push_back(r->s.size()); r->s += k / 4 ? *x == 'a' ? "\xC3\xA9" : "\xE2\x82\xAC" : std::string(1, *x); r->c.push_back(*x); } r->off.push_back(r->s.size()); };
  add(&s, pool[k % 4]);
  add(&t, sub[w]);
  if (k / 4) CheckFind<Text, TextFindSubstringOp, TextFindLastSubstringOp, TextSubstringOp>(s, t, true);
  else CheckFind<Bytes, BytesFindSubstringOp, BytesFindLastSubstringOp, BytesSubstringOp>(s, t, true);
}
SX_ENTRY(count) { // sx: shards=2 bound=up_to_4_characters,_up_to_2_to_count
  if (sx_shard(2)) CheckCount<Bytes, BytesSubstringOccurrenceCountOp>(AnyBytes(sx_pick("size", 0, 4)), AnyBytes(sx_pick("what", 0, 2)));
  else CheckCount<Text, TextSubstringOccurrenceCountOp>(AnyText(sx_pick("size", 0, 3), 2), AnyText(sx_pick("what", 0, 2), 2));
}
SX_ENTRY(length) { // sx: bound=up_to_4_characters
  Str b = AnyBytes(sx_pick("size", 0, 4));
  sx_assert(BytesLengthOp()(Bytes(b.s)) == (int64_t)b.s.size());
  Str s = AnyText(sx_pick("size", 0, 3));
  sx_assert(TextLengthOp()(Text(s.s)) == (int64_t)s.c.size());
  sx_assert(SameStr(EncodeOp()(Text(s.s)), s.s));
  sx_assert(SameStr(absl::string_view(TextAsTextOp()(Text(s.s))), s.s));
}
SX_ENTRY(replace_bytes) { // sx: shards=3 bound=up_to_3_bytes,_up_to_2_to_replace,_up_to_1_instead,_every_limit
  int m = sx_shard(3);
  CheckReplace<Bytes, BytesReplaceOp>(AnyBytes(sx_pick("size", 0, kMax)), AnyBytes(m), AnyBytes(sx_pick("new", 0, 1)));
}
SX_ENTRY(replace_text) { // sx: shards=3 bound=up_to_3_code_points,_up_to_2_to_replace,_one_instead,_every_limit
  int m = sx_shard(3), n = sx_pick("size", 0, 3);
  CheckReplace<Text, TextReplaceOp>(AnyText(n, n == 3 ? 2 : 4), AnyText(m, n == 3 ? 2 : 3), AnyText(1, 1));
}
namespace {
// well-formed sequences of the Unicode standard (table 3-7): bytes the sequence at i is made of; *ok if it is complete,
// otherwise the number of bytes that one U+FFFD stands for
int Sequence(const std::string& s, size_t i, bool* ok) {
  auto u = [&](size_t k) { return (unsigned)(unsigned char)s[k]; };
  unsigned c = u(i);
  *ok = c < 0x80;
  if (*ok) return 1;
  int need = c >= 0xC2 && c <= 0xDF ? 1 : c >= 0xE0 && c <= 0xEF ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : 0;
  if (need == 0) return 1;
  unsigned lo = c == 0xE0 ? 0xA0 : c == 0xF0 ? 0x90 : 0x80, hi = c == 0xED ? 0x9F : c == 0xF4 ? 0x8F : 0xBF;
  int got = 1;
  while (got <= need && i + got < s.size() && u(i + got) >= lo && u(i + got) <= hi) { ++got; lo = 0x80; hi = 0xBF; }
  *ok = got == need + 1;
  return got;
}
}  // namespace
SX_ENTRY(decode) { // sx: shards=9 bound=up_to_3_bytes;_4_bytes_with_one_of_5_first_bytes_(any_in_thorough)
  int k = sx_shard(9);
  Str s = AnyBytes(k < 4 ? k : 4);
#ifdef SX_THOROUGH
  if (k > 4) return;
#else
  const unsigned char lead[] = {0xE0, 0xED, 0xF0, 0xF2, 0xF4};
  if (k >= 4) s.s[0] = (char)(s.c[0] = lead[k - 4]);
#endif
  std::string ignore, replace;
  bool valid = true;
  for (size_t i = 0; i < s.s.size();) {
    bool ok;
    int n = Sequence(s.s, i, &ok);
    if (ok) { ignore += s.s.substr(i, n); replace += s.s.substr(i, n); }
    else { replace += "\xEF\xBF\xBD"; valid = false; }
    i += n;
  }
  auto strict = DecodeOp()(Bytes(s.s), Text("strict"));
  sx_assert(strict.ok() == valid);
  if (valid) sx_assert(SameStr(absl::string_view(*strict), s.s));
  auto a = DecodeOp()(OptionalValue<Bytes>(Bytes(s.s)), Text("ignore")), b = DecodeOp()(OptionalValue<Bytes>(Bytes(s.s)), Text("replace"));
  sx_assert(a.ok() & b.ok());
  sx_assert(a->present & b->present);
  sx_assert(SameStr(absl::string_view(a->value), ignore));
  sx_assert(SameStr(absl::string_view(b->value), replace));
  auto none = DecodeOp()(OptionalValue<Bytes>(), Text("strict"));
  sx_assert(none.ok() && !none->present);
  sx_assert(!DecodeOp()(Bytes(s.s), Text("Strict")).ok());
}
SX_ENTRY(case_ascii) { // sx: bound=up_to_3_ascii_characters
  Str s = AnyText(sx_pick("size", 0, 3), 1);
  auto l = LowerOp()(Text(s.s)), u = UpperOp()(Text(s.s)), l2 = LowerOp()(Text(s.s), Text("en")), u2 = UpperOp()(Text(s.s), Text("en"));
  sx_assert(l.ok() & u.ok() & l2.ok() & u2.ok());
  std::string lw, uw;
  for (char c : s.s) { lw.push_back(c >= 'A' && c <= 'Z' ? c + 32 : c); uw.push_back(c >= 'a' && c <= 'z' ? c - 32 : c); }
  sx_assert(SameStr(absl::string_view(*l), lw) & SameStr(absl::string_view(*u), uw));
  sx_assert(SameStr(absl::string_view(*l2), lw) & SameStr(absl::string_view(*u2), uw));
}
// ---------------------------------------------------------------- numbers
namespace {
template <class T, class Op> void CheckInt(const std::string& s) {
  auto got = Op()(Bytes(s));
  auto text = Op()(Text(s));
  size_t i = 0;
  bool neg = false, ok = true;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
  if (i == s.size()) ok = false;
  uint64_t v = 0, limit = (uint64_t)std::numeric_limits<T>::max() + neg;
  for (; i < s.size() && ok; ++i) {
    if (s[i] < '0' || s[i] > '9') { ok = false; break; }
    uint64_t d = s[i] - '0';
    if (v > (limit - d) / 10) { ok = false; break; }
    v = v * 10 + d;
  }
  sx_assert(got.ok() == ok);
  sx_assert(text.ok() == ok);
  if (ok) { sx_assert(*got == (T)(neg ? 0 - v : v)); sx_assert(*text == *got); }
}
// what the parser of the library answers is arbitrary
int g_calls;
std::string g_given;
int g_kind;
size_t g_used;
double g_value;
}  // namespace
namespace absl {
absl::from_chars_result from_chars(const char* a, const char* b, double& d, std::chars_format) {
  ++g_calls;
  g_given.assign(a, b - a);
  size_t used = g_used <= (size_t)(b - a) ? g_used : b - a;
  if (g_kind == 1) return {a, std::errc::invalid_argument};
  d = g_value;
  return {b - (b - a - used), g_kind == 0 ? std::errc() : std::errc::result_out_of_range};
}
from_chars_result from_chars(const char* a, const char* b, float& f, std::chars_format m) {
  double d = f;
  auto r = absl::from_chars(a, b, d, m);
  f = (float)d;
  return r;
}
}  // namespace absl
SX_ENTRY(parse_int) { // sx: shards=5 bound=every_string_of_up_to_4_bytes
  std::string s = AnyBytes(sx_shard(5)).s;
  CheckInt<int32_t, StringsParseInt32>(s);
  CheckInt<int64_t, StringsParseInt64>(s);
}
SX_ENTRY(parse_int_limits) { // sx: bound=numbers_next_to_the_limits,_with_any_last_character
  const char* pool[] = {"214748364", "-214748364", "+214748364", "922337203685477580", "-922337203685477580", "+922337203685477580", "00000000000000000000", "1844674407370955161", "+-", "-+", "0x", " 1", "1 "};
  std::string s = pool[sx_pick("number", 0, 12)];
  s.push_back(sx<char>("last"));
  CheckInt<int32_t, StringsParseInt32>(s);
  CheckInt<int64_t, StringsParseInt64>(s);
}
namespace {
template <class F, class Op> void CheckFloat(const std::string& s) {
  g_calls = 0;
  g_kind = sx_pick("kind", 0, 2);
  g_used = sx_pick("used", 0, (int)s.size());
  double pool[] = {1.5, -1.5, 0.0, -0.0, std::numeric_limits<F>::max(), -std::numeric_limits<F>::max(), std::numeric_limits<F>::min(), -std::numeric_limits<F>::min()};
  g_value = g_kind == 0 ? pool[sx_pick("value", 0, 3)] : g_kind == 2 ? pool[sx_pick("value", 2, 7)] : 0;
  auto got = Op()(Text(s));
  // an optional plus that no sign follows; no hexadecimal prefix after the sign
  std::string body = s;
  bool ok = true;
  if (!body.empty() && body[0] == '+') { body = body.substr(1); if (!body.empty() && body[0] == '-') ok = false; }
  std::string digits = !body.empty() && body[0] == '-' ? body.substr(1) : body;
  if (digits.size() >= 2 && digits[0] == '0' && (digits[1] == 'x' || digits[1] == 'X')) ok = false;
  if (!ok) { sx_assert(!got.ok()); return; }
  // strings that the library's grammar has no room for: an x that is not part of a hexadecimal prefix
  if ((body.size() >= 2 && (body[1] == 'x' || body[1] == 'X')) || (body.size() >= 3 && (body[2] == 'x' || body[2] == 'X'))) return;
  sx_assert(g_calls == 1 && SameStr(g_given, body));
  bool all = g_kind != 1 && (g_used >= body.size());
  sx_assert(got.ok() == all);
  if (!all) return;
  F want = (F)g_value;
  if (g_kind == 2 && want > 1) want = std::numeric_limits<F>::infinity();
  if (g_kind == 2 && want < -1) want = -std::numeric_limits<F>::infinity();
  sx_assert(sx_same(*got, want));
}
}  // namespace
SX_ENTRY(parse_float) { // sx: shards=8 bound=every_string_of_up_to_3_bytes,_every_outcome_of_the_library's_parser
  int k = sx_shard(8);
  std::string s = AnyBytes(k / 2).s;
  if (k % 2) CheckFloat<float, StringsParseFloat32>(s); else CheckFloat<double, StringsParseFloat64>(s);
}
SX_ENTRY(as_text) { // sx: bound=8_integers,_up_to_2_bytes
  const int64_t pool[] = {0, 1, -1, 10, 2147483647, -2147483648ll, 9223372036854775807ll, -9223372036854775807ll - 1};
  const char* text[] = {"0", "1", "-1", "10", "2147483647", "-2147483648", "9223372036854775807", "-9223372036854775808"};
  int i = sx_pick("value", 0, 7);
  AsTextOp op;
  sx_assert(op(pool[i]).view() == text[i]);
  if (i < 6) sx_assert(op((int32_t)pool[i]).view() == text[i]);
  if (pool[i] >= 0) sx_assert(op((uint64_t)pool[i]).view() == text[i]);
  sx_assert(op((uint64_t)-1).view() == "18446744073709551615");
  sx_assert(op(kUnit).view() == "present" && op(true).view() == "true" && op(false).view() == "false");
  const float f[] = {0.f, 1.5f, -2.f, 1e-6f, 1e20f, INFINITY, -INFINITY, NAN, 0.1f};
  const char* ft[] = {"0", "1.5", "-2", "1e-06", "1e+20", "inf", "-inf", "nan", "0.1"};
  int j = sx_pick("float", 0, 8);
  sx_assert(op(f[j]).view() == ft[j]);
  const double d[] = {0, 1.5, -2, 1e-6, 1e20, INFINITY, -INFINITY, NAN, 0.1};
  sx_assert(op(d[j]).view() == ft[j]);
  Str s = AnyText(sx_pick("size", 0, 2), 1);
  for (auto c : s.c) sx_assume((c >= 'a') & (c <= 'z'));
  sx_assert(SameStr(op(Bytes(s.s)).view(), "b'" + s.s + "'"));
}
// ---------------------------------------------------------------- arrays
namespace {
struct Row { bool present; std::string s; };
std::vector<Row> AnyRows(int n, int maxlen, const char* alphabet) {
  std::vector<Row> r;
  for (int i = 0; i < n; ++i) {
    Row w{(bool)sx_pick("present", 0, 1), ""};
    if (w.present) for (int k = sx_pick("size", 0, maxlen); k > 0; --k) w.s.push_back(alphabet[sx_pick("char", 0, (int)strlen(alphabet) - 1)]);
    r.push_back(w);
  }
  return r;
}
template <class S> DenseArray<S> Dense(const std::vector<Row>& r) {
  std::vector<OptionalValue<S>> v;
  for (auto& w : r) v.push_back(OptionalValue<S>{w.present, S(w.s)});
  return CreateDenseArray<S>(v);
}
template <class S> Array<S> Sparse(const std::vector<Row>& r) {
  Array<S> a(Dense<S>(r));
  return a.ToSparseForm();
}
template <class A> std::vector<Row> Read(const A& a) {
  std::vector<Row> r;
  for (int64_t i = 0; i < a.size(); ++i) { auto v = a[i]; r.push_back({v.present, v.present ? std::string(absl::string_view(v.value)) : ""}); }
  return r;
}
bool SameRows(const std::vector<Row>& a, const std::vector<Row>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i].present != b[i].present || a[i].s != b[i].s) return false;
  return true;
}
template <class E> bool SameSplits(const E& e, const std::vector<int64_t>& want) {
  if (e.edge_type() != E::SPLIT_POINTS || e.parent_size() + 1 != (int64_t)want.size() || e.child_size() != want.back()) return false;
  for (size_t i = 0; i < want.size(); ++i) { auto v = e.edge_values()[i]; if (!v.present || v.value != want[i]) return false; }
  return true;
}
// the parts of s between separators; without one, the words of s
std::vector<std::string> Parts(const std::string& s, const std::optional<std::string>& sep) {
  std::vector<std::string> r = {""};
  for (size_t i = 0; i < s.size();) {
    if (!sep) { if (AsciiSpace((unsigned char)s[i])) r.push_back(""); else r.back().push_back(s[i]); ++i; continue; }
    if (s.compare(i, sep->size(), *sep) == 0) { r.push_back(""); i += sep->size(); } else r.back().push_back(s[i++]);
  }
  if (!sep) std::erase(r, "");
  return r;
}
}  // namespace
SX_ENTRY(split) { // sx: shards=4 bound=2_rows_of_up_to_3_of_3_characters,_4_separators_or_none
  int k = sx_shard(4);
  const char* seps[] = {"a", "ab", "aa", " "};
  int w = sx_pick("separator", -1, 3);
  std::optional<std::string> sep;
  if (w >= 0) sep = seps[w];
  auto rows = AnyRows(k % 2 ? 2 : sx_pick("rows", 0, 1), k % 2 ? 2 : 4, w < 0 ? "a\t " : "ab ");
  std::vector<Row> want;
  std::vector<int64_t> splits = {0};
  for (auto& r : rows) {
    if (r.present) for (auto& p : Parts(r.s, sep)) want.push_back({true, p});
    splits.push_back(want.size());
  }
  if (k / 2) {
    auto got = SplitOp()(Dense<Bytes>(rows), OptionalValue<Bytes>{w >= 0, Bytes(sep.value_or(""))});
    sx_assert(got.ok());
    sx_assert(SameRows(Read(std::get<0>(*got)), want));
    sx_assert(SameSplits(std::get<1>(*got), splits));
  } else {
    auto got = SplitOp()(sx_pick("sparse", 0, 1) ? Sparse<Text>(rows) : Array<Text>(Dense<Text>(rows)), OptionalValue<Text>{w >= 0, Text(sep.value_or(""))});
    sx_assert(got.ok());
    sx_assert(SameRows(Read(std::get<0>(*got)), want));
    sx_assert(SameSplits(std::get<1>(*got), splits));
  }
}
// ---------------------------------------------------------------- regular expressions
namespace {
// matches one of the letters a and b; the groups are the letter, groups times
class Letters final : public Regex {
 public:
  explicit Letters(int groups) : groups_(groups) {}
  absl::string_view pattern() const override { return "[ab]"; }
  int NumberOfCapturingGroups() const override { return groups_; }
  bool PartialMatch(absl::string_view t) const override { return t.find_first_of("ab") != t.npos; }
  bool PartialMatch(absl::string_view t, std::string* m) const override {
    auto i = t.find_first_of("ab");
    if (i == t.npos) return false;
    *m = std::string(1, t[i]);
    return true;
  }
  void FindAll(absl::string_view t, absl::FunctionRef<void(absl::Span<const absl::string_view>)> f) const override {
    for (size_t i = 0; i < t.size(); ++i) if (t[i] == 'a' || t[i] == 'b') { std::vector<absl::string_view> g(groups_, t.substr(i, 1)); f(g); }
  }
  int GlobalReplace(std::string* s, absl::string_view w) const override {
    std::string r;
    int n = 0;
    for (char c : *s) if (c == 'a' || c == 'b') { r += std::string(w); ++n; } else r.push_back(c);
    *s = r;
    return n;
  }
  int groups_;
};
}  // namespace
SX_ENTRY(regex) { // sx: shards=2 bound=up_to_3_characters,_up_to_2_groups
  int groups = sx_pick("groups", 0, 2);
  bool null = sx_pick("null", 0, 1), present = sx_pick("present", 0, 1), text = sx_shard(2);
  RegexPtr re = null ? nullptr : std::make_shared<Letters>(groups);
  std::string s;
  for (int k = sx_pick("size", 0, 3); k > 0; --k) s.push_back("abc"[sx_pick("char", 0, 2)]);
  size_t at = s.find_first_of("ab");
  bool found = at != s.npos && !null;
  sx_assert(ContainsRegexOp()(absl::string_view(s), re).present == found);
  sx_assert(ContainsRegexOp()(OptionalValue<absl::string_view>{present, s}, re).present == (found & present));
  auto e = text ? ExtractRegexOp()(OptionalValue<Text>{present, Text(s)}, re) : ExtractRegexOp()(Text(s), re);
  bool used = (present | !text) & !null;
  sx_assert(e.ok() == (!used | (groups == 1)));
  if (e.ok()) {
    sx_assert(e->present == (used & found));
    if (e->present) sx_assert(e->value.view() == s.substr(at, 1));
  }
  bool rw = sx_pick("rewrite", 0, 1);
  auto r = text ? ReplaceAllRegexOp()(OptionalValue<Text>{present, Text(s)}, re, OptionalValue<Text>{rw, Text("xy")}) : ReplaceAllRegexOp()(Text(s), re, Text("xy"));
  sx_assert(r.ok());
  sx_assert(r->present == (used & (rw | !text)));
  if (r->present) {
    std::string want;
    for (char c : s) if (c == 'c') want.push_back(c); else want += "xy";
    sx_assert(r->value.view() == want);
  }
}
SX_ENTRY(findall) { // sx: shards=3 bound=up_to_2_rows_of_up_to_2_of_3_characters,_up_to_2_groups
  int groups = sx_shard(3);
  RegexPtr re = std::make_shared<Letters>(groups);
  auto rows = AnyRows(sx_pick("rows", 0, 2), 2, "abc");
  std::vector<Row> want;
  std::vector<int64_t> splits = {0};
  int64_t matches = 0;
  for (auto& r : rows) {
    if (r.present) for (char c : r.s) if (c != 'c') { ++matches; for (int g = 0; g < groups; ++g) want.push_back({true, std::string(1, c)}); }
    splits.push_back(matches);
  }
  auto check = [&](const auto& got) {
    sx_assert(got.ok());
    sx_assert(SameRows(Read(std::get<0>(*got)), want));
    sx_assert(SameSplits(std::get<1>(*got), splits));
    std::vector<int64_t> uniform = {0};
    for (int i = 0; i < matches; ++i) uniform.push_back(uniform.back() + groups);
    sx_assert(SameSplits(std::get<2>(*got), uniform));
  };
  if (sx_pick("form", 0, 1)) check(FindallRegexOp()(Dense<Text>(rows), re)); else check(FindallRegexOp()(Sparse<Text>(rows), re));
}
