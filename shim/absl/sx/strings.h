#pragma once
#include "absl/sx/base.h"
#include "absl/sx/span.h"
#include <charconv>
#include <ostream>
#include <system_error>
#include <cmath>
#include <sstream>
#include <map>
#include <set>

namespace absl {
class Cord;
// --- AbslStringify
namespace sx {
struct StrSink {
  std::string* s;
  void Append(string_view v) { s->append(v); }
  void Append(size_t n, char c) { s->append(n, c); }
  friend void AbslFormatFlush(StrSink* k, string_view v) { k->Append(v); }
};
template <class T, class = void> struct HasStringify : std::false_type {};
template <class T> struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<StrSink&>(), std::declval<const T&>()))>> : std::true_type {};
inline void AppendU(std::string* r, uint64_t v, unsigned base = 10, bool upper = false) {
  if (sx_engine() && sx_is_symbolic(v)) { r->append("?"); return; }
  char b[72]; int n = 72;
  do { unsigned d = v % base; b[--n] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; v /= base; } while (v);
  r->append(b + n, 72 - n);
}
inline void AppendI(std::string* r, int64_t v) {
  if (sx_engine() && sx_is_symbolic((uint64_t)v)) { r->append("?"); return; }
  if (v < 0) { r->push_back('-'); AppendU(r, 0 - (uint64_t)v); } else AppendU(r, v);
}
inline void AppendG(std::string* r, double v, int prec = 6) {
  uint64_t b; memcpy(&b, &v, 8);
  if (sx_engine() && sx_is_symbolic(b)) { r->append("?"); return; }
  char buf[64]; size_t n = sx_fmt_g(b, prec, buf); r->append(buf, n);
}
template <class T> void AppendAny(std::string* r, const T& v) {
  using D = std::decay_t<T>;
  if constexpr (HasStringify<T>::value) { StrSink k{r}; AbslStringify(k, v); }
  else if constexpr (std::is_same_v<D, bool>) AppendI(r, v);
  else if constexpr (std::is_same_v<D, char>) r->push_back(v);
  else if constexpr (std::is_convertible_v<const T&, string_view>) r->append(string_view(v));
  else if constexpr (std::is_floating_point_v<D>) AppendG(r, v);
  else if constexpr (std::is_integral_v<D> && std::is_signed_v<D>) AppendI(r, v);
  else if constexpr (std::is_integral_v<D>) AppendU(r, v);
  else if constexpr (std::is_enum_v<D>) AppendI(r, (int64_t)v);
  else if constexpr (std::is_same_v<D, std::vector<bool>::reference>) AppendI(r, (bool)v);
  else if constexpr (requires { std::string(v); }) r->append(std::string(v));
  else if constexpr (requires { v.Piece(); }) r->append(v.Piece());
  else if constexpr (std::is_pointer_v<D>) AppendU(r, (uint64_t)v, 16);
  else r->append("<object>");
}
}  // namespace sx
class AlphaNum {
 public:
  template <class T> AlphaNum(const T& v) { sx::AppendAny(&s_, v); }
  AlphaNum(char c) = delete;
  string_view Piece() const { return s_; }
 private:
  std::string s_;
};
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16 };
struct Hex { uint64_t v; int pad; template <class T> explicit Hex(T x, PadSpec p = kNoPad) : v((uint64_t)x), pad((int)p) {}
  template <class S> friend void AbslStringify(S& s, const Hex& h) { std::string t; sx::AppendU(&t, h.v, 16); while ((int)t.size() < h.pad) t.insert(t.begin(), '0'); s.Append(t); } };
struct Dec { int64_t v; int pad; template <class T> explicit Dec(T x, PadSpec p = kNoPad) : v((int64_t)x), pad((int)p) {}
  template <class S> friend void AbslStringify(S& s, const Dec& h) { std::string t; sx::AppendI(&t, h.v); while ((int)t.size() < h.pad) t.insert(t.begin(), '0'); s.Append(t); } };
template <class... A> void StrAppend(std::string* r, const A&... a) { (sx::AppendAny(r, a), ...); }
template <class... A> std::string StrCat(const A&... a) { std::string r; (sx::AppendAny(&r, a), ...); return r; }

// --- StrFormat
enum class FormatConversionChar : uint8_t { c, s, d, i, o, u, x, X, f, F, e, E, g, G, a, A, n, p, v };
enum class FormatConversionCharSet : uint64_t { c = 1, s = 2, d = 4, i = 8, u = 16, x = 32, f = 64, g = 128, p = 256, v = 512, kString = 2, kIntegral = 4 | 8 | 16 | 32, kFloating = 64 | 128, kPointer = 256 };
class FormatSink;
template <FormatConversionCharSet> struct FormatConvertResult { bool value; };
class FormatConversionSpec { public: FormatConversionChar conversion_char() const { return c; } int width() const { return w; } int precision() const { return p; } FormatConversionChar c = FormatConversionChar::s; int w = -1, p = -1; };
class FormatArg {
 public:
  enum K { I, U, D, S, P, C } k = S; int64_t i = 0; double d = 0; std::string s;
  FormatArg() {}
  template <class T> FormatArg(const T& v) {
    using X = std::decay_t<T>;
    if constexpr (sx::HasStringify<T>::value) { sx::StrSink q{&s}; AbslStringify(q, v); }
    else if constexpr (std::is_same_v<X, bool>) { k = I; i = v; }
    else if constexpr (std::is_same_v<X, char>) { k = C; i = v; }
    else if constexpr (std::is_floating_point_v<X>) { k = D; d = v; }
    else if constexpr (std::is_integral_v<X>) { k = std::is_signed_v<X> ? I : U; i = (int64_t)v; }
    else if constexpr (std::is_convertible_v<const T&, string_view>) s = std::string(string_view(v));
    else if constexpr (std::is_enum_v<X>) { k = I; i = (int64_t)v; }
    else if constexpr (std::is_pointer_v<X>) { k = P; i = (int64_t)v; }
    else sx::AppendAny(&s, v);
  }
};
namespace sx {
std::string FormatImpl(string_view f, const FormatArg* a, size_t n, bool* ok = nullptr);
}
class UntypedFormatSpec { public: explicit UntypedFormatSpec(string_view s) : s_(s) {} string_view s_; };
template <class... A> class FormatSpecT { public: template <class T> constexpr FormatSpecT(const T& s) : s_(s) {} string_view s_; };
template <class... A> using FormatSpec = FormatSpecT<A...>;
template <class... A> class FormatSpecP;
template <auto...> class ParsedFormat { public: explicit ParsedFormat(string_view s) : s_(s) {} operator string_view() const { return s_; } std::string s_; static std::unique_ptr<ParsedFormat> New(string_view s) { return std::make_unique<ParsedFormat>(s); } };
template <char...> class ParsedFormatC {};
template <class... A> std::string StrFormat(const std::type_identity_t<FormatSpecT<A...>>& f, const A&... a) { FormatArg r[sizeof...(A) + 1] = {FormatArg(a)...}; return sx::FormatImpl(f.s_, r, sizeof...(A)); }
template <class... A> std::string& StrAppendFormat(std::string* o, const std::type_identity_t<FormatSpecT<A...>>& f, const A&... a) { FormatArg r[sizeof...(A) + 1] = {FormatArg(a)...}; o->append(sx::FormatImpl(f.s_, r, sizeof...(A))); return *o; }
struct StreamFormatT { std::string s; friend std::ostream& operator<<(std::ostream& o, const StreamFormatT& f) { return o << f.s; } template <class K> friend void AbslStringify(K& k, const StreamFormatT& f) { k.Append(f.s); } };
template <class... A> StreamFormatT StreamFormat(const std::type_identity_t<FormatSpecT<A...>>& f, const A&... a) { FormatArg r[sizeof...(A) + 1] = {FormatArg(a)...}; return {sx::FormatImpl(f.s_, r, sizeof...(A))}; }
template <class K, class... A> bool Format(K* k, const std::type_identity_t<FormatSpecT<A...>>& f, const A&... a) { FormatArg r[sizeof...(A) + 1] = {FormatArg(a)...}; auto s = sx::FormatImpl(f.s_, r, sizeof...(A)); if constexpr (requires { k->Append(s); }) k->Append(s); else if constexpr (requires { k->append(s); }) k->append(s); else *k << s; return true; }
inline bool FormatUntyped(std::string* o, UntypedFormatSpec f, Span<const FormatArg> a) { bool ok = true; *o += sx::FormatImpl(f.s_, a.data(), a.size(), &ok); return ok; }

// --- join / split
template <class It, class F> std::string SxJoinF(It b, It e, string_view sep, F&& f) { std::string r; bool first = true; for (; b != e; ++b) { if (!first) r.append(sep); first = false; f(&r, *b); } return r; }
template <class It> std::string StrJoin(It b, It e, string_view sep) { return SxJoinF(b, e, sep, [](std::string* o, const auto& v) { sx::AppendAny(o, v); }); }
template <class It, class F> requires (!std::is_convertible_v<F, string_view>) std::string StrJoin(It b, It e, string_view sep, F&& f) { return SxJoinF(b, e, sep, f); }
template <class R> std::string StrJoin(const R& r, string_view sep) { return StrJoin(std::begin(r), std::end(r), sep); }
template <class R, class F> requires (!std::is_convertible_v<F, string_view>) std::string StrJoin(const R& r, string_view sep, F&& f) { return SxJoinF(std::begin(r), std::end(r), sep, f); }
template <class T> std::string StrJoin(std::initializer_list<T> r, string_view sep) { return StrJoin(r.begin(), r.end(), sep); }
template <class T, class F> std::string StrJoin(std::initializer_list<T> r, string_view sep, F&& f) { return SxJoinF(r.begin(), r.end(), sep, f); }
template <class... T> std::string StrJoin(const std::tuple<T...>& t, string_view sep) { std::string r; bool first = true; std::apply([&](const auto&... a) { ((first ? void() : void(r.append(sep)), first = false, sx::AppendAny(&r, a)), ...); }, t); return r; }
template <class... T, class F> std::string StrJoin(const std::tuple<T...>& t, string_view sep, F&& f) { std::string r; bool first = true; std::apply([&](const auto&... a) { ((first ? void() : void(r.append(sep)), first = false, f(&r, a)), ...); }, t); return r; }
namespace sx { struct AlphaNumFmt { template <class T> void operator()(std::string* o, const T& t) const { AppendAny(o, t); } };
template <class F> struct DerefFmt { F f; template <class T> void operator()(std::string* o, const T& t) const { f(o, *t); } };
template <class A, class B> struct PairFmt { A a; std::string sep; B b; template <class T> void operator()(std::string* o, const T& t) const { a(o, t.first); o->append(sep); b(o, t.second); } }; }
inline sx::AlphaNumFmt AlphaNumFormatter() { return {}; }
inline sx::AlphaNumFmt StreamFormatter() { return {}; }
inline sx::DerefFmt<sx::AlphaNumFmt> DereferenceFormatter() { return {}; }
template <class F> sx::DerefFmt<F> DereferenceFormatter(F f) { return {f}; }
inline sx::PairFmt<sx::AlphaNumFmt, sx::AlphaNumFmt> PairFormatter(string_view s) { return {{}, std::string(s), {}}; }
template <class A, class B> sx::PairFmt<A, B> PairFormatter(A a, string_view s, B b) { return {a, std::string(s), b}; }

struct AllowEmpty { bool operator()(string_view) const { return true; } };
struct SkipEmpty { bool operator()(string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(string_view s) const { for (char c : s) if (!(c == ' ' || (c >= 9 && c <= 13))) return true; return false; } };
struct ByChar { char c; explicit ByChar(char x) : c(x) {} std::pair<size_t, size_t> find(string_view t, size_t p) const { size_t i = t.find(c, p); return {i, 1}; } };
struct ByString { std::string d; explicit ByString(string_view s) : d(s) {} std::pair<size_t, size_t> find(string_view t, size_t p) const { if (d.empty()) { return p + 1 < t.size() ? std::pair<size_t, size_t>{p + 1, 0} : std::pair<size_t, size_t>{string_view::npos, 0}; } size_t i = t.find(d, p); return {i, d.size()}; } };
struct ByAnyChar { std::string d; explicit ByAnyChar(string_view s) : d(s) {} std::pair<size_t, size_t> find(string_view t, size_t p) const { size_t i = t.find_first_of(d, p); return {i, 1}; } };
template <class D> struct MaxSplitsT { D d; int n; mutable int c = 0; mutable size_t last = 0; std::pair<size_t, size_t> find(string_view t, size_t p) const { if (p == 0 && c) c = 0; if (c++ == n) return {string_view::npos, 0}; return d.find(t, p); } };
namespace sx {
inline ByChar Delim(char c) { return ByChar(c); } inline ByString Delim(const char* s) { return ByString(s); } inline ByString Delim(string_view s) { return ByString(s); } inline ByString Delim(const std::string& s) { return ByString(s); }
template <class D> D Delim(D d) requires requires { d.find(string_view(), (size_t)0); } && (!std::is_convertible_v<D, string_view>) { return d; }
struct SplitResult {
  std::vector<string_view> v;
  auto begin() const { return v.begin(); } auto end() const { return v.end(); }
  template <class C> requires requires(C& c) { c.insert(c.end(), typename C::value_type(string_view())); } operator C() const { C c; for (auto x : v) c.insert(c.end(), typename C::value_type(x)); return c; }
  template <class A, class B> operator std::pair<A, B>() const { std::pair<A, B> r; if (v.size() > 0) r.first = A(v[0]); if (v.size() > 1) r.second = B(v[1]); return r; }
};
}
template <class D> auto MaxSplits(D d, int n) { auto dd = sx::Delim(d); return MaxSplitsT<decltype(dd)>{dd, n}; }
template <class D, class P> sx::SplitResult StrSplit(string_view t, D d0, P pred) {
  auto d = sx::Delim(d0); sx::SplitResult r;
  if (t.data() == nullptr) { if (pred(string_view(""))) r.v.push_back(string_view("")); return r; }
  size_t p = 0;
  for (;;) {
    auto [i, n] = d.find(t, p);
    if (i == string_view::npos) { auto x = t.substr(p); if (pred(x)) r.v.push_back(x); return r; }
    auto x = t.substr(p, i - p); if (pred(x)) r.v.push_back(x); p = i + n;
  }
}
template <class D> sx::SplitResult StrSplit(string_view t, D d) { return StrSplit(t, d, AllowEmpty()); }

// --- misc
inline bool StartsWith(string_view a, string_view b) { return a.size() >= b.size() && memcmp(a.data(), b.data(), b.size()) == 0; }
inline bool EndsWith(string_view a, string_view b) { return a.size() >= b.size() && memcmp(a.data() + a.size() - b.size(), b.data(), b.size()) == 0; }
inline bool StrContains(string_view a, string_view b) { return a.find(b) != string_view::npos; }
inline bool StrContains(string_view a, char b) { return a.find(b) != string_view::npos; }
inline bool ConsumePrefix(string_view* s, string_view p) { if (!StartsWith(*s, p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(string_view* s, string_view p) { if (!EndsWith(*s, p)) return false; s->remove_suffix(p.size()); return true; }
inline string_view StripPrefix(string_view s, string_view p) { ConsumePrefix(&s, p); return s; }
inline string_view StripSuffix(string_view s, string_view p) { ConsumeSuffix(&s, p); return s; }
inline bool ascii_isspace(unsigned char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
inline bool ascii_isdigit(unsigned char c) { return (c >= '0') & (c <= '9'); }
inline bool ascii_isupper(unsigned char c) { return (c >= 'A') & (c <= 'Z'); }
inline bool ascii_islower(unsigned char c) { return (c >= 'a') & (c <= 'z'); }
inline bool ascii_isalpha(unsigned char c) { return ascii_isupper(c) | ascii_islower(c); }
inline bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) | ascii_isdigit(c); }
inline bool ascii_isprint(unsigned char c) { return c >= 32 && c < 127; }
inline bool ascii_isxdigit(unsigned char c) { return ascii_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline char ascii_tolower(unsigned char c) { return ascii_isupper(c) ? c + 32 : c; }
inline char ascii_toupper(unsigned char c) { return ascii_islower(c) ? c - 32 : c; }
inline std::string AsciiStrToLower(string_view s) { std::string r(s); for (auto& c : r) c = ascii_tolower(c); return r; }
inline std::string AsciiStrToUpper(string_view s) { std::string r(s); for (auto& c : r) c = ascii_toupper(c); return r; }
inline string_view StripLeadingAsciiWhitespace(string_view s) { while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1); return s; }
inline string_view StripTrailingAsciiWhitespace(string_view s) { while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1); return s; }
inline string_view StripAsciiWhitespace(string_view s) { return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s)); }
inline std::string StrReplaceAll(string_view s, std::initializer_list<std::pair<string_view, string_view>> reps) {
  std::string r; size_t i = 0;
  while (i < s.size()) {
    const std::pair<string_view, string_view>* best = nullptr;
    for (auto& p : reps) if (!p.first.empty() && StartsWith(s.substr(i), p.first) && (!best || p.first.size() > best->first.size())) best = &p;
    if (best) { r.append(best->second); i += best->first.size(); } else r.push_back(s[i++]);
  }
  return r;
}
namespace sx { std::string CEsc(string_view s, bool utf8, bool hex); }
inline std::string CEscape(string_view s) { return sx::CEsc(s, false, false); }
inline std::string CHexEscape(string_view s) { return sx::CEsc(s, false, true); }
inline std::string Utf8SafeCEscape(string_view s) { return sx::CEsc(s, true, false); }
inline std::string Utf8SafeCHexEscape(string_view s) { return sx::CEsc(s, true, true); }
bool CUnescape(string_view s, std::string* out, std::string* err = nullptr);
std::string Base64Escape(string_view s);
std::string BytesToHexString(string_view s);
template <class T> bool SimpleAtoi(string_view s, T* out) {
  s = StripAsciiWhitespace(s); bool neg = false; if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty() || (neg && std::is_unsigned_v<T>)) return false;
  __int128 v = 0; for (char c : s) { if (!ascii_isdigit(c)) return false; v = v * 10 + (c - '0'); if (v > (__int128)std::numeric_limits<T>::max() + (neg ? 1 : 0)) return false; }
  *out = (T)(neg ? -v : v); return true;
}
bool SimpleAtod(string_view s, double* out);
bool SimpleAtof(string_view s, float* out);
using std::chars_format; struct from_chars_result { const char* ptr; std::errc ec; };
from_chars_result from_chars(const char* a, const char* b, double& d, std::chars_format f = std::chars_format::general);
from_chars_result from_chars(const char* a, const char* b, float& d, std::chars_format f = std::chars_format::general);

// --- Cord
class Cord {
 public:
  Cord() {} explicit Cord(string_view s) : s_(s) {} template <class T> requires std::is_same_v<T, std::string> explicit Cord(T&& s) : s_(std::move(s)) {} Cord& operator=(string_view s) { s_ = std::string(s); return *this; }
  explicit operator std::string() const { return s_; }
  size_t size() const { return s_.size(); } bool empty() const { return s_.empty(); }
  std::optional<string_view> TryFlat() const { return string_view(s_); }
  string_view Flatten() { return s_; }
  void Append(string_view s) { s_.append(s); }
  bool StartsWith(string_view p) const { return absl::StartsWith(s_, p); }
  bool ConsumePrefix(string_view p) { if (!absl::StartsWith(s_, p)) return false; s_.erase(0, p.size()); return true; }
  friend bool operator==(const Cord& a, const Cord& b) { return a.s_ == b.s_; }
  friend bool operator==(const Cord& a, string_view b) { return a.s_ == b; }
  std::shared_ptr<void> keep;
  std::string s_;
};
template <class F> Cord MakeCordFromExternal(string_view s, F&& rel) {
  Cord c; c.s_ = std::string(s);
  struct H { std::decay_t<F> f; std::string s; ~H() { if constexpr (std::is_invocable_v<std::decay_t<F>&, string_view>) f(string_view(p, n)); else f(); } const char* p; size_t n; };
  c.keep = std::shared_ptr<H>(new H{std::forward<F>(rel), std::string(), s.data(), s.size()});
  return c;
}
template <class S> void StringifyCord(S& s, const Cord& c) { s.Append(c.s_); }
}  // namespace absl
