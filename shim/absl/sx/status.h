#pragma once
#include "absl/sx/base.h"
#include "absl/sx/strings.h"
namespace absl {
class SourceLocation { public: constexpr SourceLocation() {} static constexpr SourceLocation current() { return {}; } const char* file_name() const { return ""; } int line() const { return 0; } };
enum class StatusCode : int { kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16 };
enum class StatusToStringMode : int { kWithNoExtraData = 0, kWithPayload = 1, kWithSourceLocation = 2, kWithEverything = ~0, kDefault = 1 };
inline std::string StatusCodeToString(StatusCode c) { return StrCat("code", (int)c); }
template <class S> void AbslStringify(S& s, StatusCode c) { s.Append(StatusCodeToString(c)); }
class [[nodiscard]] Status {
  struct Rep { StatusCode code; std::string msg; std::vector<std::pair<std::string, Cord>> pl; };
 public:
  Status() = default;
  Status(StatusCode c, string_view m) { if (c != StatusCode::kOk) r_ = std::make_shared<Rep>(Rep{c, std::string(m), {}}); }
  Status(StatusCode c, string_view m, SourceLocation) : Status(c, m) {}
  bool ok() const { return r_ == nullptr; }
  StatusCode code() const { return r_ ? r_->code : StatusCode::kOk; }
  int raw_code() const { return (int)code(); }
  string_view message() const { return r_ ? string_view(r_->msg) : string_view(); }
  std::string ToString(StatusToStringMode = StatusToStringMode::kDefault) const { return ok() ? "OK" : StrCat("status ", (int)code(), ": ", message()); }
  void Update(const Status& o) { if (ok()) *this = o; }
  void IgnoreError() const {}
  std::optional<Cord> GetPayload(string_view u) const { if (r_) for (auto& p : r_->pl) if (p.first == u) return p.second; return std::nullopt; }
  void SetPayload(string_view u, Cord c) { if (!r_) return; own(); for (auto& p : r_->pl) if (p.first == u) { p.second = std::move(c); return; } r_->pl.push_back({std::string(u), std::move(c)}); }
  bool ErasePayload(string_view u) { if (!r_) return false; own(); for (size_t i = 0; i < r_->pl.size(); i++) if (r_->pl[i].first == u) { r_->pl.erase(r_->pl.begin() + i); return true; } return false; }
  template <class F> void ForEachPayload(F&& f) const { if (r_) for (auto& p : r_->pl) f(p.first, p.second); }
  Span<const SourceLocation> GetSourceLocations() const { return {}; }
  void AddSourceLocation(SourceLocation = {}) {}
  friend bool operator==(const Status& a, const Status& b) { return a.code() == b.code() && a.message() == b.message(); }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  friend std::ostream& operator<<(std::ostream& o, const Status& s) { return o; }
  template <class S> friend void AbslStringify(S& s, const Status& x) { s.Append(x.ToString()); }
 private:
  void own() { if (r_.use_count() > 1) r_ = std::make_shared<Rep>(*r_); }
  std::shared_ptr<Rep> r_;
};
inline Status OkStatus() { return Status(); }
#define SX_ERR(n) inline Status n##Error(string_view m) { return Status(StatusCode::k##n, m); } inline bool Is##n(const Status& s) { return s.code() == StatusCode::k##n; }
SX_ERR(Cancelled) SX_ERR(Unknown) SX_ERR(InvalidArgument) SX_ERR(DeadlineExceeded) SX_ERR(NotFound) SX_ERR(AlreadyExists) SX_ERR(PermissionDenied) SX_ERR(ResourceExhausted) SX_ERR(FailedPrecondition) SX_ERR(Aborted) SX_ERR(OutOfRange) SX_ERR(Unimplemented) SX_ERR(Internal) SX_ERR(Unavailable) SX_ERR(DataLoss) SX_ERR(Unauthenticated)

template <class T> class [[nodiscard]] StatusOr;
namespace sx {
template <class T> struct IsStatusOr : std::false_type {}; template <class T> struct IsStatusOr<StatusOr<T>> : std::true_type {};
template <class T> bool IsOk(const T& t) { return t.ok(); }
}
template <class T>
class [[nodiscard]] StatusOr {
  template <class U> friend class StatusOr;
  using V = std::conditional_t<std::is_reference_v<T>, std::remove_reference_t<T>*, T>;
 public:
  using value_type = T;
  StatusOr() : s_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : s_(s) { if (s_.ok()) ::sx_fail("StatusOr constructed from an OK status"); }
  StatusOr(Status&& s) : s_(std::move(s)) { if (s_.ok()) ::sx_fail("StatusOr constructed from an OK status"); }
  template <class U> requires (std::is_convertible_v<U, Status> && !std::is_same_v<std::remove_cvref_t<U>, Status> && !std::is_convertible_v<U, T> && !sx::IsStatusOr<std::remove_cvref_t<U>>::value && !std::is_same_v<std::remove_cvref_t<U>, StatusOr>) StatusOr(U&& u) : s_(Status(std::forward<U>(u))) {}
  template <class U = T> requires (std::is_constructible_v<T, U&&> && std::is_convertible_v<U&&, T> && !std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, Status> && (!sx::IsStatusOr<std::remove_cvref_t<U>>::value || sx::IsStatusOr<T>::value) && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t>) StatusOr(U&& u) { construct(std::forward<U>(u)); }
  template <class U = T> requires (std::is_constructible_v<T, U&&> && !std::is_convertible_v<U&&, T> && !std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, Status> && !std::is_convertible_v<U&&, Status> && !sx::IsStatusOr<std::remove_cvref_t<U>>::value && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t>) explicit StatusOr(U&& u) { construct(std::forward<U>(u)); }
  template <class... A> explicit StatusOr(std::in_place_t, A&&... a) { v_.emplace(std::forward<A>(a)...); }
  template <class U> requires (!std::is_same_v<T, U> && std::is_constructible_v<T, const U&>) StatusOr(const StatusOr<U>& o) : s_(o.s_) { if (o.ok()) construct(*o); }
  template <class U> requires (!std::is_same_v<T, U> && std::is_constructible_v<T, U&&>) StatusOr(StatusOr<U>&& o) : s_(o.s_) { if (o.ok()) construct(*std::move(o)); }
  StatusOr(const StatusOr&) = default; StatusOr(StatusOr&&) = default; StatusOr& operator=(const StatusOr&) = default; StatusOr& operator=(StatusOr&&) = default;
  template <class U> requires (std::is_constructible_v<T, U&&> && !std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, Status> && !sx::IsStatusOr<std::remove_cvref_t<U>>::value) StatusOr& operator=(U&& u) { s_ = Status(); construct(std::forward<U>(u)); return *this; }
  StatusOr& operator=(const Status& s) { v_.reset(); s_ = s; return *this; }
  StatusOr& operator=(Status&& s) { v_.reset(); s_ = std::move(s); return *this; }
  bool ok() const { return s_.ok(); }
  const Status& status() const& { return s_; } Status status() && { return s_; }
  std::conditional_t<std::is_reference_v<T>, T, const V&> operator*() const& { chk(); return get(); }
  std::conditional_t<std::is_reference_v<T>, T, V&> operator*() & { chk(); return get(); }
  std::conditional_t<std::is_reference_v<T>, T, V&&> operator*() && { chk(); if constexpr (std::is_reference_v<T>) return get(); else return std::move(get()); }
  decltype(auto) value() const& { return **this; } decltype(auto) value() & { return **this; } decltype(auto) value() && { return *std::move(*this); }
  auto* operator->() const { chk(); return &get(); } auto* operator->() { chk(); return &get(); }
  template <class U> T value_or(U&& d) const& { return ok() ? **this : static_cast<T>(std::forward<U>(d)); }
  template <class U> T value_or(U&& d) && { return ok() ? *std::move(*this) : static_cast<T>(std::forward<U>(d)); }
  template <class... A> V& emplace(A&&... a) { s_ = Status(); v_.emplace(std::forward<A>(a)...); return *v_; }
  void IgnoreError() const {}
  friend bool operator==(const StatusOr& a, const StatusOr& b) { return a.ok() ? b.ok() && *a == *b : a.s_ == b.s_; }
 private:
  template <class U> void construct(U&& u) { if constexpr (std::is_reference_v<T>) v_.emplace(&u); else v_.emplace(std::forward<U>(u)); }
  void chk() const { if (!s_.ok()) { ::sx_fail("value of a failed StatusOr accessed"); __builtin_trap(); } }
  auto& get() const { if constexpr (std::is_reference_v<T>) return **v_; else return *v_; } auto& get() { if constexpr (std::is_reference_v<T>) return **v_; else return *v_; }
  Status s_; std::optional<V> v_;
};
class StatusBuilder {
 public:
  explicit StatusBuilder(const Status& s, SourceLocation = {}) : s_(s) {} explicit StatusBuilder(Status&& s, SourceLocation = {}) : s_(std::move(s)) {} explicit StatusBuilder(StatusCode c, SourceLocation = {}) : s_(c, "") {}
  template <class T> explicit StatusBuilder(const StatusOr<T>& s) : s_(s.status()) {}
  template <class T> StatusBuilder& operator<<(const T& t) & { add(t); return *this; } template <class T> StatusBuilder&& operator<<(const T& t) && { add(t); return std::move(*this); }
  StatusBuilder& SetAppend() & { return *this; } StatusBuilder&& SetAppend() && { return std::move(*this); } StatusBuilder& SetPrepend() & { return *this; } StatusBuilder&& SetPrepend() && { return std::move(*this); }
  StatusBuilder& SetCode(StatusCode c) & { s_ = Status(c, s_.message()); return *this; } StatusBuilder&& SetCode(StatusCode c) && { s_ = Status(c, s_.message()); return std::move(*this); }
  template <class F> auto With(F&& f) & { return std::forward<F>(f)(*this); } template <class F> auto With(F&& f) && { return std::forward<F>(f)(std::move(*this)); }
  operator Status() const& { return fin(); } operator Status() && { return fin(); }
  template <class T> operator StatusOr<T>() const { return StatusOr<T>(fin()); }
  bool ok() const { return s_.ok(); } StatusCode code() const { return s_.code(); } SourceLocation source_location() const { return {}; }
 private:
  template <class T> void add(const T& t) { sx::AppendAny(&m_, t); }
  Status fin() const { if (m_.empty() || s_.ok()) return s_; Status r(s_.code(), StrCat(s_.message(), "; ", m_)); s_.ForEachPayload([&](const auto& u, const auto& c) { r.SetPayload(u, c); }); return r; }
  Status s_; std::string m_;
};
namespace sx { template <class T> Status GetSt(T&& t) { if constexpr (std::is_convertible_v<T&&, Status>) return Status(std::forward<T>(t)); else return std::forward<T>(t).status(); } }
}  // namespace absl
#define SX_CAT2(a, b) a##b
#define SX_CAT(a, b) SX_CAT2(a, b)
#define RETURN_IF_ERROR(e) \
  switch (0) case 0: default: \
  if (::absl::Status sx_st_ = ::absl::sx::GetSt(e); sx_st_.ok()) [[likely]] {} else return ::absl::StatusBuilder(std::move(sx_st_))
#define SX_AOR2(l, e, n) auto n = (e); if (!n.ok()) [[unlikely]] return std::move(n).status(); l = *std::move(n)
#define SX_AOR3(l, e, err, n) auto n = (e); if (!n.ok()) [[unlikely]] { ::absl::StatusBuilder _(std::move(n).status()); (void)_; return (err); } l = *std::move(n)
#define SX_UNP(...) SX_UNP_ __VA_ARGS__
#define SX_AOR_PICK(_1, _2, _3, N, ...) N
#define SX_AOR2X(l, e) SX_AOR2(SX_PAREN(l), e, SX_CAT(sx_so_, __COUNTER__))
#define SX_AOR3X(l, e, r) SX_AOR3(SX_PAREN(l), e, r, SX_CAT(sx_so_, __COUNTER__))
// strips one level of parentheses when the argument has them
#define SX_EMPTY(...)
#define SX_PROBE(...) , 1
#define SX_SECOND(a, b, ...) b
#define SX_ISP(x) SX_SECOND_(SX_PROBE x, 0)
#define SX_SECOND_(...) SX_SECOND(__VA_ARGS__, 0)
#define SX_STRIP(...) __VA_ARGS__
#define SX_PAREN1(x) SX_STRIP x
#define SX_PAREN0(x) x
#define SX_PAREN(x) SX_CAT(SX_PAREN, SX_ISP(x))(x)
#define ASSIGN_OR_RETURN(...) SX_AOR_PICK(__VA_ARGS__, SX_AOR3X, SX_AOR2X)(__VA_ARGS__)
