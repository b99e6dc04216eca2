#pragma once
#include <atomic>
#include "absl/sx/base.h"
#include <pthread.h>
#include <ostream>
namespace absl {
// --- int128
using uint128_raw = unsigned __int128;
class int128;
class uint128 {
 public:
  unsigned __int128 v;
  constexpr uint128() : v(0) {} template <class T> requires std::is_integral_v<T> constexpr uint128(T x) : v(x) {} constexpr uint128(unsigned __int128 x) : v(x) {} constexpr uint128(__int128 x) : v(x) {}
  template <class T> requires (std::is_integral_v<T>) constexpr explicit operator T() const { return (T)v; } constexpr explicit operator unsigned __int128() const { return v; } explicit operator double() const { return (double)v; }
#define SX_OP(o) friend constexpr uint128 operator o(uint128 a, uint128 b) { return uint128((unsigned __int128)(a.v o b.v)); } constexpr uint128& operator o##=(uint128 b) { v = v o b.v; return *this; }
  SX_OP(+) SX_OP(-) SX_OP(*) SX_OP(/) SX_OP(%) SX_OP(&) SX_OP(|) SX_OP(^)
#undef SX_OP
  friend constexpr uint128 operator<<(uint128 a, int b) { return uint128(a.v << b); } friend constexpr uint128 operator>>(uint128 a, int b) { return uint128(a.v >> b); } constexpr uint128 operator~() const { return uint128(~v); }
  friend constexpr bool operator==(uint128 a, uint128 b) { return a.v == b.v; } friend constexpr auto operator<=>(uint128 a, uint128 b) { return a.v < b.v ? std::strong_ordering::less : a.v == b.v ? std::strong_ordering::equal : std::strong_ordering::greater; }
  template <class H> friend H AbslHashValue(H h, uint128 x) { return H::combine(std::move(h), (uint64_t)(x.v >> 64), (uint64_t)x.v); }
  friend std::ostream& operator<<(std::ostream& o, uint128) { return o; }
};
class int128 {
 public:
  __int128 v;
  constexpr int128() : v(0) {} template <class T> requires (std::is_integral_v<T>) constexpr int128(T x) : v(x) {} constexpr int128(__int128 x) : v(x) {} constexpr explicit int128(uint128 x) : v((__int128)x.v) {} explicit int128(double d) : v((__int128)d) {} explicit int128(float d) : v((__int128)d) {}
  template <class T> requires (std::is_integral_v<T>) constexpr explicit operator T() const { return (T)v; } explicit operator double() const { return (double)v; } explicit operator float() const { return (float)v; }
#define SX_OP(o) friend constexpr int128 operator o(int128 a, int128 b) { return int128((__int128)(a.v o b.v)); } constexpr int128& operator o##=(int128 b) { v = v o b.v; return *this; }
  SX_OP(+) SX_OP(-) SX_OP(*) SX_OP(/) SX_OP(%) SX_OP(&) SX_OP(|) SX_OP(^)
#undef SX_OP
  constexpr int128 operator-() const { return int128(-v); } friend constexpr bool operator==(int128 a, int128 b) { return a.v == b.v; } friend constexpr auto operator<=>(int128 a, int128 b) { return a.v < b.v ? std::strong_ordering::less : a.v == b.v ? std::strong_ordering::equal : std::strong_ordering::greater; }
  friend constexpr int128 operator<<(int128 a, int b) { return int128(a.v << b); } friend constexpr int128 operator>>(int128 a, int b) { return int128(a.v >> b); }
};
constexpr uint128 MakeUint128(uint64_t h, uint64_t l) { return uint128(((unsigned __int128)h << 64) | l); }
constexpr int128 MakeInt128(int64_t h, uint64_t l) { return int128((__int128)(((unsigned __int128)(uint64_t)h << 64) | l)); }
constexpr uint64_t Uint128High64(uint128 x) { return (uint64_t)(x.v >> 64); } constexpr uint64_t Uint128Low64(uint128 x) { return (uint64_t)x.v; }
constexpr int64_t Int128High64(int128 x) { return (int64_t)(x.v >> 64); } constexpr uint64_t Int128Low64(int128 x) { return (uint64_t)x.v; }

// --- functional
template <class S> class FunctionRef;
template <class R, class... A> class FunctionRef<R(A...)> {
 public:
  template <class F> requires (!std::is_same_v<std::remove_cvref_t<F>, FunctionRef> && std::is_invocable_r_v<R, F&, A...> && !std::is_function_v<std::remove_reference_t<F>> && !std::is_pointer_v<std::remove_cvref_t<F>>) FunctionRef(const F& f) : o_((void*)&f), c_([](void* o, A... a) -> R { return std::invoke(*(F*)o, std::forward<A>(a)...); }) {}
  template <class F> requires std::is_function_v<F> FunctionRef(F* f) : o_((void*)f), c_([](void* o, A... a) -> R { return ((F*)o)(std::forward<A>(a)...); }) {}
  R operator()(A... a) const { return c_(o_, std::forward<A>(a)...); }
 private: void* o_; R (*c_)(void*, A...);
};
template <class S> class AnyInvocable;
namespace sx { template <class R, class... A> struct AnyB { virtual ~AnyB() = default; virtual R call(A... a) = 0; }; template <class F, class R, class... A> struct AnyI : AnyB<R, A...> { F f; template <class G> explicit AnyI(G&& g) : f(std::forward<G>(g)) {} R call(A... a) override { if constexpr (!std::is_invocable_v<F&, A...>) { if constexpr (std::is_void_v<R>) std::invoke(std::move(f), std::forward<A>(a)...); else return std::invoke(std::move(f), std::forward<A>(a)...); } else if constexpr (std::is_void_v<R>) std::invoke(f, std::forward<A>(a)...); else return std::invoke(f, std::forward<A>(a)...); } }; 
template <class R, class... A> class AnyBase {
 public:
  AnyBase() {} AnyBase(std::nullptr_t) {} AnyBase(AnyBase&&) = default; AnyBase& operator=(AnyBase&&) = default; 
  template <class F> requires (!std::is_base_of_v<AnyBase, std::remove_cvref_t<F>> && (std::is_invocable_r_v<R, std::decay_t<F>&, A...> || std::is_invocable_r_v<R, std::decay_t<F>, A...>)) AnyBase(F&& f) : p_(new AnyI<std::decay_t<F>, R, A...>(std::forward<F>(f))) {}
  explicit operator bool() const { return p_ != nullptr; } friend bool operator==(const AnyBase& a, std::nullptr_t) { return !a.p_; } friend bool operator!=(const AnyBase& a, std::nullptr_t) { return !!a.p_; }
 protected: std::unique_ptr<AnyB<R, A...>> p_; };
}
#define SX_ANY(Q) template <class R, class... A> class AnyInvocable<R(A...) Q> : public sx::AnyBase<R, A...> { public: using sx::AnyBase<R, A...>::AnyBase; AnyInvocable() {} AnyInvocable(AnyInvocable&&) = default; AnyInvocable& operator=(AnyInvocable&&) = default; R operator()(A... a) Q { return this->p_->call(std::forward<A>(a)...); } };
SX_ANY() SX_ANY(const) SX_ANY(&&) SX_ANY(&)
template <class F> class [[nodiscard]] Cleanup { public: Cleanup(F f) : f_(std::move(f)) {} ~Cleanup() { if (on_) f_(); } void Cancel() && { on_ = false; } void Invoke() && { on_ = false; f_(); } Cleanup(const Cleanup&) = delete; private: F f_; bool on_ = true; };
template <class F> Cleanup(F) -> Cleanup<F>;
template <class F> Cleanup<F> MakeCleanup(F f) { return Cleanup<F>(std::move(f)); }

// --- synchronisation
class Mutex { public: constexpr Mutex() : m_(PTHREAD_MUTEX_INITIALIZER) {} constexpr explicit Mutex(ConstInitType) : Mutex() {} void Lock() { pthread_mutex_lock(&m_); } void Unlock() { pthread_mutex_unlock(&m_); } void ReaderLock() { Lock(); } void ReaderUnlock() { Unlock(); } void WriterLock() { Lock(); } void WriterUnlock() { Unlock(); } void lock() { Lock(); } void unlock() { Unlock(); } void lock_shared() { Lock(); } void unlock_shared() { Unlock(); } bool TryLock() { return pthread_mutex_trylock(&m_) == 0; } void AssertHeld() const {} void AssertReaderHeld() const {} pthread_mutex_t m_; };
class [[nodiscard]] MutexLock { public: explicit MutexLock(Mutex* m) : m_(m) { m->Lock(); } explicit MutexLock(Mutex& m) : MutexLock(&m) {} ~MutexLock() { m_->Unlock(); } MutexLock(const MutexLock&) = delete; private: Mutex* m_; };
class [[nodiscard]] ReaderMutexLock { public: explicit ReaderMutexLock(Mutex* m) : m_(m) { m->Lock(); } explicit ReaderMutexLock(Mutex& m) : ReaderMutexLock(&m) {} ~ReaderMutexLock() { m_->Unlock(); } ReaderMutexLock(const ReaderMutexLock&) = delete; private: Mutex* m_; };
class [[nodiscard]] WriterMutexLock { public: explicit WriterMutexLock(Mutex* m) : m_(m) { m->Lock(); } explicit WriterMutexLock(Mutex& m) : WriterMutexLock(&m) {} ~WriterMutexLock() { m_->Unlock(); } WriterMutexLock(const WriterMutexLock&) = delete; private: Mutex* m_; };
class Barrier { public: explicit Barrier(int n) : n_(n) {} bool Block() { pthread_mutex_lock(&m_); bool last = --n_ == 0; if (last) pthread_cond_broadcast(&c_); else while (n_) pthread_cond_wait(&c_, &m_); pthread_mutex_unlock(&m_); return last; } private: int n_; pthread_mutex_t m_ = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c_ = PTHREAD_COND_INITIALIZER; };
class Notification {  // as in Abseil, notifying twice is an error
 public:
  void Notify() { pthread_mutex_lock(&m_); if (d_.load(std::memory_order_relaxed)) ::sx_fail("absl::Notification notified twice"); d_.store(true, std::memory_order_release); pthread_cond_broadcast(&c_); pthread_mutex_unlock(&m_); }
  bool HasBeenNotified() const { return d_.load(std::memory_order_acquire); }
  void WaitForNotification() const { pthread_mutex_lock(&m_); while (!d_.load(std::memory_order_relaxed)) pthread_cond_wait(&c_, &m_); pthread_mutex_unlock(&m_); }
  // the deadline may pass at any time: modelled as passing at once
  bool WaitForNotificationWithDeadline(struct Time) const;
 private:
  std::atomic<bool> d_{false}; mutable pthread_mutex_t m_ = PTHREAD_MUTEX_INITIALIZER; mutable pthread_cond_t c_ = PTHREAD_COND_INITIALIZER;
};
// --- time
struct Duration { int64_t ns = 0; }; inline Duration Milliseconds(int64_t n) { return {n * 1000000}; } inline Duration Seconds(int64_t n) { return {n * 1000000000}; }
struct Time { int64_t ns = 0; friend auto operator<=>(const Time&, const Time&) = default; template <class H> friend H AbslHashValue(H h, const Time& t) { return H::combine(std::move(h), t.ns); } friend Duration operator-(Time a, Time b) { return {a.ns - b.ns}; } friend Time operator+(Time a, Duration b) { return {a.ns + b.ns}; } }; inline bool Notification::WaitForNotificationWithDeadline(Time) const { return HasBeenNotified(); } inline Time Now() { return {12345}; } inline Time InfiniteFuture() { return {INT64_MAX}; } inline Time InfinitePast() { return {INT64_MIN}; } inline int64_t ToUnixSeconds(Time t) { return t.ns / 1000000000; }
// --- random (only a deterministic source is modelled)
class BitGen { public: using result_type = uint64_t; uint64_t s = 88172645463325252ull; template <class S> explicit BitGen(const S&) {} BitGen() {} uint64_t operator()() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } };
using InsecureBitGen = BitGen;
class BitGenRef { public: template <class G> BitGenRef(G&) {} using result_type = uint64_t; uint64_t operator()() { return 4; } };
struct IntervalClosedT {}; struct IntervalOpenT {}; inline constexpr IntervalClosedT IntervalClosed{}; inline constexpr IntervalOpenT IntervalOpen{}; inline constexpr IntervalClosedT IntervalClosedClosed{};
template <class T = void, class G, class A, class B> auto Uniform(G&& g, A a, B b) { using R = std::conditional_t<std::is_void_v<T>, std::common_type_t<A, B>, T>; if constexpr (std::is_floating_point_v<R>) return (R)(a + (b - a) * ((g() >> 11) * 0x1.0p-53)); else return (R)(a + (R)(g() % (uint64_t)(b - a))); }
template <class T, class G> T Uniform(G&& g) { return (T)g(); }
template <class G> bool Bernoulli(G&& g, double p) { return ((g() >> 11) * 0x1.0p-53) < p; }
template <class F> struct FlagT { F v; };
}
#define ABSL_FLAG(T, n, d, h) ::absl::FlagT<T> FLAGS_##n{d}
#define ABSL_DECLARE_FLAG(T, n) extern ::absl::FlagT<T> FLAGS_##n
namespace absl { template <class T> T GetFlag(const FlagT<T>& f) { return f.v; } template <class T, class U> void SetFlag(FlagT<T>* f, const U& u) { f->v = u; } }
