// Source-level stand-in for the parts of Abseil that arolla uses. Abseil itself is a
// dependency, not the code under test; see DESIGN.md for what this replacement models.
#pragma once
#include <algorithm>
#include <atomic>
#include <pthread.h>
#include <cassert>
#include <stddef.h>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

using std::nullptr_t;
extern "C" {
void sx_fail(const char* msg);
bool sx_is_symbolic(uint64_t v);
bool sx_engine();
uint64_t sx_fmt_g(uint64_t bits, unsigned prec, char* out);
}

#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#define ABSL_NULLABILITY_COMPATIBLE
#define ABSL_ATTRIBUTE_ALWAYS_INLINE
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define ABSL_ATTRIBUTE_REINITIALIZES
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#define ABSL_ATTRIBUTE_VIEW
#define ABSL_ATTRIBUTE_OWNER
#define ABSL_ATTRIBUTE_NO_SANITIZE_UNDEFINED
#define ABSL_ATTRIBUTE_WEAK __attribute__((weak))
#define ABSL_MUST_USE_RESULT
#define ABSL_CONST_INIT
#define ABSL_GUARDED_BY(x)
#define ABSL_PT_GUARDED_BY(x)
#define ABSL_LOCKS_EXCLUDED(...)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_SHARED_LOCKS_REQUIRED(...)
#define ABSL_NO_THREAD_SAFETY_ANALYSIS
#define ABSL_SCOPED_LOCKABLE
#define ABSL_LOCKABLE
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_UNREACHABLE() ::sx_fail("ABSL_UNREACHABLE")
#define ABSL_ASSERT(x) assert(x)
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
#define ABSL_ANNOTATE_MEMORY_IS_INITIALIZED(a, n) do { (void)(a); (void)(n); } while (0)
#define ABSL_CACHELINE_SIZE 64
#define ABSL_CACHELINE_ALIGNED
#define ABSL_DEPRECATED(x)
#define ABSL_HAVE_ATTRIBUTE(x) 0
#define ABSL_DIE_IF_NULL(x) (x)

namespace absl {
using std::string_view;
using std::make_unique;
template <class T> using Nonnull = T;
template <class T> using Nullable = T;
template <class T> using NullabilityUnknown = T;
template <class T> using decay_t = std::decay_t<T>;
template <class T> using remove_cvref_t = std::remove_cvref_t<T>;
template <class T> using type_identity_t = std::type_identity_t<T>;
template <bool B, class T = void> using enable_if_t = std::enable_if_t<B, T>;
template <class... T> using void_t = std::void_t<T...>;
template <class T> using type_identity = std::type_identity<T>;
template <class To, class From> To bit_cast(const From& f) { To t; memcpy(&t, &f, sizeof t); return t; }
template <class T> std::unique_ptr<T> WrapUnique(T* p) { return std::unique_ptr<T>(p); }
template <class T> T implicit_cast(std::type_identity_t<T> t) { return t; }
inline string_view NullSafeStringView(const char* p) { return p ? string_view(p) : string_view(); }
template <class F, class... A> auto bind_front(F&& f, A&&... a) { return std::bind_front(std::forward<F>(f), std::forward<A>(a)...); }
template <class F, class Tup> decltype(auto) apply(F&& f, Tup&& t) { return std::apply(std::forward<F>(f), std::forward<Tup>(t)); }
using std::in_place; using std::in_place_t; using std::nullopt; using std::optional; using std::variant; using std::get_if; using std::visit; using std::holds_alternative;
using std::exchange; using std::index_sequence; using std::make_index_sequence;
enum ConstInitType { kConstInit };

template <class T> class NoDestructor {
 public:
  template <class... A> explicit constexpr NoDestructor(A&&... a) { new (&b_) T(std::forward<A>(a)...); }
  NoDestructor(const T& t) { new (&b_) T(t); }
  NoDestructor(T&& t) { new (&b_) T(std::move(t)); }
  T& operator*() { return *get(); } const T& operator*() const { return *get(); }
  T* operator->() { return get(); } const T* operator->() const { return get(); }
  T* get() { return reinterpret_cast<T*>(&b_); } const T* get() const { return reinterpret_cast<const T*>(&b_); }
 private:
  alignas(T) unsigned char b_[sizeof(T)];
};
template <class T> NoDestructor(T) -> NoDestructor<T>;

class once_flag { public: constexpr once_flag() = default; std::atomic<bool> done{false}; pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; };
template <class F, class... A> void call_once(once_flag& f, F&& fn, A&&... a) {
  if (f.done.load(std::memory_order_acquire)) return;
  pthread_mutex_lock(&f.m);
  if (!f.done.load(std::memory_order_relaxed)) { std::invoke(std::forward<F>(fn), std::forward<A>(a)...); f.done.store(true, std::memory_order_release); }
  pthread_mutex_unlock(&f.m);
}

namespace sx {
struct NullStream { template <class T> NullStream& operator<<(const T&) { return *this; } NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } };
struct FailStream : NullStream { explicit FailStream(const char* m) { ::sx_fail(m); __builtin_trap(); } template <class T> FailStream& operator<<(const T&) { return *this; } };
struct Voidify { template <class T> void operator&&(T&&) const {} };
}
}  // namespace absl

#define SX_S2(x) #x
#define SX_S1(x) SX_S2(x)
#define SX_CHECK(c, m) switch (0) case 0: default: if (c) [[likely]] {} else ::absl::sx::FailStream(__FILE__ ":" SX_S1(__LINE__) ": CHECK " m)
#define CHECK(c) SX_CHECK((c), #c)
#define PCHECK(c) CHECK(c)
#define CHECK_EQ(a, b) SX_CHECK((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) SX_CHECK((a) != (b), #a " != " #b)
#define CHECK_LT(a, b) SX_CHECK((a) < (b), #a " < " #b)
#define CHECK_LE(a, b) SX_CHECK((a) <= (b), #a " <= " #b)
#define CHECK_GT(a, b) SX_CHECK((a) > (b), #a " > " #b)
#define CHECK_GE(a, b) SX_CHECK((a) >= (b), #a " >= " #b)
#define CHECK_OK(s) SX_CHECK(::absl::sx::IsOk(s), #s " is OK")
#define QCHECK CHECK
#define ABSL_CHECK CHECK
#ifdef SX_NO_DCHECK
#define SX_DC(c, m) SX_CHECK(true || (c), m)
#define DCHECK(c) SX_DC((c), #c)
#define DCHECK_EQ(a, b) SX_DC((a) == (b), #a " == " #b)
#define DCHECK_NE(a, b) SX_DC((a) != (b), #a " != " #b)
#define DCHECK_LT(a, b) SX_DC((a) < (b), #a " < " #b)
#define DCHECK_LE(a, b) SX_DC((a) <= (b), #a " <= " #b)
#define DCHECK_GT(a, b) SX_DC((a) > (b), #a " > " #b)
#define DCHECK_GE(a, b) SX_DC((a) >= (b), #a " >= " #b)
#define DCHECK_OK(s) SX_DC(::absl::sx::IsOk(s), #s " is OK")
#else
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
#define DCHECK_OK CHECK_OK
#endif
#define SX_LOG_INFO ::absl::sx::NullStream()
#define SX_LOG_WARNING ::absl::sx::NullStream()
#define SX_LOG_ERROR ::absl::sx::NullStream()
#define SX_LOG_DFATAL ::absl::sx::NullStream()
#define SX_LOG_FATAL ::absl::sx::FailStream(__FILE__ ":" SX_S1(__LINE__) ": LOG(FATAL)")
#define LOG(x) SX_LOG_##x
#define LOG_IF(x, c) if (!(c)) {} else LOG(x)
#define LOG_FIRST_N(x, n) LOG(x)
#define LOG_EVERY_N_SEC(x, n) LOG(x)
#define VLOG(n) ::absl::sx::NullStream()
