// Ordered search (util/binary_search.h, util/algorithms.h) against the defining condition.
// SX-SRCS: arolla/util/binary_search.cc arolla/util/algorithms.cc
#include <cstdlib>
#include <list>
#include <vector>

#include "sx.h"
#include "absl/types/span.h"
#include "arolla/util/algorithms.h"
#include "arolla/util/binary_search.h"

namespace {
#ifdef SX_THOROUGH
constexpr int kMax = 18;
#else
constexpr int kMax = 9;
#endif

template <class T>
struct Sorted {
  T* p;
  size_t n;
  explicit Sorted(size_t n) : n(n) {
    p = (T*)malloc(n * sizeof(T));
    for (size_t i = 0; i < n; ++i) {
      p[i] = sx<T>("a");
      sx_assume(p[i] == p[i]);
      if (i) sx_assume(p[i - 1] <= p[i]);
    }
  }
  ~Sorted() { free(p); }
};

// For a NaN value every element is "not less" and none is "greater", as with
// std::lower_bound / std::upper_bound.
template <class T>
void Bounds() {
  Sorted<T> s(sx_pick("size", 0, kMax));
  T v = sx<T>("value");
  absl::Span<const T> a(s.p, s.n);
  size_t lb = arolla::LowerBound(v, a), ub = arolla::UpperBound(v, a);
  sx_obs(lb); sx_obs(ub);
  sx_assert((lb <= s.n) & (ub <= s.n));
  for (size_t i = 0; i < s.n; ++i) {
    sx_assert((s.p[i] < v) == (i < lb));
    sx_assert(!(v < s.p[i]) == (i < ub));
  }
  if (lb < ub) sx_reach("value present");
  if (v != v) sx_reach("NaN"); 
}
template <class T>
void Galloping() {
  Sorted<T> s(sx_pick("size", 0, kMax));
  T v = sx<T>("value");
  const T* r = arolla::GallopingLowerBound<T, const T*>(s.p, s.p + s.n, v);
  sx_obs(r - s.p);
  sx_assert((r >= s.p) & (r <= s.p + s.n));
  for (size_t i = 0; i < s.n; ++i) sx_assert((s.p[i] < v) == (i < (size_t)(r - s.p)));
}
template <class T>
void Exp() {
  Sorted<T> s(sx_pick("size", 0, kMax));
  T v = sx<T>("value");
  const T* r = arolla::exp_lower_bound((const T*)s.p, (const T*)s.p + s.n, v);
  sx_obs(r - s.p);
  sx_assert((r >= s.p) & (r <= s.p + s.n));
  for (size_t i = 0; i < s.n; ++i) sx_assert((s.p[i] < v) == (i < (size_t)(r - s.p)));
  // forward-only iterators and a comparator of the caller's own
  std::list<T> l(s.p, s.p + s.n);
  auto it = arolla::exp_lower_bound(l.begin(), l.end(), v, [](const T& a, const T& b) { return a < b; });
  sx_assert((size_t)std::distance(l.begin(), it) == (size_t)(r - s.p));
}
}  // namespace

SX_ENTRY(bounds_i32) { Bounds<int32_t>(); sx_reach("i32"); }  // sx: bound=arrays_up_to_9_(18_thorough)
SX_ENTRY(bounds_i64) { Bounds<int64_t>(); }  // sx: bound=arrays_up_to_9_(18_thorough)
SX_ENTRY(bounds_f32) { Bounds<float>(); }  // sx: bound=arrays_up_to_9_(18_thorough)
SX_ENTRY(bounds_f64) { Bounds<double>(); }  // sx: bound=arrays_up_to_9_(18_thorough)
SX_ENTRY(galloping_i32) { Galloping<int32_t>(); }  // sx: bound=arrays_up_to_9_(18_thorough)
SX_ENTRY(galloping_f32) { Galloping<float>(); }  // sx: bound=arrays_up_to_9_(18_thorough)
SX_ENTRY(exp_i32) { Exp<int32_t>(); }  // sx: bound=arrays_up_to_9_(18_thorough)
SX_ENTRY(exp_f64) { Exp<double>(); }  // sx: bound=arrays_up_to_9_(18_thorough)
