// Harness interface. Under the symbolic executor these are builtins; the native replay
// build (sx_native.cc) reads the same values from a file instead.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>

extern "C" {
uint64_t sx_var(const char* name, unsigned bits);
void sx_assume(bool c);
void sx_assert_at(bool c, const char* msg);
void sx_fail(const char* msg);
void sx_observe(uint64_t v);
void sx_note(const char* name, uint64_t v);
void sx_reach(const char* label);
uint64_t sx_concretize(uint64_t v);
unsigned sx_shard(unsigned n);
void sx_end();
bool sx_is_symbolic(uint64_t v);
bool sx_engine();
uint64_t sx_live_heap();
void sx_print(const char* msg, uint64_t v);
void sx_yield();
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define sx_assert(c) sx_assert_at((c), __FILE__ ":" SX_STR(__LINE__) ": " #c)
#define SX_ENTRY(name) extern "C" void name()

template <class T>
inline T sx(const char* name) {
  if constexpr (std::is_same_v<T, bool>) {
    return sx_var(name, 1) & 1;
  } else if constexpr (std::is_floating_point_v<T>) {
    T r;
    if constexpr (sizeof(T) == 4) { uint32_t b = (uint32_t)sx_var(name, 32); memcpy(&r, &b, 4); }
    else { uint64_t b = sx_var(name, 64); memcpy(&r, &b, 8); }
    return r;
  } else {
    return (T)sx_var(name, sizeof(T) * 8);
  }
}
// value in [lo, hi], concretised: every value is explored as a path of its own
inline int64_t sx_pick(const char* name, int64_t lo, int64_t hi) {
  if (lo == hi) return lo;
  uint64_t v = sx_var(name, 32);
  sx_assume(v <= (uint64_t)(hi - lo));
  return lo + (int64_t)sx_concretize(v);
}
// value in [lo, hi], symbolic
template <class T = int64_t>
inline T sx_range(const char* name, T lo, T hi) {
  T v = sx<T>(name);
  sx_assume((v >= lo) & (v <= hi));
  return v;
}
template <class T>
inline void sx_obs(T v) {
  if constexpr (sizeof(T) == 4 && std::is_floating_point_v<T>) { if (v != v) { sx_observe(0x7fc00000u); return; } uint32_t b; memcpy(&b, &v, 4); sx_observe(b); }
  else if constexpr (std::is_floating_point_v<T>) { if (v != v) { sx_observe(0x7ff8000000000000ull); return; } uint64_t b; memcpy(&b, &v, 8); sx_observe(b); }
  else sx_observe((uint64_t)v);
}
// Bit-exact equality, with all NaNs identified.
template <class T>
inline bool sx_same(T a, T b) {
  if constexpr (std::is_floating_point_v<T>) {
    using U = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
    U x, y; memcpy(&x, &a, sizeof a); memcpy(&y, &b, sizeof b);
    return (x == y) | ((a != a) & (b != b));
  } else return a == b;
}
