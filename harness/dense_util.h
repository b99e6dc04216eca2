// Symbolic dense arrays and plain models of them, shared by several harnesses.
#pragma once
#include <optional>
#include <string>
#include <vector>

#include "sx.h"
#include "arolla/dense_array/dense_array.h"

namespace du {
using namespace arolla;
using bitmap::Word;
// one element: p tells whether it is present
template <class T> struct El { bool p; T v; El(int q, T x) : p(q != 0), v(x) {} };
template <class T> using Model = std::vector<El<T>>;
template <class T> struct Arr { DenseArray<T> a; Model<T> m; };

inline bitmap::Bitmap Bm(const std::vector<Word>& w) { return bitmap::Bitmap::Create(w.begin(), w.end()); }
// n elements with unknown values; presence of elements in [n-unknown, n) and of element 0 is unknown,
// the rest alternates; the bitmap starts at bit `off`. Bits outside of the array are ones and zeros mixed.
// has: 0 no bitmap, 1 bitmap
template <class T>
Arr<T> Make(int n, int off, bool has, int unknown = 4, const char* name = "x", bool few_values = false) {
  Arr<T> r;
  std::vector<T> vals;
  std::vector<Word> w((n + off + 31) / 32, 0xA5A5A5A5u);
  for (int i = 0; i < n; ++i) {
    // with few_values, only some values near the word edge are unknown
    T v = few_values && !(i >= 30 && i < 34) ? T(i * 5 + 1) : sx<T>(name);
    bool p = true;
    if (has) {
      p = i == 0 || i >= n - unknown ? sx<bool>("p") : (i % 3 != 1);
      Word b = Word{1} << ((i + off) & 31);
      Word& x = w[(i + off) >> 5];
      x = (x & ~b) | (Word{p} << ((i + off) & 31));
    }
    vals.push_back(v);
    r.m.push_back({p, v});
  }
  r.a.values = Buffer<T>::Create(vals.begin(), vals.end());
  if (has) { r.a.bitmap = Bm(w); r.a.bitmap_bit_offset = off; }
  return r;
}
template <class T>
bool SameValue(const T& a, const T& b) { return sx_same(a, b); }
inline bool SameValue(absl::string_view a, const std::string& b) { return a == absl::string_view(b); }
// the array has exactly the elements of the model, and its bitmap fits
template <class T, class M>
void Check(const DenseArray<T>& a, const Model<M>& m) {
  sx_assert(a.size() == (int64_t)m.size());
  sx_assert(a.CheckBitmapMatchesValues());
  bool ok = true;
  for (size_t i = 0; i < m.size(); ++i) {
    ok &= a.present(i) == m[i].p;
    if constexpr (!std::is_same_v<T, Unit>) ok &= !m[i].p | SameValue(a.values[i], m[i].v);
  }
  sx_assert(ok);
}
}  // namespace du
