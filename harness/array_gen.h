// Arrays in every form (constant, dense, sparse) and plain models of them, shared by several harnesses.
#pragma once
#include <string>
#include <vector>

#include "dense_util.h"
#include "arolla/array/array.h"

namespace ar {
using namespace arolla;
using du::El, du::Model;
template <class T> struct Arr { Array<T> a; Model<T> m; };
enum Forms { kAnyForm = 7, kConst = 1, kDense = 2, kSparse = 4 };

inline Buffer<int64_t> Ids(const std::vector<int64_t>& v) { return Buffer<int64_t>::Create(v.begin(), v.end()); }
template <class T> OptionalValue<T> Opt(bool present, T v) { OptionalValue<T> o; o.present = present; o.value = v; return o; }

// The ids are chosen by forking; values, presence bits and the value of the ids that are not listed are unknown.
template <class T>
Arr<T> Make(int n, int forms = kAnyForm, const char* name = "x") {
  int form = sx_pick("form", 0, 2);
  if (!(forms >> form & 1)) sx_end();
  bool has_bitmap = form != 0 && sx_pick("bitmap", 0, 1);
  std::vector<int64_t> ids;
  int off = 0;
  if (form == 2) {
    if (n < 2) sx_end();
    int mask = sx_pick("ids", 1, (1 << n) - 2);
    off = n == 3 ? 2 : 0;
    for (int i = 0; i < n; ++i) if (mask >> i & 1) ids.push_back(i + off);
  }
  int k = form == 0 ? 0 : form == 1 ? n : ids.size();
  auto d = du::Make<T>(k, has_bitmap && k == 2 ? 31 : 0, has_bitmap, k, name);
  OptionalValue<T> mv;
  if (form != 1) mv = Opt<T>(sx<bool>("mv"), sx<T>(name));
  Arr<T> r;
  for (int i = 0, j = 0; i < n; ++i) {
    if (form == 1 || (form == 2 && j < k && ids[j] == i + off)) r.m.push_back(d.m[j++]);
    else r.m.push_back({mv.present, mv.value});
  }
  if (form == 0) r.a = Array<T>(n, mv);
  else if (form == 1) r.a = Array<T>(d.a);
  else r.a = Array<T>(n, IdFilter(n, Ids(ids), off), d.a, mv);
  return r;
}
// the array has exactly the elements of the model, and is consistent in itself
template <class T, class V>
void Check(const Array<T>& a, const Model<V>& m) {
  sx_assert(a.size() == (int64_t)m.size());
  sx_assert(a.dense_data().CheckBitmapMatchesValues());
  const IdFilter& f = a.id_filter();
  if (f.type() == IdFilter::kFull) sx_assert(a.dense_data().size() == a.size());
  if (f.type() == IdFilter::kEmpty) sx_assert(a.dense_data().empty());
  if (f.type() == IdFilter::kPartial) {
    sx_assert(f.ids().size() == a.dense_data().size() && f.ids().size() < a.size() && !f.ids().empty());
    int64_t last = f.ids_offset() - 1;
    for (int64_t id : f.ids()) { sx_assert(last < id); last = id; }
    sx_assert(last < f.ids_offset() + a.size());
  }
  bool ok = true;
  int64_t present = 0;
  for (size_t i = 0; i < m.size(); ++i) {
    // read through the id filter by a linear scan, not through IdToOffset
    OptionalValue<view_type_t<T>> v = a.missing_id_value();
    if (f.type() == IdFilter::kFull) v = a.dense_data()[i];
    if (f.type() == IdFilter::kPartial)
      for (int64_t j = 0; j < f.ids().size(); ++j) if (f.ids()[j] - f.ids_offset() == (int64_t)i) v = a.dense_data()[j];
    ok &= v.present == m[i].p;
    if constexpr (!std::is_same_v<T, Unit>) ok &= !m[i].p | du::SameValue(v.value, m[i].v);
    present += m[i].p;
  }
  sx_assert(ok);
}
}  // namespace ar
