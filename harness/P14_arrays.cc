// Arrays in constant, dense and sparse form (array/{id_filter,array,array_util,ops_util,pointwise_op}).
// SX-SRCS: arolla/array/array.cc arolla/array/array_util.cc arolla/array/id_filter.cc arolla/dense_array/bitmap.cc arolla/dense_array/dense_array.cc arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc arolla/util/preallocated_buffers.cc arolla/util/status.cc arolla/util/fingerprint.cc
// SX-FLAGS: -I$VERIF/harness/stub_protobuf
#include "array_gen.h"
#include "arolla/array/array_util.h"
#include "arolla/array/ops_util.h"
#include "arolla/array/pointwise_op.h"

#ifdef SX_THOROUGH
constexpr bool kThorough = true;
#else
constexpr bool kThorough = false;
#endif
using namespace arolla;
using ar::Arr, ar::Check, ar::El, ar::Ids, ar::Make, ar::Model, ar::Opt;
namespace {
constexpr int kMax = kThorough ? 4 : 3;
struct Filter { IdFilter f; std::vector<int64_t> ids; };  // ids start at zero
// k increasing unknown ids below size, in a buffer that starts counting at `off`
Filter UnknownIds(int k, int64_t size, int64_t off, const char* name, bool narrow = true) {
  std::vector<int64_t> v, with_off;
  for (int i = 0; i < k; ++i) {
    int64_t id = narrow ? (int64_t)sx<uint8_t>(name) : sx<int64_t>(name);
    sx_assume((id >= (v.empty() ? 0 : v.back() + 1)) & (id < size));
    v.push_back(id);
    with_off.push_back(id + off);
  }
  return {IdFilter(size, Ids(with_off), off), v};
}
// any filter over n elements, ids chosen by forking
Filter AnyFilter(int n, int off) {
  int mask = sx_pick("filter", 0, (1 << n) - 1);
  std::vector<int64_t> v, w;
  for (int i = 0; i < n; ++i) if (mask >> i & 1) { v.push_back(i); w.push_back(i + off); }
  return {IdFilter(n, Ids(w), off), v};
}
bool In(const IdFilter& f, int64_t x) {
  bool r = f.type() == IdFilter::kFull;
  if (f.type() == IdFilter::kPartial) for (int64_t i : f.ids()) r |= i == x + f.ids_offset();
  return r;
}
bool Has(const std::vector<int64_t>& v, int64_t x) { bool r = false; for (int64_t i : v) r |= i == x; return r; }
}  // namespace

SX_ENTRY(id_to_offset) {  // sx: bound=up_to_4_unknown_ids,_any_size_and_offset
  int k = sx_pick("k", 0, kThorough ? 5 : 4);
  int64_t size = sx_range<int64_t>("size", 1, int64_t{1} << 40), off = sx_range<int64_t>("off", 0, int64_t{1} << 40);
  auto f = UnknownIds(k, size, off, "id", false);
  int64_t id = sx<int64_t>("query");
  sx_assume((id >= 0) & (id < size));
  auto r = f.f.IdToOffset(id);
  if (f.f.type() == IdFilter::kFull) { sx_assert(size == k && r.present && r.value == id); return; }
  sx_assert(size != k);
  sx_assert(f.f.type() == (k ? IdFilter::kPartial : IdFilter::kEmpty));
  sx_assert(r.present == Has(f.ids, id));
  if (r.present) { sx_assert(f.ids[r.value] == id); sx_assert(f.f.IdsOffsetToId(r.value) == id); }
}
SX_ENTRY(common_ids) {  // sx: shards=4 bound=up_to_3_unknown_ids_(4_in_thorough)_below_200
  int k1 = 1 + sx_shard(4), k2 = sx_pick("k2", 1, kMax);
  if (k1 > kMax) sx_end();
  int64_t size = 200;
  auto a = UnknownIds(k1, size, 5, "a"), b = UnknownIds(k2, size, sx_pick("off", 0, 1) * 1000, "b");
  std::vector<int64_t> got;
  IdFilter::IntersectPartial_ForEach(a.f, b.f, [&](int64_t id, int64_t i, int64_t j) {
    sx_assert(i >= 0 && i < k1 && j >= 0 && j < k2);
    sx_assert(a.ids[i] == id && b.ids[j] == id);
    sx_assert(got.empty() || got.back() < id);
    got.push_back(id);
  });
  size_t want = 0;
  for (int64_t i : a.ids) want += Has(b.ids, i);
  sx_assert(got.size() == want);
  if (want) sx_reach("common");
}
SX_ENTRY(merge) {  // sx: shards=6 bound=up_to_2_unknown_ids_in_each_of_3_filters,_sizes_1,_2,_4,_8,_9_and_30
  int k[3];
  for (int& x : k) x = sx_pick("k", 0, 2);
  int64_t size = (int[]){1, 2, 4, 8, 9, 30}[sx_shard(6)];
  Filter f[3] = {UnknownIds(k[0], size, 3, "a"), UnknownIds(k[1], size, 0, "b"), {IdFilter(IdFilter::kEmpty), {}}};
  if (k[2] == 1) f[2] = {IdFilter(IdFilter::kFull), {}};
  if (k[2] == 2) f[2] = f[0];
  bool full = k[2] == 1 || f[0].f.type() == IdFilter::kFull || f[1].f.type() == IdFilter::kFull;
  auto check = [&](const IdFilter& r, bool exact) {
    int64_t id = sx<int64_t>("query");
    sx_assume((id >= 0) & (id < size));
    bool any = Has(f[0].ids, id) | Has(f[1].ids, id);
    if (r.type() == IdFilter::kFull) return;
    sx_assert(!full);
    sx_assert(In(r, id) == any);
    if (r.type() == IdFilter::kPartial) {
      int64_t last = r.ids_offset() - 1;
      for (int64_t i : r.ids()) { sx_assert(last < i); last = i; }
      sx_assert(last < size + r.ids_offset());
    }
  };
  check(IdFilter::UpperBoundMerge(size, GetHeapBufferFactory(), f[0].f, f[1].f, f[2].f), true);
  check(IdFilter::UpperBoundMerge(size, GetHeapBufferFactory(), f[2].f, f[1].f, f[0].f), true);
  // intersection: one of the filters, with all ids that are in each
  const IdFilter& r = IdFilter::UpperBoundIntersect(f[0].f, f[1].f, f[2].f);
  int64_t id = sx<int64_t>("query");
  sx_assume((id >= 0) & (id < size));
  bool all = true;
  for (auto& x : f) all &= In(x.f, id);
  sx_assert(!all | In(r, id));
  bool one = false;
  for (auto& x : f) one |= r.IsSame(x.f);
  sx_assert(one);
}
SX_ENTRY(same_filter) {
  auto a = UnknownIds(2, 100, 0, "a");
  sx_assert(a.f.IsSame(IdFilter(a.f)));
  sx_assert(!a.f.IsSame(IdFilter(IdFilter::kFull)) && !a.f.IsSame(IdFilter(IdFilter::kEmpty)));
  sx_assert(IdFilter(IdFilter::kFull).IsSame(IdFilter(IdFilter::kFull)));
  sx_assert(!IdFilter(IdFilter::kFull).IsSame(IdFilter(IdFilter::kEmpty)));
  // same buffer seen with another offset, or only part of it
  Buffer<int64_t> ids = Ids({5, 7, 9});
  sx_assert(!IdFilter(20, ids, 0).IsSame(IdFilter(20, ids, 3)));
  sx_assert(!IdFilter(20, ids, 0).IsSame(IdFilter(20, ids.Slice(0, 2), 0)));
  sx_assert(!IdFilter(20, ids, 0).IsSame(IdFilter(20, ids.Slice(1, 2), 0)));
  sx_assert(IdFilter(20, ids, 3).IsSame(IdFilter(30, ids, 3)));
}

namespace {
template <class T>
void Views(int n) {
  auto x = Make<T>(n);
  const Array<T>& a = x.a;
  Check(a, x.m);
  Model<T> got, reps;
  int64_t count = 0;
  bool ok = true;
  for (int i = 0; i < n; ++i) {
    auto v = a[i];
    ok &= v.present == x.m[i].p;
    ok &= !x.m[i].p | du::SameValue(v.value, x.m[i].v);
    count += x.m[i].p;
  }
  sx_assert(ok);
  sx_assert(a.empty() == (n == 0));
  sx_assert(a.PresentCount() == count);
  int next = 0;
  a.ForEach([&](int64_t id, bool p, T v) {
    ok &= id == next;
    if (next < n) { ok &= p == x.m[next].p; ok &= !p | du::SameValue(v, x.m[next].v); }
    ++next;
  });
  sx_assert(ok && next == n);
  next = 0;
  a.ForEach([&](int64_t id, bool p, T v) {
    ok &= id == next;
    if (next < n) { ok &= p == x.m[next].p; ok &= !p | du::SameValue(v, x.m[next].v); }
    ++next;
  }, [&](int64_t id, int64_t k, bool p, T v) {
    ok &= id == next;
    ok &= (k > 0) | (n == 0);
    for (int64_t i = 0; i < k && next < n; ++i, ++next) { ok &= p == x.m[next].p; ok &= !p | du::SameValue(v, x.m[next].v); }
  });
  sx_assert(ok && next == n);
  // present elements only, in order
  next = 0;
  auto skip = [&](int64_t id) { for (; next < id && next < n; ++next) ok &= !x.m[next].p; ok &= id == next; };
  a.ForEachPresent([&](int64_t id, T v) {
    skip(id);
    ok &= next < n && x.m[next].p & du::SameValue(v, x.m[next].v);
    ++next;
  });
  skip(n);
  sx_assert(ok);
  next = 0;
  a.ForEachPresent([&](int64_t id, T v) {
    skip(id);
    ok &= next < n && x.m[next].p & du::SameValue(v, x.m[next].v);
    ++next;
  }, [&](int64_t id, int64_t k, T v) {
    skip(id);
    ok &= (k > 0) | (n == 0);
    for (int64_t i = 0; i < k && next < n; ++i, ++next) ok &= x.m[next].p & du::SameValue(v, x.m[next].v);
  });
  skip(n);
  sx_assert(ok);
  next = 0;
  for (auto it = a.begin(); it != a.end(); ++it, ++next) {
    OptionalValue<T> v = *it;
    ok &= v.present == x.m[next].p;
    ok &= !v.present | du::SameValue(v.value, x.m[next].v);
  }
  sx_assert(ok && next == n);
  // copies that own and do not own their memory
  Check(a.MakeOwned(), x.m);
  sx_assert(a.MakeOwned().is_owned());
  Check(a.MakeUnowned(), x.m);
  Check(a.MakeUnowned().MakeOwned(), x.m);
  Check(ArenaTraits<Array<T>>::MakeOwned(a.MakeUnowned(), GetHeapBufferFactory()), x.m);
}
}  // namespace
SX_ENTRY(views) { Views<int>(sx_pick("n", 0, kMax)); }  // sx: bound=up_to_3_elements_(4_in_thorough)
SX_ENTRY(views_float) { Views<float>(sx_pick("n", 0, 2)); }
SX_ENTRY(slice) {  // sx: bound=up_to_3_elements_(4_in_thorough),_slices_of_slices
  int n = sx_pick("n", 0, kMax);
  auto x = Make<int>(n);
  int b = sx_pick("from", 0, n), k = sx_pick("count", 0, n - b);
  Array<int> s = x.a.Slice(b, k);
  Model<int> m(x.m.begin() + b, x.m.begin() + b + k);
  Check(s, m);
  int b2 = sx_pick("from2", 0, k), k2 = k - b2;
  Check(s.Slice(b2, k2), Model<int>(m.begin() + b2, m.end()));
  Check(s.ToDenseForm(), m);
  int64_t c = 0;
  for (auto& e : m) c += e.p;
  sx_assert(s.PresentCount() == c);
}
SX_ENTRY(with_ids) {  // sx: shards=4 bound=up_to_3_elements,_every_form_to_every_id_filter
  int n = sx_shard(4);
  auto x = Make<int>(n);
  auto f = AnyFilter(n, sx_pick("off", 0, 1) * 4);
  auto mv = Opt<int>(sx<bool>("new_mv"), sx<int>("new_v"));
  Array<int> r = x.a.WithIds(f.f, mv);
  for (int i = 0; i < n; ++i) if (!Has(f.ids, i)) x.m[i] = {mv.present, mv.value};
  Check(r, x.m);
}
SX_ENTRY(with_ids_wide) {  // sx: bound=34_elements,_sparse_ones_at_a_word_edge
  int n = 34;
  auto d = du::Make<int>(n, sx_pick("bit", 0, 1), true, 3, "x", true);
  Array<int> a(d.a);
  std::vector<int64_t> ids, all;
  for (int i = 0; i < n; ++i) { all.push_back(i); if (i != 5) ids.push_back(i); }
  IdFilter f(n, Ids(ids));
  auto mv = Opt<int>(sx<bool>("mv"), 7);
  Array<int> s = a.WithIds(f, mv);
  auto m = d.m;
  m[5] = {mv.present, 7};
  Check(s, m);
  Check(s.ToDenseForm(), m);
  Check(s.ToSparseForm(), m);
  Check(s.ToSparseForm(7), m);
  auto again = s.WithIds(IdFilter(n, Ids({0, 5, 31, 32, 33})), std::nullopt);
  for (int i = 0; i < n; ++i) if (i != 0 && i != 5 && i < 31) m[i] = {false, 0};
  Check(again, m);
}
SX_ENTRY(sparse_form) {  // sx: shards=4 bound=up_to_3_elements
  int n = sx_shard(4);
  auto x = Make<int>(n);
  auto mv = Opt<int>(sx<bool>("new_mv"), sx<int>("new_v"));
  Array<int> r = x.a.ToSparseForm(mv);
  Check(r, x.m);
  // nothing that equals the default is stored, unless all is
  if (r.IsSparseForm() && !mv.present) sx_assert(r.dense_data().bitmap.empty() || x.a.dense_data().bitmap.empty());
  if (r.IsSparseForm() && mv.present) {
    for (int64_t i = 0; i < r.dense_data().size(); ++i) sx_assert(!r.dense_data().present(i) || r.dense_data().values[i] != mv.value);
  }
  Check(x.a.ToDenseForm(), x.m);
  sx_assert(x.a.ToDenseForm().IsDenseForm() || n == 0);
}
SX_ENTRY(float_forms) {  // sx: bound=2_elements_with_any_float_values
  auto x = Make<float>(2);
  auto mv = Opt<float>(sx<bool>("new_mv"), sx<float>("new_v"));
  if (sx_pick("sparse", 0, 1)) {
    Array<float> r = x.a.ToSparseForm(mv);
    // zeros of either sign are one value here
    sx_assert(r.size() == 2);
    for (int i = 0; i < 2; ++i) {
      auto v = r[i];
      sx_assert(v.present == x.m[i].p);
      sx_assert(!v.present | sx_same(v.value, x.m[i].v) | (v.value == x.m[i].v));
    }
  } else {
    auto f = AnyFilter(2, 1);
    Array<float> r = x.a.WithIds(f.f, mv);
    for (int i = 0; i < 2; ++i) if (!Has(f.ids, i)) x.m[i] = {mv.present, mv.value};
    Check(r, x.m);
  }
}
SX_ENTRY(unit_forms) {  // sx: bound=up_to_3_elements
  int n = sx_pick("n", 0, 3);
  auto i = Make<int>(n);
  Array<Unit> u = ToArrayMask(i.a);
  Model<Unit> m;
  for (auto& e : i.m) m.push_back({e.p, Unit{}});
  Check(u, m);
  Check(u.ToDenseForm(), m);
  Check(u.ToSparseForm(), m);
  Check(u.ToSparseForm(kUnit), m);
  int max = sx_pick("max", 0, n + 1) - 1;
  std::vector<int64_t> ids;
  for (int j = 0; j < n; ++j) if (m[j].p) ids.push_back(j);
  auto first = ArrayFirstPresentIds(u, max), last = ArrayLastPresentIds(u, max);
  size_t want = std::min<size_t>(ids.size(), std::max(max, 0));
  sx_assert(first.size() == want && last.size() == want);
  for (size_t j = 0; j < want; ++j) sx_assert(first[j] == ids[j] && last[j] == ids[ids.size() - 1 - j]);
}
namespace {
// arrays of texts; lengths chosen by forking, bytes unknown
std::string Str() { std::string s; for (int k = sx_pick("len", 0, 1); k-- > 0;) s.push_back(sx<char>("c")); return s; }
}  // namespace
SX_ENTRY(text_forms) {  // sx: shards=3 bound=2_texts_of_up_to_1_byte,_every_form_to_every_filter
  int n = 2, form = sx_shard(3);
  int mask = form == 2 ? sx_pick("ids", 1, 2) : form == 1 ? 3 : 0;
  bool mvp = form != 1 && sx_pick("mv", 0, 1);
  std::string mv = mvp ? Str() : "";
  std::vector<OptionalValue<Bytes>> vals;
  std::vector<int64_t> ids;
  Model<std::string> m;
  for (int i = 0; i < n; ++i) {
    if (!(mask >> i & 1)) { m.push_back({mvp, mv}); continue; }
    ids.push_back(i);
    bool p = sx_pick("p", 0, 1);
    std::string s = p ? Str() : "";
    m.push_back({p, s});
    vals.push_back(p ? OptionalValue<Bytes>(Bytes(s)) : OptionalValue<Bytes>());
  }
  auto dense = CreateDenseArray<Bytes>(vals);
  OptionalValue<Bytes> omv = mvp ? OptionalValue<Bytes>(Bytes(mv)) : OptionalValue<Bytes>();
  Array<Bytes> a = form == 0 ? Array<Bytes>(n, omv) : form == 1 ? Array<Bytes>(dense) : Array<Bytes>(n, IdFilter(n, Ids(ids)), dense, omv);
  Check(a, m);
  Check(a.Slice(1, 1), Model<std::string>(m.begin() + 1, m.end()));
  bool np = sx_pick("new_mv", 0, 1);
  std::string nv = np ? Str() : "";
  OptionalValue<Bytes> nmv = np ? OptionalValue<Bytes>(Bytes(nv)) : OptionalValue<Bytes>();
  Check(a.ToSparseForm(nmv), m);
  Check(a.ToDenseForm(), m);
  auto f = AnyFilter(n, 0);
  Array<Bytes> r = a.WithIds(f.f, nmv);
  for (int i = 0; i < n; ++i) if (!Has(f.ids, i)) m[i] = {np, nv};
  Check(r, m);
  Check(r.MakeOwned(), m);
}
SX_ENTRY(equivalent) {  // sx: shards=4 bound=up_to_2_elements_(3_in_thorough)_in_every_form
  int n1 = sx_shard(4), n2 = n1;
  if (n1 == 3 && !kThorough) sx_end();
  if (n1 == 1) n2 = sx_pick("n2", 0, 1);
  auto x = Make<int>(n1), y = Make<int>(n2);
  bool same = n1 == n2;
  for (int i = 0; same && i < n1; ++i) {
    bool e = (x.m[i].p == y.m[i].p) & (!x.m[i].p | (x.m[i].v == y.m[i].v));
    if (!e) same = false;
  }
  sx_assert(ArraysAreEquivalent(x.a, y.a) == same);
}
SX_ENTRY(equivalent_sparse) {  // sx: bound=12_elements,_up_to_2_of_them_listed
  int n = 12;
  Arr<int> x[2];
  for (auto& r : x) {
    r.m.assign(n, El<int>(false, 0));
    auto mv = Opt<int>(sx<bool>("mv"), sx<int>("v"));
    int i = sx_pick("i", 0, 2), j = sx_pick("j", 1, 2) + i;
    std::vector<int64_t> ids{i, j};
    auto d = du::Make<int>(2, 0, sx_pick("bitmap", 0, 1), 2);
    for (auto& e : r.m) e = {mv.present, mv.value};
    r.m[i] = d.m[0]; r.m[j] = d.m[1];
    r.a = Array<int>(n, IdFilter(n, Ids(ids)), d.a, mv);
  }
  bool same = true;
  for (int i = 0; i < n; ++i) same &= (x[0].m[i].p == x[1].m[i].p) & (!x[0].m[i].p | (x[0].m[i].v == x[1].m[i].v));
  bool r = ArraysAreEquivalent(x[0].a, x[1].a);
  sx_assert(r == same);
  if (r) sx_reach("equal");
}
// equal fingerprints only for equal arrays; equal content in the same form gives equal fingerprints
SX_ENTRY(fingerprint) {  // sx: shards=4 bound=slices_of_up_to_3_elements
  int n = sx_shard(4);
  auto x = Make<int>(n);
  int k = sx_pick("count", 0, n), b1 = sx_pick("from1", 0, n - k), b2 = sx_pick("from2", 0, n - k);
  Array<int> s = x.a.Slice(b1, k), t = x.a.Slice(b2, k);
  bool same = true;
  for (int i = 0; i < k; ++i) {
    auto &p = x.m[b1 + i], &q = x.m[b2 + i];
    bool e = (p.p == q.p) & (!p.p | (p.v == q.v));
    if (!e) same = false;
  }
  bool equal = FingerprintHasher("").Combine(s).Finish() == FingerprintHasher("").Combine(t).Finish();
  sx_assert(!equal || same);
  if (b1 == b2) sx_assert(equal);
  sx_assert(FingerprintHasher("").Combine(s).Finish() == FingerprintHasher("").Combine(s.MakeOwned()).Finish());
}
SX_ENTRY(fingerprint_pair) {  // sx: bound=two_arrays_of_2_elements
  auto x = Make<int>(2), y = Make<int>(2);
  bool same = true;
  for (int i = 0; i < 2; ++i) {
    bool e = (x.m[i].p == y.m[i].p) & (!x.m[i].p | (x.m[i].v == y.m[i].v));
    if (!e) same = false;
  }
  bool equal = FingerprintHasher("").Combine(x.a).Finish() == FingerprintHasher("").Combine(y.a).Finish();
  sx_assert(!equal || same);
  if (equal) sx_reach("equal");
}
SX_ENTRY(create) {  // sx: bound=up_to_9_elements,_up_to_3_of_them_given
  int n = sx_pick("n", 0, 9);
  std::vector<int64_t> ids;
  std::vector<OptionalValue<int>> vals;
  std::vector<int> full;
  Model<int> m(n, El<int>(false, 0)), mf = m;
  int at = 0;
  for (int k = sx_pick("k", 0, std::min(n, 3)); k > 0; --k) {
    at = sx_pick("id", at, n - k);
    if (at > 3 && at != n - k) sx_end();
    auto v = Opt<int>(sx<bool>("p"), sx<int>("v"));
    m[at] = {v.present, v.value};
    mf[at] = {true, v.value};
    ids.push_back(at++);
    vals.push_back(v);
    full.push_back(v.value);
  }
  Check(CreateArray<int, OptionalValue<int>>(n, ids, vals), m);
  Check(CreateArray<int, int>(n, ids, full), mf);
  SparseArrayBuilder<int> b(n, 3), b2(n, 3);
  for (size_t i = 0; i < ids.size(); ++i) {
    sx_assert(b.NextOffset() == (int64_t)i);
    b.Add(ids[i], vals[i]);
    b2.AddId(ids[i]);
  }
  for (size_t i = ids.size(); i-- > 0;) b2.SetByOffset(i, vals[i]);
  Check(std::move(b).Build(), m);
  Check(std::move(b2).Build(), m);
  std::vector<OptionalValue<int>> all;
  for (auto& e : m) all.push_back(Opt<int>(e.p, e.v));
  Check(CreateArray<int>(absl::Span<const OptionalValue<int>>(all)), m);
}
SX_ENTRY(to_dense) {  // sx: bound=up_to_3_elements
  int n = sx_pick("n", 0, 3);
  auto x = Make<int>(n);
  auto d = ToDenseArray(x.a);
  du::Check(d, x.m);
  sx_assert(d.bitmap_bit_offset == 0);
  bool full = true;
  for (auto& e : x.m) full &= e.p;
  auto b = ToBuffer(x.a);
  sx_assert(b.ok() == full);
  if (b.ok()) {
    sx_assert(b->size() == n);
    for (int i = 0; i < n; ++i) sx_assert((*b)[i] == x.m[i].v);
  }
}
SX_ENTRY(subset) {  // sx: shards=4 bound=up_to_3_elements,_every_subset
  int n = sx_shard(4);
  auto x = Make<int>(n);
  int off = sx_pick("off", 0, 1) * 5, mask = sx_pick("subset", 0, (1 << n) - 1);
  std::vector<int> sub;
  std::vector<int64_t> want;
  for (int i = 0; i < n; ++i) if (mask >> i & 1) { sub.push_back(i + off); want.push_back(i); }
  size_t next = 0;
  ArrayForEachInSubset(x.a, absl::Span<const int>(sub), off, [&](int64_t id, bool p, int v) {
    sx_assert(next < want.size() && id == want[next]);
    sx_assert((p == x.m[id].p) & (!p | (v == x.m[id].v)));
    ++next;
  });
  sx_assert(next == want.size());
}

namespace {
enum { kRequired = 0, kMixed = 1, kOptional = 2 };
int Fn(int a, int b) { return (int)((unsigned)a * 3u + (unsigned)b); }
template <class X, class Y> int64_t Key(X x, Y y) {
  auto k = [](auto v) -> unsigned {
    if constexpr (std::is_same_v<decltype(v), int>) return (unsigned)v; else return v.present ? (unsigned)v.value : 0x77777u;
  };
  return (int)(k(x) * 3u + k(y));
}
template <class X, class Y>
bool Valid(const El<int>& a, const El<int>& b) { return (is_optional_v<X> | a.p) & (is_optional_v<Y> | b.p); }
template <class X, class Y>
int Want(const El<int>& a, const El<int>& b) {
  return (int)((a.p ? (unsigned)a.v : 0x77777u) * 3u + (b.p ? (unsigned)b.v : 0x77777u));
}
template <class X, class Y>
void Pointwise(int n) {
  auto x = Make<int>(n), y = Make<int>(n);
  auto op = CreateArrayOp([](X a, Y b) -> int { return (int)Key(a, b); });
  auto r = op(x.a, y.a);
  sx_assert(r.ok());
  Model<int> m;
  for (int i = 0; i < n; ++i) m.push_back({Valid<X, Y>(x.m[i], y.m[i]), Want<X, Y>(x.m[i], y.m[i])});
  Check(*r, m);
}
}  // namespace
SX_ENTRY(pointwise) { Pointwise<int, int>(sx_shard(3)); }  // sx: shards=3 bound=two_arrays_of_up_to_2_elements_in_every_form
SX_ENTRY(pointwise_mixed) { Pointwise<int, OptionalValue<int>>(sx_shard(3)); }  // sx: shards=3 bound=two_arrays_of_up_to_2_elements_in_every_form
SX_ENTRY(pointwise_optional) { Pointwise<OptionalValue<int>, OptionalValue<int>>(sx_shard(3)); }  // sx: shards=3 bound=two_arrays_of_up_to_2_elements_in_every_form
// an error exactly when some element gives an error
SX_ENTRY(pointwise_error) {  // sx: shards=3 bound=two_arrays_of_up_to_2_elements_in_every_form
  int n = sx_shard(3);
  auto x = Make<int>(n), y = Make<int>(n);
  auto op = CreateArrayOp([](int a, int b) -> absl::StatusOr<OptionalValue<int>> {
    if (a == 7 && b == 9) return absl::InvalidArgumentError("bad");
    return Opt<int>(b != 3, Fn(a, b));
  });
  auto r = op(x.a, y.a);
  bool ok = true;
  Model<int> m;
  for (int i = 0; i < n; ++i) {
    auto &p = x.m[i], &q = y.m[i];
    ok &= !(p.p & q.p & (p.v == 7) & (q.v == 9));
    m.push_back({p.p & q.p & (q.v != 3), Fn(p.v, q.v)});
  }
  sx_assert(r.ok() == ok);
  if (r.ok()) Check(*r, m);
}
SX_ENTRY(pointwise_sparse) {  // sx: bound=12_elements,_one_or_two_listed_in_each_array
  int n = 12;
  Arr<int> x[2];
  for (auto& r : x) {
    auto mv = Opt<int>(sx<bool>("mv"), sx<int>("v"));
    std::vector<int64_t> ids{sx_pick("i", 2, 3)};
    if (sx_pick("two", 0, 1)) ids.push_back(4);
    auto d = du::Make<int>(ids.size(), 0, sx_pick("bitmap", 0, 1), 2);
    r.m.assign(n, El<int>(mv.present, mv.value));
    for (size_t i = 0; i < ids.size(); ++i) r.m[ids[i]] = d.m[i];
    r.a = Array<int>(n, IdFilter(n, Ids(ids)), d.a, mv);
  }
  auto check = [&](auto op, bool opt) {
    auto r = op(x[0].a, x[1].a);
    sx_assert(r.ok());
    Model<int> m;
    for (int i = 0; i < n; ++i) {
      auto &p = x[0].m[i], &q = x[1].m[i];
      m.push_back({p.p & (opt | q.p), Want<int, int>(p, q)});
    }
    Check(*r, m);
  };
  check(CreateArrayOp([](int a, int b) -> int { return (int)Key(a, b); }), false);
  check(CreateArrayOp([](int a, OptionalValue<int> b) -> int { return (int)Key(a, b); }), true);
}
SX_ENTRY(pointwise_sizes) {
  int n = sx_pick("n", 0, 2), k = sx_pick("k", 0, 2);
  Array<int> a(n, 1), b(k, 2);
  auto r = CreateArrayOp([](int x, int y) -> int { return x + y; })(a, b);
  sx_assert(r.ok() == (n == k));
}

namespace {
template <class X, class Y, bool kToDense>
void Iterate(int n) {
  auto x = Make<int>(n), y = Make<int>(n);
  array_ops_internal::ArrayOpsUtil<kToDense, meta::type_list<X, Y>> u(n, x.a, y.a);
  sx_assert(u.size() == n);
  int64_t valid = 0;
  for (int i = 0; i < n; ++i) valid += Valid<X, Y>(x.m[i], y.m[i]);
  int64_t est = u.PresentCountUpperEstimate();
  sx_assert(est >= valid && est <= n);
  int from = sx_pick("from", 0, n), to = sx_pick("to", from, n);
  bool ok = true;
  int64_t next = from;
  auto one = [&](int64_t id, X a, Y b) {
    ok &= (id == next) & (id < to);
    ++next;
    if (id < 0 || id >= n) return;
    ok &= Valid<X, Y>(x.m[id], y.m[id]);
    ok &= Key(a, b) == Want<X, Y>(x.m[id], y.m[id]);
  };
  auto none = [&](int64_t id, int64_t k) {
    ok &= (id == next) & (k > 0) & (id + k <= to);
    for (int64_t i = id; i < id + k && i < n; ++i) ok &= !Valid<X, Y>(x.m[i], y.m[i]);
    next += k;
  };
  auto rep = [&](int64_t id, int64_t k, X a, Y b) {
    ok &= k > 0;
    for (int64_t i = 0; i < k && i < n; ++i) one(id + i, a, b);
  };
  u.Iterate(from, to, one, none, rep);
  sx_assert(ok && next == to);
  next = from;
  u.Iterate(from, to, one, none);
  sx_assert(ok && next == to);
  // only the valid ones
  next = 0;
  auto skip = [&](int64_t id) { for (; next < id && next < n; ++next) ok &= !Valid<X, Y>(x.m[next], y.m[next]); ok &= next == id; };
  auto only = [&](int64_t id, X a, Y b) {
    skip(id);
    ok &= id < n && Valid<X, Y>(x.m[id], y.m[id]);
    ok &= Key(a, b) == Want<X, Y>(x.m[id], y.m[id]);
    ++next;
  };
  u.IterateSimple(only);
  skip(n);
  sx_assert(ok);
  next = 0;
  if (kToDense) ArraysIterateDense(only, x.a, y.a); else ArraysIterate(only, x.a, y.a);
  skip(n);
  sx_assert(ok);
}
}  // namespace
SX_ENTRY(iterate) { Iterate<int, int, false>(sx_shard(3)); }  // sx: shards=3 bound=two_arrays_of_up_to_2_elements_in_every_form,_all_ranges
SX_ENTRY(iterate_mixed) { Iterate<OptionalValue<int>, int, false>(sx_shard(3)); }  // sx: shards=3 bound=two_arrays_of_up_to_2_elements_in_every_form,_all_ranges
SX_ENTRY(iterate_optional) { Iterate<OptionalValue<int>, OptionalValue<int>, false>(sx_shard(3)); }  // sx: shards=3 bound=two_arrays_of_up_to_2_elements_in_every_form,_all_ranges
SX_ENTRY(iterate_dense) { Iterate<int, OptionalValue<int>, true>(sx_shard(3)); }  // sx: shards=3 bound=two_arrays_of_up_to_2_elements_in_every_form,_all_ranges
SX_ENTRY(iterate_sparse) {  // sx: bound=12_elements,_two_listed_in_each_array,_some_ranges
  int n = 12;
  Arr<int> x[2];
  for (auto& r : x) {
    auto mv = Opt<int>(sx<bool>("mv"), sx<int>("v"));
    std::vector<int64_t> ids{sx_pick("i", 2, 3), 4};
    auto d = du::Make<int>(ids.size(), 0, false, 2);
    r.m.assign(n, El<int>(mv.present, mv.value));
    for (size_t i = 0; i < ids.size(); ++i) r.m[ids[i]] = d.m[i];
    r.a = Array<int>(n, IdFilter(n, Ids(ids)), d.a, mv);
  }
  array_ops_internal::ArrayOpsUtil<false, meta::type_list<int, int>> u(n, x[0].a, x[1].a);
  int from = sx_pick("from", 1, 5), to = sx_pick("to", from, 6);
  int64_t next = from;
  bool ok = true;
  auto valid = [&](int64_t i) { return Valid<int, int>(x[0].m[i], x[1].m[i]); };
  auto rep = [&](int64_t id, int64_t k, int a, int b) {
    ok &= (id == next) & (k > 0) & (id + k <= to);
    for (int64_t i = id; i < id + k && i < n; ++i) ok &= valid(i) & (Key(a, b) == Want<int, int>(x[0].m[i], x[1].m[i]));
    next += k;
  };
  u.Iterate(from, to, [&](int64_t id, int a, int b) { rep(id, 1, a, b); },
            [&](int64_t id, int64_t k) {
              ok &= (id == next) & (k > 0) & (id + k <= to);
              for (int64_t i = id; i < id + k && i < n; ++i) ok &= !valid(i);
              next += k;
            }, rep);
  sx_assert(ok && next == to);
}
