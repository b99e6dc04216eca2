// Accumulators of the aggregation operators (qexpr/operators/aggregation/group_op_accumulators.h) and the moving
// averages (qexpr/operators/experimental/dense_array/timeseries.h) against direct definitions.
// SX-SRCS: arolla/array/edge.cc arolla/array/array.cc arolla/array/array_util.cc arolla/array/id_filter.cc arolla/dense_array/edge.cc arolla/dense_array/bitmap.cc arolla/dense_array/dense_array.cc arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc arolla/util/preallocated_buffers.cc arolla/util/status.cc arolla/util/fingerprint.cc arolla/util/cancellation.cc arolla/util/text.cc
// SX-FLAGS: -I$VERIF/harness/stub_protobuf
#include <cmath>
#include <limits>

#include "array_gen.h"
#include "edge_util.h"
#include "arolla/array/multi_edge_util.h"
#include "arolla/dense_array/ops/multi_edge_util.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/operators/aggregation/group_op_accumulators.h"
#include "arolla/qexpr/operators/experimental/dense_array/timeseries.h"
#include "arolla/util/text.h"

#ifdef SX_THOROUGH
constexpr int kRows = 4;
#else
constexpr int kRows = 3;
#endif
using namespace arolla;
using ar::Opt;
using eu::EdgeModel;
namespace {
constexpr auto kAgg = AccumulatorType::kAggregator, kPart = AccumulatorType::kPartial, kFull = AccumulatorType::kFull;
constexpr float kNan = std::numeric_limits<float>::quiet_NaN(), kInf = std::numeric_limits<float>::infinity();
template <class T> using Os = std::vector<OptionalValue<T>>;
template <class T> OptionalValue<T> AnyOpt(const char* name) { bool p = sx<bool>("p"); return Opt<T>(p, sx<T>(name)); }
template <class T> void SameOpt(const OptionalValue<T>& got, bool p, T v) {
  sx_assert(got.present == p);
  sx_assert(!p | sx_same(got.value, v));
}
int Rows() { return sx_pick("rows", 0, kRows); }
// gives the rows to the accumulator one by one, or runs of equal rows together (the caller makes rows equal that share a run)
struct Runs { std::vector<int> len; };
Runs AnyRuns(int n) {
  Runs r;
  while (n > 0) { r.len.push_back(sx_pick("run", 1, n)); n -= r.len.back(); }
  return r;
}
// n values, equal within each run
template <class F> auto Values(const Runs& runs, F f) {
  std::vector<decltype(f())> r;
  for (int l : runs.len) { auto v = f(); for (int i = 0; i < l; ++i) r.push_back(v); }
  return r;
}
template <class A, class V> void Feed(A& a, const Runs& runs, const V& v) {
  size_t i = 0;
  for (int l : runs.len) { if (l > 1) a.AddN(l, v[i]); else a.Add(v[i]); i += l; }
}
template <class A, class V, class W> void Feed(A& a, const Runs& runs, const V& v, const W& w) {
  size_t i = 0;
  for (int l : runs.len) { if (l > 1) a.AddN(l, v[i], w[i]); else a.Add(v[i], w[i]); i += l; }
}
// what the accumulator saw before must not matter: a group before the one under test
template <class A, class... V> void Dirty(A& a, V... v) {
  a.Reset();
  for (int i = sx_pick("dirty", 0, 2); i > 0; --i) { a.Add(v...); if (i == 1) a.GetStatus().IgnoreError(); }
  a.Reset();
}
template <class A, class... V> void DirtyFull(A& a, V... v) {
  a.Reset();
  int k = sx_pick("dirty", 0, 2);
  for (int i = 0; i < k; ++i) a.Add(v...);
  if (k) { a.FinalizeFullGroup(); for (int i = 0; i < k; ++i) (void)a.GetResult(); }
  a.Reset();
}
float SomeFloat() { const float v[] = {0.f, -0.f, 1.5f, -2.f, 3e38f, kInf, -kInf, kNan}; return v[sx_pick("f", 0, 7)]; }
float NiceFloat() { const float v[] = {0.f, 1.5f, -2.f}; return v[sx_pick("f", 0, 2)]; }
}  // namespace

SX_ENTRY(count) {  // sx: bound=groups_of_up_to_3_rows
  auto runs = AnyRuns(Rows());
  int n = 0;
  for (int l : runs.len) n += l;
  SimpleCountAggregator a;
  Dirty(a, Unit{});
  Feed(a, runs, std::vector<Unit>(n));
  sx_assert(a.GetResult() == n && a.GetStatus().ok());
  CountPartialAccumulator p;
  Dirty(p, Unit{});
  for (int i = 1; i <= n; ++i) { p.Add(Unit{}); sx_assert(p.GetResult() == i); }
  AnyAggregator any;
  Dirty(any, Unit{});
  Feed(any, runs, std::vector<Unit>(n));
  sx_assert(any.GetResult().present == (n > 0));
  auto here = Values(runs, [] { return OptionalUnit{sx<bool>("u")}; });
  AllAggregator all;
  Dirty(all, OptionalUnit{false});
  Feed(all, runs, here);
  bool want = true;
  for (auto& h : here) want &= h.present;
  sx_assert(all.GetResult().present == want);
}
SX_ENTRY(logical) {  // sx: bound=groups_of_up_to_3_rows
  auto runs = AnyRuns(Rows());
  auto v = Values(runs, [] { return AnyOpt<bool>("b"); });
  bool f = false, t = false, m = false;
  for (auto& x : v) { f |= x.present & !x.value; t |= x.present & x.value; m |= !x.present; }
  LogicalAllAggregator all;
  Dirty(all, OptionalValue<bool>(sx_pick("db", 0, 1)));
  Feed(all, runs, v);
  SameOpt<bool>(all.GetResult(), f | !m, !f);
  LogicalAnyAggregator any;
  Dirty(any, OptionalValue<bool>());
  Feed(any, runs, v);
  SameOpt<bool>(any.GetResult(), t | !m, t);
}
template <class T> void Sum() {
  using U = std::make_unsigned_t<T>;
  auto runs = AnyRuns(Rows());
  auto v = Values(runs, [] { return sx<T>("v"); });
  OptionalValue<T> init = AnyOpt<T>("init");
  SumAggregator<T> a(init);
  Dirty(a, T(7));
  Feed(a, runs, v);
  U want = init.present ? init.value : 0;
  for (T x : v) want += U(x);
  SameOpt<T>(a.GetResult(), init.present | !v.empty(), T(want));
  SumPartialAccumulator<T> p;
  Dirty(p, T(7));
  want = 0;
  for (T x : v) { p.Add(x); want += U(x); SameOpt<T>(p.GetResult(), true, T(want)); }
}
SX_ENTRY(sum_int) { Sum<int>(); }      // sx: bound=groups_of_up_to_3_rows_with_any_values
SX_ENTRY(sum_long) { Sum<int64_t>(); }  // sx: bound=groups_of_up_to_3_rows_with_any_values
SX_ENTRY(sum_float) {  // sx: bound=groups_of_up_to_3_rows_with_8_values_each
  auto runs = AnyRuns(Rows());
  auto v = Values(runs, SomeFloat);
  OptionalValue<float> init = Opt<float>(sx_pick("ip", 0, 1), 0.25f);
  SumAggregator<float> a(init);
  Dirty(a, 7.f);
  Feed(a, runs, v);
  double want = init.present ? 0.25 : 0;
  for (float x : v) want += x;
  SameOpt<float>(a.GetResult(), init.present | !v.empty(), (float)want);
  MeanAggregator<float> m;
  Dirty(m, 7.f);
  Feed(m, runs, v);
  want = 0;
  for (float x : v) want += x;
  SameOpt<float>(m.GetResult(), !v.empty(), v.empty() ? 0 : (float)want / (float)v.size());
}
SX_ENTRY(prod_int) {  // sx: bound=groups_of_up_to_3_rows_with_values_of_8_bits
  auto runs = AnyRuns(Rows());
  auto v = Values(runs, [] { return sx_range<int>("v", -128, 127); });
  ProdAggregator<int> a;
  Dirty(a, 7);
  Feed(a, runs, v);
  unsigned want = 1;
  for (size_t i = 0; i < v.size(); ++i) want = i ? want * (unsigned)v[i] : v[i];
  SameOpt<int>(a.GetResult(), !v.empty(), (int)want);
}
SX_ENTRY(prod_wide) {  // sx: bound=groups_of_2_rows_with_any_values
  int x = sx<int>("x"), y = sx<int>("y");
  ProdAggregator<int> a;
  a.Reset(); a.Add(x); a.Add(y);
  SameOpt<int>(a.GetResult(), true, (int)((unsigned)x * (unsigned)y));
}
SX_ENTRY(prod_float) {  // sx: bound=groups_of_up_to_3_rows_with_8_values_each
  auto runs = AnyRuns(Rows());
  auto v = Values(runs, SomeFloat);
  ProdAggregator<float> a;
  Dirty(a, 7.f);
  Feed(a, runs, v);
  double want = 1;
  for (float x : v) want *= x;
  SameOpt<float>(a.GetResult(), !v.empty(), (float)want);
}
template <class T, class V> void MinMax(V values, T dirty) {
  auto runs = AnyRuns(Rows());
  auto v = Values(runs, values);
  auto less = [](T a, T b) { return a < b; };
  MinAggregator<T> lo; MaxAggregator<T> hi; MinPartialAccumulator<T> plo; MaxPartialAccumulator<T> phi;
  Dirty(lo, dirty); Dirty(hi, dirty); plo.Reset(); phi.Reset();
  if (sx_pick("seen", 0, 1)) { plo.Add(dirty); phi.Add(dirty); plo.Reset(); phi.Reset(); }
  Feed(lo, runs, v); Feed(hi, runs, v);
  // r is an extreme of the first k values: NaN if there is a NaN, else a value that none goes beyond
  auto check = [&](OptionalValue<T> r, size_t k, bool max) {
    sx_assert(r.present == (k > 0));
    if (!k) return;
    bool nan = false, in = false, beyond = false;
    for (size_t i = 0; i < k; ++i) { nan |= v[i] != v[i]; in |= v[i] == r.value; beyond |= max ? less(r.value, v[i]) : less(v[i], r.value); }
    sx_assert(nan ? r.value != r.value : in & !beyond);
  };
  check(lo.GetResult(), v.size(), false);
  check(hi.GetResult(), v.size(), true);
  for (size_t i = 0; i < v.size(); ++i) {
    plo.Add(v[i]); phi.Add(v[i]);
    check(plo.GetResult(), i + 1, false); check(phi.GetResult(), i + 1, true);
  }
}
SX_ENTRY(minmax_int) { MinMax<int>([] { return sx<int>("v"); }, 3); }      // sx: bound=groups_of_up_to_3_rows_with_any_values
SX_ENTRY(minmax_float) { MinMax<float>(SomeFloat, kNan); }  // sx: bound=groups_of_up_to_3_rows_with_8_values_each
SX_ENTRY(minmax_any_float) {  // sx: bound=groups_of_2_rows_with_any_values
  float x = sx<float>("x"), y = sx<float>("y");
  MinAggregator<float> lo; MaxAggregator<float> hi;
  lo.Reset(); hi.Reset(); lo.Add(x); hi.Add(x); lo.Add(y); hi.Add(y);
  float a = lo.GetResult().value, b = hi.GetResult().value;
  bool nan = (x != x) | (y != y);
  sx_assert(nan ? (a != a) & (b != b) : (a <= x) & (a <= y) & (b >= x) & (b >= y) & ((a == x) | (a == y)) & ((b == x) | (b == y)));
}
namespace {
// r is the element at the given place of the sorted values; NaN if there is a NaN
template <class T> void CheckNth(const OptionalValue<T>& r, const std::vector<T>& v, int at) {
  sx_assert(r.present == !v.empty());
  if (v.empty()) return;
  int less = 0, le = 0; bool nan = false, in = false;
  for (T x : v) { less += x < r.value; le += x <= r.value; nan |= x != x; in |= x == r.value; }
  if (nan) sx_assert(r.value != r.value); else sx_assert(in & (less <= at) & (at < le));
}
}  // namespace
SX_ENTRY(median_int) {  // sx: bound=groups_of_up_to_4_rows_with_any_values
  std::vector<int> v;
  for (int i = sx_pick("n", 0, 4); i > 0; --i) v.push_back(sx<int>("v"));
  MedianAggregator<int> a;
  Dirty(a, 7);
  for (int x : v) a.Add(x);
  CheckNth<int>(a.GetResult(), v, ((int)v.size() - 1) / 2);
}
SX_ENTRY(median_float) {  // sx: bound=groups_of_up_to_3_rows_with_8_values_each
  auto runs = AnyRuns(Rows());
  auto v = Values(runs, SomeFloat);
  MedianAggregator<float> a;
  Dirty(a, kNan);
  Feed(a, runs, v);
  CheckNth<float>(a.GetResult(), v, ((int)v.size() - 1) / 2);
}
namespace { const float kCdf[] = {0.f, 1e-7f, .25f, .3f, 1.f / 3, .5f, .6f, .75f, .99f, 1.f, -.1f, 1.1f, kNan, kInf}; }
SX_ENTRY(inverse_cdf_int) {  // sx: shards=2 bound=groups_of_up_to_4_rows_with_any_values,_14_cdf_values
  int k = sx_shard(2) + 2 * sx_pick("cdf", 0, 6);
  float cdf = kCdf[k];
  std::vector<int> v;
  for (int i = sx_pick("n", 0, 4); i > 0; --i) v.push_back(sx<int>("v"));
  InverseCdfAccumulator<int> a(cdf);
  Dirty(a, 7);
  for (int x : v) a.Add(x);
  auto r = a.GetResult();
  sx_assert(a.GetStatus().ok() == (k < 10));
  if (k >= 10) return;
  int at = std::ceil((cdf - 1e-6) * v.size()) - 1;
  CheckNth<int>(r, v, at < 0 ? 0 : at);
}
SX_ENTRY(inverse_cdf_float) {  // sx: bound=groups_of_up_to_3_rows_with_8_values_each
  float cdf = kCdf[sx_pick("cdf", 0, 4) * 2];
  auto runs = AnyRuns(Rows());
  auto v = Values(runs, SomeFloat);
  InverseCdfAccumulator<float> a(cdf);
  Dirty(a, kNan);
  Feed(a, runs, v);
  auto r = a.GetResult();
  sx_assert(a.GetStatus().ok());
  int at = std::ceil((cdf - 1e-6) * v.size()) - 1;
  CheckNth<float>(r, v, at < 0 ? 0 : at);
}
SX_ENTRY(collapse_int) {  // sx: bound=groups_of_up_to_3_rows_with_any_values
  auto runs = AnyRuns(Rows());
  auto v = Values(runs, [] { return sx<int>("v"); });
  CollapseAccumulator<int> a;
  Dirty(a, 7);
  Feed(a, runs, v);
  bool eq = !v.empty();
  for (int x : v) eq &= x == v[0];
  SameOpt<int>(a.GetResult(), eq, v.empty() ? 0 : v[0]);
}
SX_ENTRY(collapse_float) {  // sx: bound=groups_of_up_to_3_rows_with_any_values
  auto runs = AnyRuns(Rows());
  auto v = Values(runs, [] { return sx<float>("v"); });
  CollapseAccumulator<float> a;
  Dirty(a, kNan);
  Feed(a, runs, v);
  bool eq = !v.empty();
  for (float x : v) eq &= (x == v[0]) | ((x != x) & (v[0] != v[0]));
  auto r = a.GetResult();
  sx_assert(r.present == eq);
  if (eq) sx_assert((r.value == v[0]) | ((r.value != r.value) & (v[0] != v[0])));
}
SX_ENTRY(collapse_text) {  // sx: bound=groups_of_up_to_3_texts_of_up_to_1_byte
  std::vector<std::string> v;
  for (int i = Rows(); i > 0; --i) v.push_back(std::string(sx_pick("len", 0, 1), sx<char>("c")));
  CollapseAccumulator<Text> a;
  Dirty(a, absl::string_view("zz"));
  for (auto& s : v) a.Add(s);
  bool eq = !v.empty();
  for (auto& s : v) eq &= s == v[0];
  auto r = a.GetResult();
  sx_assert(r.present == eq);
  if (eq) sx_assert(r.value == v[0]);
}
SX_ENTRY(inverse_mapping) {  // sx: bound=groups_of_up_to_3_rows_with_any_ids
  std::vector<OptionalValue<int64_t>> v;
  int n = Rows();
  for (int i = 0; i < n; ++i) v.push_back(AnyOpt<int64_t>("id"));
  InverseMappingAccumulator a;
  DirtyFull(a, OptionalValue<int64_t>());
  for (auto& x : v) a.Add(x);
  a.FinalizeFullGroup();
  bool ok = true;
  for (int i = 0; i < n; ++i) {
    ok &= !v[i].present | ((v[i].value >= 0) & (v[i].value < n));
    for (int j = 0; j < i; ++j) ok &= !(v[i].present & v[j].present & (v[i].value == v[j].value));
  }
  Os<int64_t> r;
  for (int i = 0; i < n; ++i) r.push_back(a.GetResult());
  sx_assert(a.GetStatus().ok() == ok);
  if (!ok) return;
  for (int i = 0; i < n; ++i) {
    bool p = false; int64_t at = 0;
    for (int j = 0; j < n; ++j) if (v[j].present & (v[j].value == i)) { p = true; at = j; }
    SameOpt<int64_t>(r[i], p, at);
  }
}
SX_ENTRY(string_join) {  // sx: bound=groups_of_up_to_3_texts_of_up_to_2_bytes,_separators_of_up_to_1_byte
  auto str = [](int max) { std::string s; for (int i = sx_pick("len", 0, max); i > 0; --i) s += sx<char>("c"); return s; };
  std::string sep = str(1);
  std::vector<std::string> v;
  for (int i = Rows(); i > 0; --i) v.push_back(str(i == 3 ? 1 : 2));
  StringJoinAggregator<Text> a(sep);
  Dirty(a, absl::string_view(""));
  std::string want;
  for (size_t i = 0; i < v.size(); ++i) { a.Add(v[i]); want += (i ? sep : "") + v[i]; }
  auto r = a.GetResult();
  sx_assert(r.present == !v.empty());
  if (r.present) sx_assert(r.value == want);
}
SX_ENTRY(group_by) {  // sx: bound=two_groups_of_up_to_3_and_2_rows_with_values_of_4_bits
  int64_t counter = sx_pick("counter", 0, 1);
  int64_t first = counter;
  GroupByAccumulator<int> a(&counter), b(&counter);
  int64_t next = first;
  for (int g = 0; g < 2; ++g) {
    auto& acc = g && sx_pick("other", 0, 1) ? b : a;
    acc.Reset();
    std::vector<int> v; std::vector<int64_t> id;
    for (int i = sx_pick("rows", 0, g ? 2 : 3); i > 0; --i) {
      int x = sx_range<int>("v", -8, 7);
      acc.Add(x);
      int64_t r = acc.GetResult(), want = next;
      for (size_t j = 0; j < v.size(); ++j) if (v[j] == x) want = id[j];
      sx_assert(r == want);
      if (sx_concretize(want == next)) ++next;
      v.push_back(x); id.push_back(want);
    }
    sx_assert(acc.GetStatus().ok());
  }
  sx_assert(counter == next);
}
SX_ENTRY(group_by_float) {  // sx: bound=groups_of_up_to_3_rows_with_8_values_each
  int64_t counter = 0;
  GroupByAccumulator<float> a(&counter);
  a.Reset();
  std::vector<float> v; std::vector<int64_t> id; bool nan = false;
  for (int i = Rows(); i > 0; --i) {
    v.push_back(SomeFloat());
    a.Add(v.back());
    id.push_back(a.GetResult());
    nan |= std::isnan(v.back());
  }
  sx_assert(a.GetStatus().ok() == !nan);
  if (nan) return;
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) sx_assert((id[i] == id[j]) == (v[i] == v[j]));
  for (size_t i = 0; i < v.size(); ++i) sx_assert(id[i] >= 0 && id[i] < counter);
}
SX_ENTRY(take_over) {  // sx: bound=groups_of_up_to_3_rows_with_any_values_and_offsets
  ArrayTakeOverAccumulator<int> a;
  DirtyFull(a, OptionalValue<int>(5), OptionalValue<int64_t>(0));
  int n = Rows();
  Os<int> v; Os<int64_t> o; bool ok = true;
  for (int i = 0; i < n; ++i) {
    v.push_back(AnyOpt<int>("v")); o.push_back(AnyOpt<int64_t>("o"));
    a.Add(v[i], o[i]);
    ok &= !o[i].present | ((o[i].value >= 0) & (o[i].value < n));
  }
  a.FinalizeFullGroup();
  Os<int> r;
  for (int i = 0; i < n; ++i) r.push_back(a.GetResult());
  sx_assert(a.GetStatus().ok() == ok);
  if (!ok) return;
  for (int i = 0; i < n; ++i) {
    bool p = false; int want = 0;
    for (int j = 0; j < n; ++j) if (o[i].present & (o[i].value == j)) { p = v[j].present; want = v[j].value; }
    SameOpt<int>(r[i], p, want);
  }
}
namespace {
template <class Util, class Arr, class Edge>
void TakeOverOver(const Arr& v, const ar::Model<int>& vm, const Edge& ve, const EdgeModel& vem, const typename Util::template Array<int64_t>& o,
                  const ar::Model<int64_t>& om, const Edge& oe, const EdgeModel& oem) {
  bool ok = true;
  ar::Model<int> want;
  for (int c = 0; c < oem.children(); ++c) {
    if (!sx_concretize(om[c].p & oem.map[c].p)) { want.push_back({false, 0}); continue; }
    std::vector<int> group;
    for (int i = 0; i < vem.children(); ++i) if (vem.map[i].p && vem.map[i].v == oem.map[c].v) group.push_back(i);
    int64_t at = om[c].v;
    if (sx_concretize((at < 0) | (at >= (int64_t)group.size()))) { ok = false; want.push_back({false, 0}); }
    else want.push_back(vm[group[sx_concretize(at)]]);
  }
  EvaluationContext ctx;
  auto r = ArrayTakeOverOverOp<Util>()(&ctx, v, o, ve, oe);
  sx_assert(r.ok() == ok);
  if (!ok) return;
  if constexpr (std::is_same_v<Edge, DenseArrayEdge>) du::Check(*r, want); else ar::Check(*r, want);
}
}  // namespace
SX_ENTRY(take_over_over) {  // sx: shards=4 bound=two_edges_of_up_to_2_parents_and_2_children,_any_offsets
  int s = sx_shard(4), parents = sx_pick("parents", 1, 2);
  auto ve = s & 1 ? eu::Mapping(parents, sx_pick("n", 0, 2), true) : eu::Splits(parents, 2);
  auto oe = s & 1 ? eu::Splits(parents, 1) : eu::Mapping(parents, sx_pick("k", 0, 2), true);
  if (ve.m.children() > 2) sx_end();
  if (s & 2) {
    int form = sx_pick("form", 0, ve.m.children() == 2 ? 2 : 1);
    auto v = ar::Make<int>(ve.m.children(), 1 << form, "v");
    auto o = ar::Make<int64_t>(oe.m.children(), 1 << (oe.m.children() == 2 ? form : 1), "o");
    TakeOverOver<ArrayMultiEdgeUtil>(v.a, v.m, ArrayEdge::FromDenseArrayEdge(ve.e), ve.m, o.a, o.m, ArrayEdge::FromDenseArrayEdge(oe.e), oe.m);
  } else {
    auto v = du::Make<int>(ve.m.children(), 1, true, 4, "v");
    auto o = du::Make<int64_t>(oe.m.children(), 0, true, 4, "o");
    TakeOverOver<DenseArrayMultiEdgeUtil>(v.a, v.m, ve.e, ve.m, o.a, o.m, oe.e, oe.m);
  }
}
SX_ENTRY(weighted_average) {  // sx: bound=groups_of_up_to_3_rows_with_5_values_and_3_weights_each
  auto runs = AnyRuns(sx_pick("rows", 0, 3));
  const float vs[] = {0.f, 1.5f, -2.f, kInf, kNan};
  auto v = Values(runs, [&] { return vs[sx_pick("v", 0, 4)]; });
  auto w = Values(runs, NiceFloat);
  WeightedAverageAccumulator<float> a;
  Dirty(a, kNan, 1.f);
  Feed(a, runs, v, w);
  double num = 0, den = 0;
  for (size_t i = 0; i < v.size(); ++i) { num += (double)v[i] * w[i]; den += w[i]; }
  sx_assert(sx_same(a.GetResult(), (float)(num / den)));
}
namespace {
template <class T, class W, class R> void Cdf(const std::vector<T>& v, const std::vector<W>& w, T dirty) {
  WeightedCDFAccumulator<T, W> a;
  DirtyFull(a, dirty, W(1));
  bool nan = false; double total = 0;
  for (size_t i = 0; i < v.size(); ++i) { a.Add(v[i], w[i]); nan |= v[i] != v[i]; total += w[i]; }
  a.FinalizeFullGroup();
  for (size_t i = 0; i < v.size(); ++i) {
    R r = a.GetResult();
    double le = 0;
    for (size_t j = 0; j < v.size(); ++j) if (v[j] <= v[i]) le += w[j];
    if (nan) sx_assert(r != r); else sx_assert(sx_same(r, (R)(le / total)));
  }
}
}  // namespace
SX_ENTRY(cdf_int) {  // sx: bound=groups_of_up_to_3_rows_with_any_values_and_3_weights_each
  std::vector<int> v; std::vector<float> w;
  for (int i = Rows(); i > 0; --i) { v.push_back(sx<int>("v")); w.push_back(sx_pick("w", 0, 2) * .5f); }
  Cdf<int, float, float>(v, w, 7);
}
SX_ENTRY(cdf_float) {  // sx: bound=groups_of_up_to_3_rows_with_8_values_and_2_weights_each
  std::vector<float> v; std::vector<int> w;
  for (int i = Rows(); i > 0; --i) { v.push_back(SomeFloat()); w.push_back(sx_pick("w", 1, 2)); }
  Cdf<float, int, float>(v, w, kNan);
}
SX_ENTRY(cdf_double) {  // sx: bound=groups_of_up_to_3_rows_with_any_values_(no_NaN)
  std::vector<double> v; std::vector<double> w;
  for (int i = Rows(); i > 0; --i) { v.push_back(sx<double>("v")); sx_assume(v.back() == v.back()); w.push_back(i * .25); }
  Cdf<double, double, double>(v, w, (double)kNan);
}
namespace {
template <class T> void OrdinalRank(const std::vector<T>& v, const std::vector<int64_t>& tie, T dirty) {
  int how = sx_pick("desc", 0, 2);  // 2: ascending by default
  bool desc = how == 1;
  auto a = how == 2 ? OrdinalRankAccumulator<T, int64_t>() : OrdinalRankAccumulator<T, int64_t>(desc);
  DirtyFull(a, dirty, 3);
  int n = v.size(), nans = 0;
  for (int i = 0; i < n; ++i) { a.Add(v[i], tie[i]); nans += v[i] != v[i]; }
  a.FinalizeFullGroup();
  std::vector<int64_t> r;
  for (int i = 0; i < n; ++i) r.push_back(a.GetResult());
  for (int i = 0; i < n; ++i) {
    if (v[i] != v[i]) {
      bool ok = (r[i] >= n - nans) & (r[i] < n);
      for (int j = 0; j < i; ++j) ok &= r[j] != r[i];
      sx_assert(ok);
      continue;
    }
    int want = 0;
    for (int j = 0; j < n; ++j) want += (desc ? v[j] > v[i] : v[j] < v[i]) | ((v[j] == v[i]) & ((tie[j] < tie[i]) | ((tie[j] == tie[i]) & (j < i))));
    sx_assert(r[i] == want);
  }
}
template <class T> void DenseRank(const std::vector<T>& v, T dirty) {
  bool desc = sx_pick("desc", 0, 1);
  DenseRankAccumulator<T> a(desc);
  DirtyFull(a, dirty);
  int n = v.size();
  for (int i = 0; i < n; ++i) a.Add(v[i]);
  a.FinalizeFullGroup();
  // distinct values (not NaN) before v[i] in the order of ranking; every one of them for a NaN
  for (int i = 0; i < n; ++i) {
    int64_t r = a.GetResult();
    int want = 0, nans = 0;
    for (int j = 0; j < n; ++j) {
      bool first = v[j] == v[j];
      nans += !first;
      for (int k = 0; k < j; ++k) first &= !(v[k] == v[j]);
      want += first & ((v[i] != v[i]) | (desc ? v[j] > v[i] : v[j] < v[i]));
    }
    sx_assert(v[i] != v[i] ? (r >= want) & (r < want + nans) : r == want);
  }
}
}  // namespace
SX_ENTRY(ordinal_rank_int) {  // sx: shards=2 bound=groups_of_up_to_3_rows_with_any_values_and_tie_breakers
  int n = sx_shard(2) ? 3 : sx_pick("n", 0, 2);
  std::vector<int> v; std::vector<int64_t> t;
  for (int i = 0; i < n; ++i) { v.push_back(sx<int8_t>("v")); t.push_back(sx<int8_t>("t")); }
  OrdinalRank<int>(v, t, 7);
}
SX_ENTRY(ordinal_rank_float) {  // sx: bound=groups_of_up_to_3_rows_with_8_values_each_and_any_tie_breakers
  std::vector<float> v; std::vector<int64_t> t;
  for (int i = Rows(); i > 0; --i) { v.push_back(SomeFloat()); t.push_back(sx<int8_t>("t")); }
  OrdinalRank<float>(v, t, kNan);
}
SX_ENTRY(dense_rank_int) {  // sx: bound=groups_of_up_to_3_(thorough:_4)_rows_with_any_values
  std::vector<int> v;
  for (int i = Rows(); i > 0; --i) v.push_back(sx<int>("v"));
  DenseRank<int>(v, 7);
}
SX_ENTRY(dense_rank_float) {  // sx: bound=groups_of_up_to_3_rows_with_8_values_each
  std::vector<float> v;
  for (int i = Rows(); i > 0; --i) v.push_back(SomeFloat());
  DenseRank<float>(v, kNan);
}
namespace {
template <class T, class F> void ArgMinMax(F f, T dirty) {
  auto runs = AnyRuns(Rows());
  auto v = Values(runs, f);
  ArgMinAggregator<T> lo; ArgMaxAggregator<T> hi;
  Dirty(lo, OptionalValue<T>(dirty)); Dirty(hi, OptionalValue<T>(dirty));
  Feed(lo, runs, v); Feed(hi, runs, v);
  // the first NaN if there is one, else the first of the extreme values
  auto want = [&](bool max) {
    int at = -1;
    for (int i = 0; i < (int)v.size(); ++i) {
      if (!sx_concretize(v[i].present)) continue;
      T x = v[i].value;
      if (at < 0 || sx_concretize((v[at].value == v[at].value) & ((x != x) | (max ? x > v[at].value : x < v[at].value)))) at = i;
    }
    return at;
  };
  int a = want(false), b = want(true);
  SameOpt<int64_t>(lo.GetResult(), a >= 0, a);
  SameOpt<int64_t>(hi.GetResult(), b >= 0, b);
}
}  // namespace
SX_ENTRY(argminmax_int) { ArgMinMax<int>([] { return AnyOpt<int>("v"); }, 3); }      // sx: bound=groups_of_up_to_3_rows_with_any_values
SX_ENTRY(argminmax_float) { ArgMinMax<float>([] { return Opt<float>(sx_pick("p", 0, 1), SomeFloat()); }, kNan); }  // sx: bound=groups_of_up_to_3_rows_with_8_values_each

// ---- time series
SX_ENTRY(moving_average) {  // sx: bound=two_groups_of_up_to_4_rows_with_3_values_each,_windows_of_-1_to_3_and_2^32+1
  int64_t window = sx_pick("window", -1, 4);
  if (window == 4) window = (int64_t{1} << 32) + 1;  // longer than any group
  int n = sx_pick("n", 0, 4), split = sx_pick("split", 0, n);
  auto present = sx_pick("present", 0, (1 << n) - 1);
  std::vector<float> v; std::vector<OptionalValue<float>> in;
  DenseArrayBuilder<float> b(n);
  for (int i = 0; i < n; ++i) { v.push_back(float((i * 7) % 5) - 1.5f); if (present >> i & 1) b.Set(i, v[i]); }
  std::vector<int64_t> sp = {0, split, n};
  auto edge = DenseArrayEdge::UnsafeFromSplitPoints({Buffer<int64_t>::Create(sp.begin(), sp.end())});
  EvaluationContext ctx;
  auto r = AggMovingAverageOp()(&ctx, std::move(b).Build(), window, edge);
  if (window < 1) { sx_assert(!r.ok()); return; }
  sx_assert(r.ok() && r->size() == n);
  for (int i = 0; i < n; ++i) {
    int64_t from = i - window + 1;
    bool p = from >= (i < split ? 0 : split); double sum = 0;
    for (int64_t j = from; p && j <= i; ++j) { p = present >> j & 1; sum += v[j]; }
    sx_assert(r->present(i) == p);
    if (p) sx_assert(r->values[i] == float(sum / window));
  }
}
SX_ENTRY(ewma) {  // sx: bound=series_of_up_to_4_rows_with_any_presence,_4_alphas
  int n = sx_pick("n", 0, 4);
  auto present = sx_pick("present", 0, (1 << n) - 1);
  const double alphas[] = {.5, 1., .25, 0., 1.5};
  double alpha = alphas[sx_pick("alpha", 0, 4)];
  bool adjust = sx_pick("adjust", 0, 1), ignore = sx_pick("ignore", 0, 1);
  std::vector<double> v;
  DenseArrayBuilder<double> b(n);
  for (int i = 0; i < n; ++i) { v.push_back(double((i * 7) % 5) - 1.5); if (present >> i & 1) b.Set(i, v[i]); }
  auto r = ExponentialWeightedMovingAverageOp()(std::move(b).Build(), alpha, adjust, ignore);
  sx_assert(r.ok() == (alpha > 0 && alpha <= 1));
  if (!r.ok()) return;
  int last = -1;
  for (int i = 0; i < n; ++i) if (present >> i & 1) last = i;
  double avg = 0, old = 0; bool any = false;  // as pandas does it
  for (int i = 0; i < n; ++i) {
    bool here = present >> i & 1;
    if (any) {
      if (here || !ignore) old *= 1 - alpha;
      if (here) { double w = adjust ? 1 : alpha; avg = (old * avg + w * v[i]) / (old + w); old = adjust ? old + w : 1; }
    } else if (here) { avg = v[i]; old = 1; any = true; }
    bool p = any && i <= last;
    sx_assert(r->present(i) == p);
    if (p) sx_assert(std::abs(r->values[i] - avg) < 1e-9);
  }
}
