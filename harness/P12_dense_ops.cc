// Pointwise operators on dense arrays, and the array operators built on them (dense_array/ops/*.h,
// qexpr/operators/dense_array/{lifter,logic_ops,array_ops,factory_ops}.h, qexpr/lifting.h).
// SX-SRCS: arolla/dense_array/bitmap.cc arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc arolla/util/preallocated_buffers.cc arolla/util/status.cc arolla/qexpr/operators/dense_array/array_ops.cc
// SX-FLAGS: -I$VERIF/harness/stub_protobuf
#include "dense_util.h"
#include "arolla/dense_array/ops/dense_ops.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/lifting.h"
#include "arolla/qexpr/operators/dense_array/array_ops.h"
#include "arolla/qexpr/operators/dense_array/factory_ops.h"
#include "arolla/qexpr/operators/dense_array/lifter.h"
#include "arolla/qexpr/operators/dense_array/logic_ops.h"

#ifdef SX_THOROUGH
constexpr bool kThorough = true;
#else
constexpr bool kThorough = false;
#endif
using namespace arolla;
using du::Arr, du::El, du::Model, du::Make, du::Check;
namespace {
const int kLen[] = {0, 1, 3, 32, 33, 34};
const int kOff[] = {0, 1, 30, 31};
int Len(const char* n, int max = 5) { return kLen[sx_pick(n, 0, max)]; }
int Off(const char* n) { return kOff[sx_pick(n, 0, 3)]; }
int f2(int a, int b) { return (int)(3u * (unsigned)a - (unsigned)b); }

// the calls that a pointwise function received
struct Calls { int n = 0; };
Calls calls;
constexpr int kRun = DenseOpFlags::kRunOnMissing, kNoOff = DenseOpFlags::kNoBitmapOffset, kNoVal = DenseOpFlags::kNoSizeValidation;
template <class R> DenseArray<R> Ok(absl::StatusOr<DenseArray<R>> r) { sx_assert(r.ok()); return *std::move(r); }
template <class R> DenseArray<R> Ok(DenseArray<R> r) { return r; }
}  // namespace

SX_ENTRY(unary) {  // sx: bound=up_to_34_elements
  int n = Len("n"), off = Off("off");
  auto a = Make<int>(n, off, sx_pick("bm", 0, 1));
  Model<int> want, opt;
  int present = 0;
  for (auto& e : a.m) { want.push_back({e.p, f2(e.v, 5)}); opt.push_back({!e.p | (e.v > 0), e.p ? e.v : -1}); present += e.p; }
  Check(CreateDenseOp<kRun>([](int x) { return f2(x, 5); })(a.a), want);
  calls = {};
  Check(CreateDenseOp([](int x) { ++calls.n; return f2(x, 5); })(a.a), want);
  sx_assert(calls.n == present);  // never on missing
  Check(CreateDenseOp([](OptionalValue<int> x) { return OptionalValue<int>(!x.present | (x.value > 0), x.present ? x.value : -1); })(a.a), opt);
  auto span_op = [](RawSpan<int> res, RawSpan<const int> x) { for (size_t i = 0; i < res.size(); ++i) res[i] = f2(x[i], 5); };
  Check(CreateDenseUnaryOpFromSpanOp<int>(span_op)(a.a), want);
}
SX_ENTRY(binary) {  // sx: shards=4 bound=up_to_34_elements,_4_bit_offsets
  int n = Len("n"), oa = kOff[sx_shard(4)], ob = Off("ob");
  auto a = Make<int>(n, oa, sx_pick("ba", 0, 1), 2);
  auto b = Make<int>(n, ob, sx_pick("bb", 0, 1), 2, "y");
  Model<int> want;
  for (int i = 0; i < n; ++i) want.push_back({a.m[i].p & b.m[i].p, f2(a.m[i].v, b.m[i].v)});
  Check(Ok(CreateDenseOp<kRun>(f2)(a.a, b.a)), want);
  Check(CreateDenseOp<kRun | kNoVal>(f2)(a.a, b.a), want);
  auto span_op = [](RawSpan<int> res, RawSpan<const int> x, RawSpan<const int> y) { for (size_t i = 0; i < res.size(); ++i) res[i] = f2(x[i], y[i]); };
  Check(Ok(CreateDenseBinaryOpFromSpanOp<int>(span_op)(a.a, b.a)), want);
  if (a.a.bitmap_bit_offset == 0 && b.a.bitmap_bit_offset == 0) {
    Check(CreateDenseOp<kRun | kNoVal | kNoOff>(f2)(a.a, b.a), want);
    Check(CreateDenseBinaryOpFromSpanOp<int, kNoOff | kNoVal>(span_op)(a.a, b.a), want);
  }
}
SX_ENTRY(binary_skip_missing) {  // sx: shards=4 bound=up_to_34_elements
  int n = Len("n"), oa = kOff[sx_shard(4)], ob = Off("ob");
  auto a = Make<int>(n, oa, sx_pick("ba", 0, 1), 1);
  auto b = Make<int>(n, ob, sx_pick("bb", 0, 1), 1, "y");
  Model<int> want, part;
  int both = 0, first = 0;
  for (int i = 0; i < n; ++i) {
    want.push_back({a.m[i].p & b.m[i].p, f2(a.m[i].v, b.m[i].v)});
    part.push_back({a.m[i].p, b.m[i].p ? b.m[i].v : a.m[i].v});
    both += a.m[i].p & b.m[i].p; first += a.m[i].p;
  }
  calls = {};
  Check(Ok(CreateDenseOp([](int x, int y) { ++calls.n; return f2(x, y); })(a.a, b.a)), want);
  sx_assert(calls.n == both);
  calls = {};
  Check(Ok(CreateDenseOp([](int x, OptionalValue<int> y) { ++calls.n; return y.present ? y.value : x; })(a.a, b.a)), part);
  sx_assert(calls.n == first);
}
SX_ENTRY(with_status) {  // sx: bound=up_to_34_elements
  int n = Len("n"), off = Off("off");
  auto a = Make<int>(n, off, sx_pick("bm", 0, 1), 2);
  int64_t bad = n ? sx_range<int64_t>("bad", 0, n) : 0;
  bool fails = false;
  Model<int> want;
  for (int i = 0; i < n; ++i) { fails |= a.m[i].p & (i == bad); want.push_back({a.m[i].p, a.m[i].v}); }
  std::vector<int> ids;
  int i = 0;
  static int64_t the_bad; the_bad = bad;
  static int seen; seen = 0;
  // the callback sees present elements in order; the k-th call is the k-th present element
  static std::vector<int> order; order.clear();
  for (auto& e : a.m) { if (e.p) order.push_back(i); ++i; }
  auto op = CreateDenseOp([](int x) -> absl::StatusOr<int> {
    sx_assert(seen < (int)order.size());
    if (order[seen++] == the_bad) return absl::InvalidArgumentError("bad");
    return x;
  });
  auto r = op(a.a);
  sx_assert(r.ok() == !fails);
  if (r.ok()) Check(*r, want);
}
SX_ENTRY(ternary) {  // sx: shards=2 bound=up_to_34_elements
  int n = Len("n");
  bool offs = sx_shard(2);
  auto a = Make<int>(n, offs ? 31 : 0, sx_pick("ba", 0, 1), 1);
  auto b = Make<int>(n, 0, sx_pick("bb", 0, 1), 1, "y");
  auto c = Make<int>(n, offs ? 1 : 0, sx_pick("bc", 0, 1), 1, "z");
  auto fn = [](int x, int y, int z) { return f2(f2(x, y), z); };
  Model<int> want;
  for (int i = 0; i < n; ++i) want.push_back({a.m[i].p & b.m[i].p & c.m[i].p, fn(a.m[i].v, b.m[i].v, c.m[i].v)});
  Check(Ok(CreateDenseOp<kRun>(fn)(a.a, b.a, c.a)), want);
  Check(Ok(CreateDenseOp(fn)(a.a, b.a, c.a)), want);
  if (!offs) Check(Ok(CreateDenseOp<kRun | kNoOff>(fn)(a.a, b.a, c.a)), want);
  if (!offs) Check(CreateDenseOp<kRun | kNoOff | kNoVal>(fn)(a.a, b.a, c.a), want);
}
SX_ENTRY(size_mismatch) {
  int na = sx_pick("na", 0, 2), nb = sx_pick("nb", 0, 2), nc = sx_pick("nc", 0, 2);
  auto a = Make<int>(na, 0, sx_pick("bm", 0, 1)), b = Make<int>(nb, 0, false), c = Make<int>(nc, 0, false);
  bool ok2 = na == nb, ok3 = ok2 && nb == nc;
  sx_assert(CreateDenseOp<kRun>(f2)(a.a, b.a).ok() == ok2);
  sx_assert(CreateDenseOp(f2)(a.a, b.a).ok() == ok2);
  auto f3 = [](int x, int y, int z) { return f2(f2(x, y), z); };
  sx_assert(CreateDenseOp<kRun | kNoOff>(f3)(a.a, b.a, c.a).ok() == ok3);
  sx_assert(CreateDenseOp(f3)(a.a, b.a, c.a).ok() == ok3);
  sx_assert(DenseArraysForEach([](int64_t, bool, int, int) {}, a.a, b.a).ok() == ok2);
  sx_assert(DenseArraysForEachPresent([](int64_t, int, int, int) {}, a.a, b.a, c.a).ok() == ok3);
  EvaluationContext ctx;
  sx_assert(DenseArrayPresenceOrOp()(&ctx, a.a, b.a).ok() == ok2);
  sx_assert(DenseArrayPresenceAndOp()(&ctx, a.a, b.a.ToMask()).ok() == ok2);
  sx_assert(DenseArraySelectOp()(&ctx, a.a, b.a.ToMask()).ok() == ok2);
}
SX_ENTRY(for_each) {  // sx: bound=up_to_34_elements
  int n = Len("n"), oa = Off("oa"), ob = Off("ob");
  auto a = Make<int>(n, oa, sx_pick("ba", 0, 1), 1);
  auto b = Make<int>(n, ob, sx_pick("bb", 0, 1), 1, "y");
  int64_t next = 0;
  bool ok = true;
  auto st = DenseArraysForEach([&](int64_t id, bool valid, int x, OptionalValue<int> y) {
    sx_assert(id == next); ++next;
    ok &= valid == a.m[id].p; ok &= !valid | (x == a.m[id].v); ok &= y.present == b.m[id].p; ok &= !y.present | (y.value == b.m[id].v);
  }, a.a, b.a);
  sx_assert(st.ok() && next == n);
  next = 0;
  auto st2 = DenseArraysForEachPresent([&](int64_t id, int x, int y) {
    while (next < n && !(a.m[next].p & b.m[next].p)) ++next;
    sx_assert(id == next); ++next;
    ok &= (x == a.m[id].v) & (y == b.m[id].v);
  }, a.a, b.a);
  while (next < n && !(a.m[next].p & b.m[next].p)) ++next;
  sx_assert(st2.ok() && next == n);
  // a range that starts anywhere
  if (n) {
    int from = kThorough ? sx_pick("from", 0, n) : sx_pick("from", 0, 1) ? n / 2 : n - 1, to = from + (n - from) / (1 + sx_pick("part", 0, 1));
    next = from;
    dense_ops_internal::DenseOpsUtil<meta::type_list<int>>::Iterate([&](int64_t id, bool valid, int x) {
      sx_assert(id == next); ++next;
      ok &= valid == a.m[id].p; ok &= !valid | (x == a.m[id].v);
    }, from, to, a.a);
    sx_assert(next == to);
  }
  sx_assert(ok);
}
SX_ENTRY(text_and_unit) {  // sx: bound=3_texts_of_one_byte
  int n = sx_pick("n", 0, 3);
  DenseArrayBuilder<Text> tb(n);
  Model<std::string> m, want;
  for (int i = 0; i < n; ++i) { std::string s(1, sx<char>("c")); bool p = sx_pick("p", 0, 1); if (p) tb.Set(i, s); m.push_back({p, s}); }
  auto t = std::move(tb).Build();
  auto u = Make<int>(n, 0, sx_pick("bm", 0, 1), 2);
  for (int i = 0; i < n; ++i) want.push_back({m[i].p & u.m[i].p, m[i].v + "!"});
  auto fn = [](absl::string_view x, int) { return Text(std::string(x) + "!"); };
  Check(Ok(CreateDenseOp<0, decltype(fn), Text>(fn)(t, u.a)), want);
  Model<int> len;
  for (int i = 0; i < n; ++i) len.push_back({m[i].p & u.m[i].p, (int)(unsigned char)m[i].v[0]});
  Check(Ok(CreateDenseOp<kRun>([](absl::string_view x, Unit) { return x.empty() ? -1 : (int)(unsigned char)x[0]; })(t, u.a.ToMask())), len);
  Model<int> un;
  for (int i = 0; i < n; ++i) un.push_back({m[i].p & (m[i].v[0] != 'a'), 0});
  Check(CreateDenseOp([](absl::string_view x) { return x.size() && x[0] != 'a' ? kPresent : kMissing; })(t), un);
}
namespace {
struct SubMul { int operator()(int a, int k, int b) const { return f2(f2(a, k), b); } };
struct SubMulRun : SubMul { using run_on_missing = std::true_type; };
struct Div { absl::StatusOr<int> operator()(int a, int b) const { if (b == 0) return absl::InvalidArgumentError("div"); return a ^ b; } };
}  // namespace
// The lifters: scalars that are not lifted are captured in their own place.
SX_ENTRY(lifter) {  // sx: bound=3_elements_or_33
  int n = sx_pick("n", 0, 1) ? 33 : 3;
  auto a = Make<int>(n, 0, sx_pick("ba", 0, 1), 1);
  auto b = Make<int>(n, 0, sx_pick("bb", 0, 1), 1, "y");
  int k = sx<int>("k");
  EvaluationContext ctx;
  Model<int> want, q;
  bool zero = false;
  for (int i = 0; i < n; ++i) { bool p = a.m[i].p & b.m[i].p; want.push_back({p, f2(f2(a.m[i].v, k), b.m[i].v)}); }
  Check(Ok(DenseArrayLifter<SubMul, meta::type_list<int, DoNotLiftTag<int>, int>, true>()(&ctx, a.a, k, b.a)), want);
  Check(Ok(DenseArrayLifter<SubMulRun, meta::type_list<int, DoNotLiftTag<int>, int>, true>()(&ctx, a.a, k, b.a)), want);
  Check(Ok(DenseArrayLifter<SubMul, meta::type_list<int, DoNotLiftTag<int>, int>>()(&ctx, a.a, k, b.a)), want);
  if (n == 3) {
    for (int i = 0; i < n; ++i) { bool p = a.m[i].p & b.m[i].p; zero |= p & (b.m[i].v == 0); q.push_back({p, a.m[i].v ^ b.m[i].v}); }
    auto r = DenseArrayLifter<Div, meta::type_list<int, int>>()(&ctx, a.a, b.a);
    sx_assert(r.ok() == !zero);
    if (r.ok()) Check(*r, q);
  }
  sx_assert(ctx.status().ok());
}
SX_ENTRY(presence_ops) {  // sx: shards=4 bound=up_to_34_elements
  int n = Len("n"), oa = kOff[sx_shard(4)];
  auto a = Make<int>(n, oa, sx_pick("ba", 0, 1), 1);
  auto b = Make<int>(n, Off("ob"), sx_pick("bb", 0, 1), 1, "y");
  int all = sx_pick("all_missing", 0, 1);
  if (all && !a.a.bitmap.empty()) { std::vector<du::Word> w(a.a.bitmap.size(), 0); a.a.bitmap = du::Bm(w); for (auto& e : a.m) e.p = false; }
  EvaluationContext ctx;
  Model<int> has, land, lnot, lor, dflt;
  OptionalValue<int> d(sx<bool>("pd"), sx<int>("d"));
  for (int i = 0; i < n; ++i) {
    has.push_back({a.m[i].p, 0}); land.push_back({a.m[i].p & b.m[i].p, a.m[i].v}); lnot.push_back({!a.m[i].p, 0});
    lor.push_back({a.m[i].p | b.m[i].p, a.m[i].p ? a.m[i].v : b.m[i].v});
    dflt.push_back({a.m[i].p | d.present, a.m[i].p ? a.m[i].v : d.value});
  }
  Check(DenseArrayHasOp()(a.a), has);
  Check(Ok(DenseArrayPresenceAndOp()(&ctx, a.a, b.a.ToMask())), land);
  Check(DenseArrayPresenceNotOp()(&ctx, a.a), lnot);
  if (a.a.bitmap_bit_offset == 0 && b.a.bitmap_bit_offset == 0) {
    Check(Ok(DenseArrayPresenceOrOp()(&ctx, a.a, b.a)), lor);
    Check(DenseArrayPresenceOrOp()(&ctx, a.a, d), dflt);
  }
}
SX_ENTRY(array_at) {  // sx: bound=3_elements
  int n = sx_pick("n", 0, 3);
  auto a = Make<int>(n, Off("off"), sx_pick("ba", 0, 1), 3);
  EvaluationContext ctx;
  int64_t id = sx<int64_t>("id");
  bool in = id >= 0 && id < n;
  auto r = DenseArrayAtOp()(&ctx, a.a, id);
  sx_assert(ctx.status().ok() == in && ctx.signal_received() == !in);
  sx_assert(r.present == (in && a.m[id].p)); sx_assert(!r.present || r.value == a.m[id].v);
  EvaluationContext ctx2;
  OptionalValue<int64_t> oid(sx<bool>("p"), id);
  auto r2 = DenseArrayAtOp()(&ctx2, a.a, oid);
  sx_assert(ctx2.status().ok() == (in || !oid.present));
  sx_assert(r2.present == (oid.present && r.present) && (!r2.present || r2.value == r.value));
  EvaluationContext ctx3;
  auto ids = Make<int64_t>(2, 0, sx_pick("bi", 0, 1), 2, "ids");
  bool bad = false;
  Model<int> want;
  for (auto& e : ids.m) { bool i = e.v >= 0 && e.v < n; bad |= e.p & !i; want.push_back({e.p && i && a.m[e.v].p, i ? a.m[e.v].v : 0}); }
  auto r3 = DenseArrayAtOp()(&ctx3, a.a, ids.a);
  sx_assert(ctx3.status().ok() == !bad);
  Check(r3, want);
}
SX_ENTRY(array_slice) {  // sx: bound=up_to_34_elements,_all_offsets_and_sizes
  int n = Len("n");
  auto a = Make<int>(n, Off("off"), sx_pick("ba", 0, 1), 2);
  EvaluationContext ctx;
  int64_t o, s;
  if (n <= 3) { o = sx_range<int64_t>("o", -2, n + 1); s = sx_range<int64_t>("s", -2, n + 1); }
  else { const int pts[] = {0, 1, 31, 32, n - 1, n}; o = pts[sx_pick("o", 0, 5)]; s = sx_pick("s", 0, 2) - 1; if (s == 1) s = n - o; }
  if (sx_pick("wild", 0, 1)) { o = sx<int64_t>("wo"); s = sx<int64_t>("ws"); sx_assume(o < 0 || o > n || s < -1 || s > n - o); }
  bool ok = o >= 0 && o <= n && s >= -1 && s <= n - o;
  auto r = DenseArraySliceOp()(&ctx, a.a, o, s);
  sx_assert(r.ok() == ok);
  if (!ok) return;
  if (s == -1) s = n - o;
  sx_assert(r->bitmap_bit_offset == 0);
  Check(*r, Model<int>(a.m.begin() + o, a.m.begin() + o + s));
}
SX_ENTRY(array_concat) {  // sx: shards=2 bound=up_to_34_elements
  const int lens[] = {0, 2, 31, 32, 34};
  int n = lens[sx_pick("n", 0, 4)], k = lens[sx_pick("k", 0, kThorough ? 4 : 2)];
  auto a = Make<int>(n, Off("oa"), sx_shard(2), 2);
  auto b = Make<int>(k, sx_pick("ob", 0, 1) * 31, sx_pick("bb", 0, 1), 2, "y");
  EvaluationContext ctx;
  auto m = a.m;
  m.insert(m.end(), b.m.begin(), b.m.end());
  Check(DenseArrayConcatOp()(&ctx, a.a, b.a), m);
}
SX_ENTRY(array_present) {  // sx: bound=up_to_34_elements
  int n = Len("n");
  auto a = Make<int>(n, Off("off"), sx_pick("ba", 0, 1), 2);
  auto f = Make<int>(n, Off("off2"), sx_pick("bf", 0, 1), 1, "f");
  EvaluationContext ctx;
  Model<int> vals, sel;
  Model<int64_t> ids;
  for (int i = 0; i < n; ++i) { if (a.m[i].p) { vals.push_back({true, a.m[i].v}); ids.push_back({true, i}); } if (f.m[i].p) sel.push_back(a.m[i]); }
  Check(DenseArrayPresentIndicesOp()(&ctx, a.a.ToMask()), ids);
  Check(DenseArrayPresentValuesOp()(&ctx, a.a), vals);
  Check(Ok(DenseArraySelectOp()(&ctx, a.a, f.a.ToMask())), sel);
}
SX_ENTRY(array_unique) {  // sx: bound=4_elements
  int n = sx_pick("n", 0, 4);
  auto a = Make<int>(n, 0, sx_pick("ba", 0, 1), 3);
  EvaluationContext ctx;
  Model<int> want;
  for (auto& e : a.m) { bool seen = !e.p; for (auto& w : want) if (e.p && w.v == e.v) seen = true; if (!seen) want.push_back({true, e.v}); }
  Check(DenseArrayUniqueOp()(&ctx, a.a), want);
}
SX_ENTRY(array_from_indices) {  // sx: bound=3_elements
  int n = sx_pick("n", 0, 3), k = sx_pick("k", 0, 3);
  auto ids = Make<int64_t>(n, 0, sx_pick("bi", 0, 1), 3, "ids");
  auto vals = Make<int>(k, 0, sx_pick("bv", 0, 1), 3);
  int64_t size = sx_pick("negative", 0, 1) ? sx_range<int64_t>("sz", INT64_MIN, -1) : sx_pick("size", 0, 4);
  bool ok = n == k && size >= 0;
  for (int i = 0; i < n; ++i) { ok &= ids.m[i].p && ids.m[i].v >= 0 && ids.m[i].v < size && (i == 0 || ids.m[i - 1].v < ids.m[i].v); }
  EvaluationContext ctx;
  auto r = DenseArrayFromIndicesAndValues()(&ctx, ids.a, vals.a, size);
  sx_assert(ctx.status().ok() == ok);
  if (!ok) { sx_assert(r.empty()); return; }
  Model<int> want(size, El<int>{false, 0});
  for (int i = 0; i < n; ++i) if (vals.m[i].p) want[ids.m[i].v] = vals.m[i];
  Check(r, want);
}
SX_ENTRY(shapes) {
  EvaluationContext ctx;
  int64_t s = sx<int64_t>("s");
  auto r = DenseArrayResizeShapeOp()(DenseArrayShape{3}, s);
  sx_assert(r.ok() == (s >= 0)); sx_assert(!r.ok() || r->size == s);
  int n = Len("n");
  auto a = Make<int>(n, 0, sx_pick("ba", 0, 1), 1);
  sx_assert(DenseArrayShapeOfOp()(a.a.ToMask()).size == n);
  sx_assert(DenseArrayShapeSizeOp()(DenseArrayShape{s}) == s);
  int v = sx<int>("v"); bool p = sx<bool>("p");
  Check(DenseArrayConstWithShapeOp()(&ctx, DenseArrayShape{n}, v), Model<int>(n, El<int>{true, v}));
  Check(DenseArrayConstWithShapeOp()(&ctx, DenseArrayShape{n}, OptionalValue<int>(p, v)), Model<int>(n, El<int>{p, v}));
  Model<int64_t> iota;
  for (int i = 0; i < n; ++i) iota.push_back({true, i});
  Check(DenseArrayIotaOp()(&ctx, DenseArrayShape{n}), iota);
}
