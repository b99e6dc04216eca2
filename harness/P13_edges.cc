// Edges between dense arrays, group operations over them, and the edge operators
// (dense_array/edge.{h,cc}, dense_array/ops/{dense_group_ops,multi_edge_util}.h, qexpr/operators/dense_array/edge_ops.h,
// util/overflow.h).
// SX-SRCS: arolla/dense_array/edge.cc arolla/dense_array/bitmap.cc arolla/dense_array/dense_array.cc arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc arolla/util/preallocated_buffers.cc arolla/util/status.cc arolla/util/fingerprint.cc
// SX-FLAGS: -I$VERIF/harness/stub_protobuf
#include "edge_util.h"
#include "group_util.h"
#include "arolla/dense_array/ops/dense_group_ops.h"
#include "arolla/dense_array/ops/multi_edge_util.h"
#include "arolla/qexpr/aggregation_ops_interface.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/operators/dense_array/edge_ops.h"
#include "arolla/qexpr/operators/dense_array/group_lifter.h"
#include "arolla/util/overflow.h"

#ifdef SX_THOROUGH
constexpr bool kThorough = true;
#else
constexpr bool kThorough = false;
#endif
using namespace arolla;
using du::Arr, du::El, du::Model, du::Make, du::Check;
using eu::Edge, eu::EdgeModel, eu::CheckEdge;
namespace {
// split points or mapping over at most `parents` parents
Edge AnyEdge(int max_parents, int max_group, int max_children, int kinds = 3) {
  int kind = sx_pick("kind", 0, kinds - 1);
  int parents = sx_pick("parents", 0, max_parents);
  if (kind == 0) return eu::Splits(parents, max_group);
  int children = sx_pick("children", 0, max_children);
  if (kind == 1 && parents == 0 && children > 0) sx_end();
  return eu::Mapping(parents, children, kind == 2, 0);
}
}  // namespace

SX_ENTRY(overflow) {
  int64_t x = sx<int64_t>("x"), y = sx<int64_t>("y");
  bool o = sx<bool>("o"), before = o;
  __int128 s = (__int128)x + y;
  int64_t r = safe_add(x, y, &o);
  sx_assert(o == (before | (s != (int64_t)s)));
  sx_assert(r == (int64_t)s);
  auto sr = SafeAdd(x, y);
  sx_assert(sr.ok() == (s == (int64_t)s));
  if (sr.ok()) sx_assert(*sr == (int64_t)s);
  o = before;
  int64_t a = safe_abs(x, &o);
  sx_assert(o == (before | (x == INT64_MIN)));
  if (x != INT64_MIN) sx_assert(a == (x < 0 ? -x : x));
  sx_assert(SafeAbs(x).ok() == (x != INT64_MIN));
  o = before;
  int32_t n = safe_add<int32_t>(x, y, &o);
  sx_assert(o == (before | (s != (int32_t)s)));
  sx_assert(n == (int32_t)s);
}
SX_ENTRY(overflow_mul) {  // sx: bound=one_factor_of_5_bits_(8_in_thorough)
  int64_t x = sx<int64_t>("x"), y = sx_range<int64_t>("y", kThorough ? -128 : -16, kThorough ? 127 : 15);
  bool o = sx<bool>("o"), before = o;
  __int128 s = (__int128)x * y;
  int64_t r = safe_mul(x, y, &o);
  sx_assert(o == (before | (s != (int64_t)s)));
  sx_assert(r == (int64_t)s);
  auto sr = SafeMul(x, y);
  sx_assert(sr.ok() == (s == (int64_t)s));
  if (sr.ok()) sx_assert(*sr == (int64_t)s);
}
SX_ENTRY(from_split_points) {  // sx: bound=up_to_4_split_points_of_any_value,_up_to_4_children
  int n = sx_pick("n", 0, 4);
  auto a = Make<int64_t>(n, sx_pick("off", 0, 1), sx_pick("bm", 0, 1), 1, "s");
  bool good = n > 0;
  for (int i = 0; i < n; ++i) good &= a.m[i].p & (i ? a.m[i].v >= a.m[i - 1].v : a.m[i].v == 0);
  auto e = DenseArrayEdge::FromSplitPoints(a.a);
  sx_assert(e.ok() == good);
  if (!e.ok()) return;
  sx_assert(e->edge_type() == DenseArrayEdge::SPLIT_POINTS);
  sx_assert(e->parent_size() == n - 1);
  sx_assert(e->child_size() == a.m[n - 1].v);
  sx_assume(a.m[n - 1].v <= 4);
  EdgeModel m{n - 1, {}};
  for (int p = 0; p + 1 < n; ++p) {
    int64_t k = sx_concretize(a.m[p + 1].v - a.m[p].v);
    sx_assert(e->split_size(p) == k);
    for (int i = 0; i < k; ++i) m.map.push_back({true, p});
  }
  CheckEdge(*e, m);
  auto me = e->ToMappingEdge();
  sx_assert(me.edge_type() == DenseArrayEdge::MAPPING);
  CheckEdge(me, m);
  auto se = me.ToSplitPointsEdge();
  sx_assert(se.ok() && se->edge_type() == DenseArrayEdge::SPLIT_POINTS);
  CheckEdge(*se, m);
  sx_assert(e->IsEquivalentTo(me) && me.IsEquivalentTo(*e) && se->IsEquivalentTo(*e));
}
SX_ENTRY(from_mapping) {  // sx: bound=up_to_4_children,_any_parent_ids,_up_to_3_parents_in_conversions
  int n = sx_pick("n", 0, kThorough ? 4 : 3);
  auto a = Make<int64_t>(n, sx_pick("off", 0, 1), sx_pick("bm", 0, 1), 3, "m");
  int64_t parents = sx<int64_t>("parents");
  bool good = parents >= 0;
  for (auto& e : a.m) good &= !e.p | ((e.v >= 0) & (e.v < parents));
  auto e = DenseArrayEdge::FromMapping(a.a, parents);
  sx_assert(e.ok() == good);
  if (!e.ok()) return;
  sx_assert(e->edge_type() == DenseArrayEdge::MAPPING && e->parent_size() == parents && e->child_size() == n);
  sx_assume(parents <= 3);
  EdgeModel m{(int)sx_concretize(parents), {}};
  for (auto& x : a.m) {
    bool p = sx_concretize(x.p);
    m.map.push_back({p, (int64_t)(p ? sx_concretize(x.v) : 0)});
  }
  CheckEdge(*e, m);
  CheckEdge(e->ToMappingEdge(), m);
  auto s = e->ToSplitPointsEdge();
  sx_assert(s.ok() == eu::Sorted(m));
  if (s.ok()) {
    sx_assert(s->edge_type() == DenseArrayEdge::SPLIT_POINTS);
    CheckEdge(*s, m);
    CheckEdge(s->ToMappingEdge(), m);
  }
}
SX_ENTRY(uniform) {  // sx: bound=up_to_2_parents_(3_in_thorough),_any_group_size
  int64_t parents = sx_range<int64_t>("parents", -2, kThorough ? 3 : 2), group = sx<int64_t>("group");
  __int128 total = (__int128)parents * group;
  auto e = DenseArrayEdge::FromUniformGroups(parents, group);
  sx_assert(e.ok() == (parents >= 0 && group >= 0 && total <= INT64_MAX));
  if (!e.ok()) return;
  int n = sx_concretize(parents);
  sx_assert(e->edge_type() == DenseArrayEdge::SPLIT_POINTS && e->parent_size() == n && e->child_size() == (int64_t)total);
  sx_assert(e->edge_values().IsFull() && e->edge_values().size() == n + 1);
  for (int i = 0; i <= n; ++i) sx_assert(e->edge_values().values[i] == i * group);
}
SX_ENTRY(uniform_overflow) {  // sx: bound=any_parent_size_that_overflows_or_is_negative
  int64_t parents = sx<int64_t>("parents"), group = sx<int64_t>("group");
  sx_assume(parents < 0 || group < 0 || (parents >= (int64_t{1} << 33) && group >= (int64_t{1} << 33)));
  sx_assert(!DenseArrayEdge::FromUniformGroups(parents, group).ok());
}
SX_ENTRY(compose) {  // sx: shards=4 bound=chains_of_3_edges_of_up_to_2_parents_and_3_children
  int kinds = sx_shard(4);
  int n = 2 + (kinds != 0 || sx_pick("three", 0, 1));
  std::vector<DenseArrayEdge> es;
  std::vector<EdgeModel> ms;
  bool any_mapping = false;
  int parents = sx_pick("parents", 0, 2);
  for (int i = 0; i < n; ++i) {
    bool mapping = i < 2 ? (kinds >> i) & 1 : sx_pick("mapping", 0, 1);
    any_mapping |= mapping;
    Edge e = mapping ? eu::Mapping(parents, sx_pick("children", 0, i == 2 ? 1 : 2), true, i)
                     : eu::Splits(parents, i == 2 ? 1 : 2);
    if (e.m.children() > 3) sx_end();
    parents = e.m.children();
    es.push_back(e.e); ms.push_back(e.m);
  }
  auto r = DenseArrayEdge::ComposeEdges(es);
  sx_assert(r.ok());
  sx_assert(r->edge_type() == (any_mapping ? DenseArrayEdge::MAPPING : DenseArrayEdge::SPLIT_POINTS));
  EdgeModel want{ms[0].parents, {}};
  for (int c = 0; c < ms.back().children(); ++c) {
    bool p = true; int64_t at = c;
    for (int i = n - 1; i >= 0 && p; --i) { p = ms[i].map[at].p; at = ms[i].map[at].v; }
    want.map.push_back({p, at});
  }
  CheckEdge(*r, want);
}
SX_ENTRY(compose_errors) {
  sx_assert(!DenseArrayEdge::ComposeEdges({}).ok());
  Edge a = AnyEdge(2, 2, 2), b = AnyEdge(2, 1, 1);
  auto one = DenseArrayEdge::ComposeEdges({a.e});
  sx_assert(one.ok());
  sx_assert(one->edge_type() == a.e.edge_type());
  CheckEdge(*one, a.m);
  sx_assert(DenseArrayEdge::ComposeEdges({a.e, b.e}).ok() == (a.m.children() == b.m.parents));
}
SX_ENTRY(equivalent) {  // sx: shards=3 bound=up_to_2_parents_and_3_children
  int k = sx_shard(3), parents = sx_pick("parents", 0, 2);
  auto mk = [&](bool split, int ps, int off) {
    if (split) return eu::Splits(ps, 2);
    return eu::Mapping(ps, sx_pick("children", 0, 3), true, off);
  };
  Edge a = mk(k == 0, parents, 0), b = mk(k < 2, sx_pick("same", 0, 1) ? parents : 1, 1);
  if (a.m.children() > 3 || b.m.children() > 3) sx_end();
  bool same = a.m.parents == b.m.parents && a.m.children() == b.m.children();
  for (int i = 0; same && i < a.m.children(); ++i)
    same = a.m.map[i].p == b.m.map[i].p && (!a.m.map[i].p || a.m.map[i].v == b.m.map[i].v);
  sx_assert(a.e.IsEquivalentTo(b.e) == same);
  sx_assert(b.e.IsEquivalentTo(a.e) == same);
}

// ---- group operations
using gu::Acc, gu::IdAcc, gu::Want, gu::Expect, gu::Mix, gu::kAgg, gu::kPart, gu::kFull;
namespace {
struct GroupData { Arr<int> p, po, c, co; };
GroupData Data(const EdgeModel& m, int parts) {
  return {Make<int>(m.parents, 0, parts & 1, 2, "p"), Make<int>(m.parents, 1, parts & 1, 1, "po"),
          Make<int>(m.children(), 1, parts & 2, 2, "c"), Make<int>(m.children(), 0, parts & 2, 1, "co")};
}
template <class R> void Same(const absl::StatusOr<DenseArray<R>>& r, const Model<int>& want, bool ok) {
  sx_assert(r.ok() == ok);
  if (r.ok()) Check(*r, want);
}
}  // namespace

template <AccumulatorType TYPE>
void GroupOp(Model<int> Want::* field) {
  Edge e = AnyEdge(2, 2, 3);
  if (e.m.children() > 3) sx_end();
  auto d = Data(e.m, sx_pick("parts", 0, 3));
  int bad = sx<int>("bad");
  Want w = Expect<false>(e.m, d, bad);
  Same(DenseGroupOps<Acc<TYPE>>(GetHeapBufferFactory(), Acc<TYPE>(bad)).Apply(e.e, d.p.a, d.po.a, d.c.a, d.co.a), w.*field, w.ok);
}
SX_ENTRY(group_agg) { GroupOp<kAgg>(&Want::agg); }   // sx: bound=up_to_2_parents_and_3_children
SX_ENTRY(group_part) { GroupOp<kPart>(&Want::part); }  // sx: bound=up_to_2_parents_and_3_children
SX_ENTRY(group_full) { GroupOp<kFull>(&Want::full); }  // sx: bound=up_to_2_parents_and_3_children
SX_ENTRY(group_wide) {  // sx: bound=36_children_in_3_groups,_group_bounds_on_both_sides_of_a_word_edge,_split_points_and_mapping
  const int at[] = {0, 1, 30, 31, 32, 33, 36};
  int i = sx_pick("first", 0, 6), j = sx_pick("second", i, 6), off = sx_pick("off", 0, 1) * 31;
  EdgeModel m{3, {}};
  std::vector<int64_t> ids;
  for (int c = 0; c < 36; ++c) { int p = c < at[i] ? 0 : c < at[j] ? 1 : 2; m.map.push_back({true, p}); ids.push_back(p); }
  GroupData d{Make<int>(3, 0, true, 1, "p"), Make<int>(3, 0, false, 0, "po"), Make<int>(36, off, true, 2, "c", true), Make<int>(36, 1, true, 0, "co", true)};
  Want w = Expect<true>(m, d, 0);
  auto* f = GetHeapBufferFactory();
  DenseArrayEdge e = sx_pick("mapping", 0, 1) ? DenseArrayEdge::UnsafeFromMapping(eu::Ints(ids), 3)
                                              : DenseArrayEdge::UnsafeFromSplitPoints(eu::Ints({0, at[i], at[j], 36}));
  Same(DenseGroupOpsWithId<IdAcc<kAgg>>(f).Apply(e, d.p.a, d.po.a, d.c.a, d.co.a), w.agg, true);
  Same(DenseGroupOpsWithId<IdAcc<kPart>>(f).Apply(e, d.p.a, d.po.a, d.c.a, d.co.a), w.part, true);
}
SX_ENTRY(group_with_id) {  // sx: bound=up_to_2_parents_and_3_children
  Edge e = AnyEdge(2, 1, 2, 2);
  auto d = Data(e.m, sx_pick("parts", 0, 3));
  Want w = Expect<true>(e.m, d, 0);
  auto* f = GetHeapBufferFactory();
  Same(DenseGroupOpsWithId<IdAcc<kAgg>>(f).Apply(e.e, d.p.a, d.po.a, d.c.a, d.co.a), w.agg, true);
  Same(DenseGroupOpsWithId<IdAcc<kFull>>(f).Apply(e.e, d.p.a, d.po.a, d.c.a, d.co.a), w.full, true);
}
SX_ENTRY(group_scalar) {  // sx: bound=up_to_3_children
  EdgeModel m{1, {}};
  int n = sx_pick("n", 0, 3);
  for (int i = 0; i < n; ++i) m.map.push_back({true, 0});
  auto d = Data(m, sx_pick("parts", 0, 1) * 2);
  OptionalValue<int> po{sx<bool>("pp"), sx<int>("pov")};
  d.po.m[0] = {po.present, po.value};
  int bad = sx<int>("bad");
  Want w = Expect<false>(m, d, bad);
  DenseArrayGroupScalarEdge e(n);
  auto* f = GetHeapBufferFactory();
  int pv = d.p.m[0].v;
  auto a = DenseGroupOps<Acc<kAgg>>(f, Acc<kAgg>(bad)).Apply(e, pv, po, d.c.a, d.co.a);
  sx_assert(a.ok() == w.ok);
  if (a.ok()) { sx_assert(a->present == w.agg[0].p); sx_assert(!a->present | (a->value == w.agg[0].v)); }
  Same(DenseGroupOps<Acc<kPart>>(f, Acc<kPart>(bad)).Apply(e, pv, po, d.c.a, d.co.a), w.part, w.ok);
  Same(DenseGroupOps<Acc<kFull>>(f, Acc<kFull>(bad)).Apply(e, pv, po, d.c.a, d.co.a), w.full, w.ok);
}
SX_ENTRY(group_sizes) {  // sx: bound=sizes_0_to_2
  Edge e = AnyEdge(1, 1, 1);
  int s[4];
  for (int& x : s) x = sx_pick("s", 0, 1);
  auto mk = [](int n) { return Make<int>(n, 0, false).a; };
  auto r = DenseGroupOps<Acc<kAgg>>(GetHeapBufferFactory()).Apply(e.e, mk(s[0]), mk(s[1]), mk(s[2]), mk(s[3]));
  bool fit = s[0] == e.m.parents && s[1] == e.m.parents && s[2] == e.m.children() && s[3] == e.m.children();
  sx_assert(fit || !r.ok());
  auto r2 = DenseGroupOps<Acc<kFull>>(GetHeapBufferFactory()).Apply(DenseArrayGroupScalarEdge(e.m.children()), 1, {}, mk(s[2]), mk(s[3]));
  sx_assert((s[2] == e.m.children() && s[3] == e.m.children()) || !r2.ok());
}
SX_ENTRY(multi_edge) {  // sx: bound=up_to_2_parents_and_3_children
  Edge e = AnyEdge(2, 2, 3);
  if (e.m.children() > 3) sx_end();
  auto d = Data(e.m, sx_pick("parts", 0, 3));
  std::vector<unsigned> st(e.m.parents, 1), want(e.m.parents, 1);
  for (int p = 0; p < e.m.parents; ++p) if (d.p.m[p].p) want[p] = Mix(want[p], d.p.m[p].v, d.po.m[p].p ? d.po.m[p].v : 9, 0);
  using U = DenseArrayMultiEdgeUtil;
  auto s = U::ApplyParentArgs([](unsigned& s, int p, OptionalValue<int> o) { s = Mix(s, p, o.present ? o.value : 9, 0); },
                              absl::MakeSpan(st), meta::type_list<int, OptionalValue<int>>{}, d.p.a, d.po.a);
  sx_assert(s.ok());
  sx_assert(st == want);
  Model<int> out;
  for (int c = 0; c < e.m.children(); ++c) {
    bool valid = e.m.map[c].p && d.c.m[c].p;
    if (valid) { unsigned& h = want[e.m.map[c].v]; h = Mix(h, d.c.m[c].v, d.co.m[c].p ? d.co.m[c].v : 9, c); out.push_back({true, (int)h}); }
    else out.push_back({false, 0});
  }
  auto r = U::ProduceResult<int>(GetHeapBufferFactory(), [](unsigned& h, int64_t id, int c, OptionalValue<int> o) {
    h = Mix(h, c, o.present ? o.value : 9, id); return (int)h; },
    absl::MakeSpan(st), e.e, meta::type_list<int, OptionalValue<int>>{}, d.c.a, d.co.a);
  sx_assert(r.ok());
  Check(*r, out);
  sx_assert(st == want);
}
SX_ENTRY(multi_edge_sizes) {
  Edge e = AnyEdge(1, 1, 1);
  using U = DenseArrayMultiEdgeUtil;
  int n = sx_pick("states", 0, 2), c = sx_pick("c", 0, 2);
  std::vector<unsigned> st(n, 0);
  auto a = Make<int>(c, 0, false);
  auto fn = [](unsigned&, int64_t, int) {};
  sx_assert(U::ApplyChildArgs(fn, absl::MakeSpan(st), e.e, meta::type_list<int>{}, a.a).ok() == (n == e.m.parents && c == e.m.children()));
  sx_assert(U::ApplyParentArgs([](unsigned&, int) {}, absl::MakeSpan(st), meta::type_list<int>{}, a.a).ok() == (n == c));
}

// ---- edge operators
SX_ENTRY(from_sizes) {  // sx: bound=up_to_3_sizes_of_any_value
  int n = sx_pick("n", 0, 3);
  auto a = Make<int64_t>(n, sx_pick("off", 0, 1), sx_pick("bm", 0, 1), 2, "s");
  EvaluationContext ctx;
  auto r = DenseArrayEdgeFromSizesOp()(&ctx, a.a);
  bool good = true; __int128 total = 0;
  for (auto& e : a.m) { good &= e.p & (e.v >= 0); total += e.v; }
  good &= total <= INT64_MAX;
  sx_assert(r.ok() == good);
  if (!r.ok()) return;
  sx_assert(r->edge_type() == DenseArrayEdge::SPLIT_POINTS && r->parent_size() == n && r->child_size() == (int64_t)total);
  for (int i = 0; i < n; ++i) sx_assert(r->split_size(i) == a.m[i].v);
  auto back = DenseArrayEdgeSizesOp()(&ctx, *r);
  sx_assert(back.ok());
  Check(*back, a.m);
}
SX_ENTRY(pairs) {  // sx: bound=up_to_3_sizes_from_-3_to_3
  int n = sx_pick("n", 0, kThorough ? 3 : 2);
  EvaluationContext ctx;
  std::vector<int64_t> s;
  bool bad = false;
  for (int i = 0; i < n; ++i) { s.push_back(sx_pick("s", -2, 3)); bad |= s.back() < 0; }
  auto l = DenseArrayEdgePairLeftOp()(&ctx, eu::Ints(s));
  auto r = DenseArrayEdgePairRightOp()(&ctx, eu::Ints(s));
  sx_assert(l.ok() == !bad);
  sx_assert(r.ok() == !bad);
  if (bad) return;
  EdgeModel wl{0, {}}, wr{0, {}};
  for (int64_t k : s) {
    for (int i = 0; i < k; ++i)
      for (int j = 0; j < k; ++j) { wl.map.push_back({true, wl.parents + i}); wr.map.push_back({true, wl.parents + j}); }
    wl.parents += k;
  }
  wr.parents = wl.parents;
  CheckEdge(*l, wl);
  CheckEdge(*r, wr);
  if (n) {
    DenseArray<int64_t> miss = eu::Ints(s);
    miss.bitmap = du::Bm({0});
    sx_assert(!DenseArrayEdgePairLeftOp()(&ctx, miss).ok());
    sx_assert(!DenseArrayEdgePairRightOp()(&ctx, miss).ok());
  }
}
SX_ENTRY(pairs_overflow) {  // sx: bound=2_sizes_of_any_value_that_overflows_or_is_negative
  EvaluationContext ctx;
  int64_t a = sx<int64_t>("a"), b = sx_range<int64_t>("b", -3, 3);
  sx_assume(a < 0 || a >= (int64_t{1} << 32) || b < 0);
  sx_assume(a < 1000 || a >= (int64_t{1} << 32));
  bool swap = sx_pick("swap", 0, 1);
  auto s = swap ? eu::Ints({b, a}) : eu::Ints({a, b});
  sx_assert(!DenseArrayEdgePairLeftOp()(&ctx, s).ok());
  sx_assert(!DenseArrayEdgePairRightOp()(&ctx, s).ok());
}
SX_ENTRY(edge_views) {  // sx: bound=up_to_3_parents_and_4_children
  Edge e = AnyEdge(kThorough ? 3 : 2, 2, 3);
  EvaluationContext ctx;
  Check(DenseArrayEdgeMappingOp()(&ctx, e.e), e.m.map);
  sx_assert(DenseArrayEdgeChildShapeOp()(e.e).size == e.m.children());
  sx_assert(DenseArrayEdgeParentShapeOp()(e.e).size == e.m.parents);
  Model<int64_t> sizes(e.m.parents, {true, 0});
  for (auto& x : e.m.map) if (x.p) ++sizes[x.v].v;
  auto s = DenseArrayEdgeSizesOp()(&ctx, e.e);
  sx_assert(s.ok());
  Check(*s, sizes);
  auto m = DenseArrayEdgeFromMappingOp()(DenseArrayEdgeMappingOp()(&ctx, e.e), e.m.parents);
  sx_assert(m.ok() && m->IsEquivalentTo(e.e));
}
SX_ENTRY(scalar_edge) {
  EvaluationContext ctx;
  int n = sx_pick("n", 0, 3);
  auto e = DenseArrayEdgeFromShapeOp()(DenseArrayShape{n});
  sx_assert(e.child_size() == n && DenseArrayEdgeSizesOp()(e) == n && DenseArrayEdgeChildShapeOp()(e).size == n);
  Check(DenseArrayEdgeMappingOp()(e), Model<int64_t>(n, {true, 0}));
  OptionalValue<int> v{sx<bool>("p"), sx<int>("v")};
  auto r = DenseArrayExpandOp()(&ctx, v, e);
  sx_assert(r.ok());
  Check(*r, Model<int>(n, {v.present, v.value}));
  auto u = Make<int>(n, 3, sx_pick("bm", 0, 1), 3);
  int64_t want = 0;
  for (auto& x : u.m) want += x.p;
  sx_assert(DenseArrayCountOp()(u.a.ToMask(), e) == want);
  int64_t size = sx_range<int64_t>("size", -1, 5);
  auto g = DenseArrayEdgeResizeGroupsParentSide()(&ctx, e, size);
  sx_assert(g.ok() == (size >= 0));
  if (g.ok()) sx_assert(g->child_size() == size);
}
SX_ENTRY(expand) {  // sx: bound=up_to_3_parents_and_4_children,_all_offsets_of_the_parent_bitmap_0_and_1
  Edge e = AnyEdge(2, 2, 3);
  EvaluationContext ctx;
  bool bm = sx_pick("bm", 0, 1);
  int n = e.m.parents + (sx_pick("longer", 0, 4) == 4);
  auto a = Make<int>(n, 1, bm, 1);
  auto r = DenseArrayExpandOp()(&ctx, a.a, e.e);
  sx_assert(r.ok() == (n == e.m.parents));
  if (!r.ok()) return;
  Model<int> want;
  for (auto& c : e.m.map) want.push_back(c.p ? a.m[c.v] : El<int>{false, 0});
  Check(*r, want);
}
SX_ENTRY(expand_text) {  // sx: bound=2_parents,_texts_of_up_to_2_bytes
  Edge e = AnyEdge(2, 2, 2);
  EvaluationContext ctx;
  DenseArrayBuilder<Text> b(e.m.parents);
  Model<std::string> vals;
  for (int i = 0; i < e.m.parents; ++i) {
    int len = sx_pick("len", -1, 2);
    std::string s;
    for (int k = 0; k < len; ++k) s.push_back(sx<char>("c"));
    if (len >= 0) b.Set(i, s);
    vals.push_back({len >= 0, s});
  }
  auto r = DenseArrayExpandOp()(&ctx, std::move(b).Build(), e.e);
  sx_assert(r.ok());
  Model<std::string> want;
  for (auto& c : e.m.map) want.push_back(c.p ? vals[c.v] : El<std::string>{false, ""});
  Check(*r, want);
}
SX_ENTRY(expand_wide) {  // sx: bound=2_groups_of_up_to_66_children
  int a = sx_pick("a", 0, 5), b = sx_pick("b", 0, 5);
  const int len[] = {0, 1, 31, 32, 33, 64};
  DenseArrayEdge e = DenseArrayEdge::UnsafeFromSplitPoints(eu::Ints({0, len[a], len[a] + len[b]}));
  EvaluationContext ctx;
  auto v = Make<int>(2, 31, true, 2);
  auto r = DenseArrayExpandOp()(&ctx, v.a, e);
  sx_assert(r.ok());
  Model<int> want(len[a], v.m[0]);
  want.resize(len[a] + len[b], v.m[1]);
  Check(*r, want);
}
template <class T> DenseArray<T> FromOpt(const std::vector<OptionalValue<T>>& v) {
  DenseArrayBuilder<T> b(v.size());
  for (size_t i = 0; i < v.size(); ++i) b.Set(i, v[i]);
  return std::move(b).Build();
}
template <class T> void GroupBy(std::vector<OptionalValue<T>> vals, const Edge& e, bool nan) {
  EvaluationContext ctx;
  auto r = DenseArrayGroupByOp()(&ctx, FromOpt(vals), e.e);
  sx_assert(r.ok() == !nan);
  if (!r.ok()) return;
  auto& m = r->edge_values();
  sx_assert(r->edge_type() == DenseArrayEdge::MAPPING && m.size() == (int64_t)vals.size() && m.CheckBitmapMatchesValues());
  // two elements are in the same group iff both have the same parent and equal values; groups are numbered 0..k-1
  std::vector<bool> used(r->parent_size(), false);
  for (int i = 0; i < m.size(); ++i) {
    bool in = e.m.map[i].p && vals[i].present;
    sx_assert(m.present(i) == in);
    if (!in) continue;
    int64_t g = m.values[i];
    sx_assert(g >= 0 && g < r->parent_size());
    used[g] = true;
    for (int j = 0; j < i; ++j)
      if (m.present(j)) sx_assert((m.values[j] == g) == (e.m.map[i].v == e.m.map[j].v && vals[i].value == vals[j].value));
  }
  for (bool u : used) sx_assert(u);
}
SX_ENTRY(group_by) {  // sx: bound=3_elements,_2_parents
  Edge e = AnyEdge(2, 2, 3);
  if (e.m.children() > 3) sx_end();
  std::vector<OptionalValue<int>> v;
  for (int i = 0; i < e.m.children(); ++i) v.push_back({sx_pick("p", 0, 1) != 0, sx_range<int>("v", 0, 2)});
  GroupBy<int>(v, e, false);
}
SX_ENTRY(group_by_float) {  // sx: bound=3_elements_out_of_five_special_values
  Edge e = AnyEdge(1, 3, 3, 2);
  if (e.m.children() > 3) sx_end();
  const float pool[] = {0.f, -0.f, 1.f, __builtin_inff(), __builtin_nanf("")};
  std::vector<OptionalValue<float>> v;
  bool nan = false;
  for (int i = 0; i < e.m.children(); ++i) { int k = sx_pick("k", -1, 4); nan |= k == 4 && e.m.map[i].p; v.push_back({k >= 0, k >= 0 ? pool[k] : 0.f}); }
  GroupBy<float>(v, e, nan);
}
SX_ENTRY(resize_child) {  // sx: shards=2 bound=up_to_2_groups_of_2_children,_any_offsets,_sizes_-2_to_3
  EvaluationContext ctx;
  bool many = sx_shard(2);
  Edge e = AnyEdge(2, 2, 1, 3);
  if (e.m.children() > 3) sx_end();
  bool split = e.e.edge_type() == DenseArrayEdge::SPLIT_POINTS;
  int n = e.m.children() + (sx_pick("longer", 0, 3) == 3);
  auto off = Make<int64_t>(n, 1, sx_pick("bm", 0, 1), 2, "o");
  std::vector<int64_t> sizes;
  bool bad = !split || n != e.m.children();
  absl::StatusOr<DenseArrayEdge> r;
  bool neg_size = false;
  if (many) {
    int k = e.m.parents + (sx_pick("more", 0, 3) == 3);
    for (int i = 0; i < k; ++i) { sizes.push_back(sx_pick("size", -1, 2)); neg_size |= sizes[i] < 0; }
    bad |= k != e.m.parents;
    r = DenseArrayEdgeResizeGroupsChildSide()(&ctx, e.e, eu::Ints(sizes), off.a);
  } else {
    int s = sx_pick("size", -1, 3);
    sizes.assign(e.m.parents, s);
    neg_size = s < 0 && e.m.parents > 0;
    r = DenseArrayEdgeResizeGroupsChildSide()(&ctx, e.e, s, off.a);
    if (s < 0 && e.m.parents == 0) return;  // either answer is fine
  }
  bad |= neg_size;
  if (bad) { sx_assert(!r.ok()); return; }
  EdgeModel want{e.m.children(), {}};
  std::vector<int> base;
  for (int64_t s : sizes) { base.push_back(want.children()); for (int i = 0; i < s; ++i) want.map.push_back({false, 0}); }
  for (int c = 0; c < n; ++c) {
    if (!sx_concretize(off.m[c].p)) continue;
    int64_t o = off.m[c].v;
    if (o < 0) { bad = true; continue; }
    if (o >= sizes[e.m.map[c].v]) continue;
    auto& slot = want.map[base[e.m.map[c].v] + sx_concretize(o)];
    bad |= slot.p;
    slot = {true, c};
  }
  sx_assert(r.ok() == !bad);
  if (r.ok()) CheckEdge(*r, want);
}
SX_ENTRY(resize_child_scalar_edge) {  // sx: bound=up_to_3_children,_any_offsets
  EvaluationContext ctx;
  int n = sx_pick("n", 0, 3), s = sx_pick("size", -1, 3);
  auto off = Make<int64_t>(n, 0, sx_pick("bm", 0, 1), 3, "o");
  auto r = DenseArrayEdgeResizeGroupsChildSide()(&ctx, DenseArrayGroupScalarEdge(n), s, off.a);
  if (s < 0) { sx_assert(!r.ok()); return; }
  EdgeModel want{n, Model<int64_t>(s, {false, 0})};
  bool bad = false;
  for (int c = 0; c < n; ++c) {
    if (!sx_concretize(off.m[c].p)) continue;
    int64_t o = off.m[c].v;
    if (o < 0) { bad = true; continue; }
    if (o >= s) continue;
    auto& slot = want.map[sx_concretize(o)];
    bad |= slot.p;
    slot = {true, c};
  }
  sx_assert(r.ok() == !bad);
  if (r.ok()) CheckEdge(*r, want);
}
SX_ENTRY(resize_child_overflow) {  // sx: bound=sizes_of_any_value_whose_total_overflows_or_that_are_negative
  EvaluationContext ctx;
  DenseArrayEdge e = DenseArrayEdge::UnsafeFromSplitPoints(eu::Ints({0, 1, 2}));
  DenseArray<int64_t> off = eu::Ints({sx<int64_t>("o0"), sx<int64_t>("o1")});
  int64_t a = sx<int64_t>("a"), b = sx<int64_t>("b");
  if (sx_pick("many", 0, 1)) {
    sx_assume(a < 0 || b < 0 || (__int128)a + b > INT64_MAX);
    sx_assert(!DenseArrayEdgeResizeGroupsChildSide()(&ctx, e, eu::Ints({a, b}), off).ok());
  } else {
    sx_assume(a < 0 || a > INT64_MAX / 2);
    sx_assert(!DenseArrayEdgeResizeGroupsChildSide()(&ctx, e, a, off).ok());
  }
}
SX_ENTRY(resize_parent) {  // sx: bound=up_to_3_groups,_any_sizes
  EvaluationContext ctx;
  Edge e = AnyEdge(3, 1, 1, 2);
  bool split = e.e.edge_type() == DenseArrayEdge::SPLIT_POINTS;
  absl::StatusOr<DenseArrayEdge> r;
  std::vector<int64_t> sizes;
  bool good = split; __int128 total = 0;
  if (sx_pick("many", 0, 1)) {
    int k = e.m.parents + (sx_pick("more", 0, 3) == 3);
    for (int i = 0; i < k; ++i) sizes.push_back(sx<int64_t>("size"));
    good &= k == e.m.parents;
    r = DenseArrayEdgeResizeGroupsParentSide()(&ctx, e.e, eu::Ints(sizes));
  } else {
    int64_t s = sx<int64_t>("size");
    sizes.assign(e.m.parents, s);
    good &= s >= 0;
    r = DenseArrayEdgeResizeGroupsParentSide()(&ctx, e.e, s);
  }
  for (int64_t s : sizes) { good &= s >= 0; total += s; }
  good &= total <= INT64_MAX;
  sx_assert(r.ok() == good);
  if (!r.ok()) return;
  sx_assert(r->edge_type() == DenseArrayEdge::SPLIT_POINTS && r->parent_size() == e.m.parents && r->child_size() == (int64_t)total);
  for (int i = 0; i < e.m.parents; ++i) sx_assert(r->split_size(i) == sizes[i]);
}
SX_ENTRY(lifter) {  // sx: bound=up_to_2_parents_and_2_children
  Edge e = AnyEdge(2, 1, 2, 2);
  auto d = Data(e.m, 3);
  EvaluationContext ctx;
  int bad = sx<int>("bad");
  Want w = Expect<false>(e.m, d, bad);
  using L = DenseArrayGroupLifter<Acc<kAgg>, meta::type_list<int, OptionalValue<int>>, meta::type_list<int, OptionalValue<int>>>;
  Same(L()(&ctx, d.p.a, d.po.a, d.c.a, d.co.a, e.e, bad), w.agg, w.ok);
}
