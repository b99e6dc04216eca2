// Edges between arrays in any form, group operations over them, and the array operators
// (array/{edge.{h,cc},group_op.h,multi_edge_util.h}, qexpr/operators/array/{edge_ops,array_ops,logic_ops,factory_ops,lifter}.h).
// SX-SRCS: arolla/array/edge.cc arolla/array/array.cc arolla/array/array_util.cc arolla/array/id_filter.cc arolla/qexpr/operators/array/array_ops.cc arolla/dense_array/edge.cc arolla/dense_array/bitmap.cc arolla/dense_array/dense_array.cc arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc arolla/util/preallocated_buffers.cc arolla/util/status.cc arolla/util/fingerprint.cc
// SX-FLAGS: -I$VERIF/harness/stub_protobuf
#include "array_gen.h"
#include "edge_util.h"
#include "group_util.h"
#include "arolla/array/edge.h"
#include "arolla/array/group_op.h"
#include "arolla/array/multi_edge_util.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/operators/array/array_ops.h"
#include "arolla/qexpr/operators/array/edge_ops.h"
#include "arolla/qexpr/operators/array/factory_ops.h"
#include "arolla/qexpr/operators/array/lifter.h"
#include "arolla/qexpr/operators/array/logic_ops.h"

#ifdef SX_THOROUGH
constexpr bool kThorough = true;
#else
constexpr bool kThorough = false;
#endif
using namespace arolla;
using ar::Check, ar::El, ar::Ids, ar::Model, ar::Opt;
using AM = ar::Arr<int>;
using eu::EdgeModel;
namespace {
struct Edge { ArrayEdge e; EdgeModel m; };
// a mapping array in a chosen form: 0 constant, 1 dense, 2 sparse. Parents (or none) are chosen by forking.
Array<int64_t> MappingArray(int parents, int n, int form, Model<int64_t>* m, bool missing = true) {
  int lo = missing ? -1 : 0;
  auto pick = [&] { int p = sx_pick("parent", lo, parents - 1); return El<int64_t>{p >= 0, p}; };
  if (parents == 0 && !missing && n) sx_end();
  if (form == 0) {
    El<int64_t> e = n ? pick() : El<int64_t>{(bool)sx_pick("mv", 0, 1), 5};  // an empty array may have any missing_id_value
    *m = Model<int64_t>(n, e);
    return Array<int64_t>(n, Opt<int64_t>(e.p, e.v));
  }
  int mask = form == 1 ? (1 << n) - 1 : n >= 2 ? sx_pick("ids", 1, (1 << n) - 2) : (sx_end(), 0);
  El<int64_t> mv{false, 0};
  if (form == 2) mv = pick();
  std::vector<int64_t> ids, vals; std::vector<bool> here;
  bool all = true;
  for (int i = 0; i < n; ++i) {
    if (!(mask >> i & 1)) { m->push_back(mv); continue; }
    m->push_back(pick());
    ids.push_back(i + 3); vals.push_back(m->back().p ? m->back().v : 99); here.push_back(m->back().p);
    all &= m->back().p;
  }
  DenseArray<int64_t> d{Ids(vals)};
  if (!all) {
    bitmap::Word w = 0x50000000;
    for (size_t i = 0; i < here.size(); ++i) w |= bitmap::Word{here[i]} << (i + 2);
    d.bitmap = du::Bm({w}); d.bitmap_bit_offset = 2;
  }
  if (form == 1) return Array<int64_t>(d);
  return Array<int64_t>(n, IdFilter(n, Ids(ids), 3), d, Opt<int64_t>(mv.p, mv.v));
}
Edge Splits(int parents, int max_group) {
  auto d = eu::Splits(parents, max_group);
  return {ArrayEdge::UnsafeFromSplitPoints(Array<int64_t>(d.e.edge_values())), d.m};
}
Edge Mapping(int parents, int n, int form, bool missing = true) {
  EdgeModel m{parents, {}};
  auto a = MappingArray(parents, n, form, &m.map, missing);
  return {ArrayEdge::UnsafeFromMapping(a, parents), m};
}
// kind 0 split points, 1 constant mapping, 2 dense mapping, 3 sparse mapping
Edge AnyEdge(int kind, int max_parents, int max_group, int max_children, int max_total = 99) {
  int parents = sx_pick("parents", 0, max_parents);
  Edge e = kind == 0 ? Splits(parents, max_group) : Mapping(parents, sx_pick("children", 0, max_children), kind - 1);
  if (e.m.children() > max_total) sx_end();
  return e;
}
// the edge is consistent and has the mapping of the model; read without using the id filter lookups
void CheckEdge(const ArrayEdge& e, const EdgeModel& m) {
  sx_assert(e.parent_size() == m.parents && e.child_size() == m.children());
  if (e.edge_type() == ArrayEdge::MAPPING) { Check(e.edge_values(), m.map); return; }
  sx_assert(e.edge_values().IsFullForm() && e.edge_values().size() == m.parents + 1);
  sx_assert(eu::Sorted(m));
  auto& s = e.edge_values().dense_data().values;
  sx_assert(s[0] == 0 && s[m.parents] == m.children());
  int64_t at = 0;
  for (int p = 0; p < m.parents; ++p) {
    while (at < m.children() && m.map[at].v == p) ++at;
    sx_assert(s[p + 1] == at && e.split_size(p) == s[p + 1] - s[p]);
  }
}
}  // namespace

// ---- edges
SX_ENTRY(from_split_points) {  // sx: shards=3 bound=up_to_3_split_points_of_any_value_in_every_form
  int form = sx_shard(3), n = sx_pick("n", 0, 3);
  auto a = ar::Make<int64_t>(n, 1 << form, "s");
  bool good = n > 0;
  for (int i = 0; i < n; ++i) good &= a.m[i].p & (i ? a.m[i].v >= a.m[i - 1].v : a.m[i].v == 0);
  auto e = ArrayEdge::FromSplitPoints(a.a);
  sx_assert(e.ok() == good);
  if (!e.ok()) return;
  sx_assert(e->edge_type() == ArrayEdge::SPLIT_POINTS && e->parent_size() == n - 1 && e->child_size() == a.m[n - 1].v);
  sx_assert(e->edge_values().IsFullForm());
  for (int i = 0; i < n; ++i) sx_assert(e->edge_values().dense_data().values[i] == a.m[i].v);
  for (int i = 0; i + 1 < n; ++i) sx_assert(e->split_size(i) == a.m[i + 1].v - a.m[i].v);
}
SX_ENTRY(from_mapping) {  // sx: shards=3 bound=up_to_3_children_with_any_parent_ids_in_every_form
  int form = sx_shard(3), n = sx_pick("n", 0, 3);
  auto a = ar::Make<int64_t>(n, 1 << form, "m");
  int64_t parents = sx<int64_t>("parents");
  bool good = parents >= 0;
  for (auto& e : a.m) good &= !e.p | ((e.v >= 0) & (e.v < parents));
  auto e = ArrayEdge::FromMapping(a.a, parents);
  sx_assert(e.ok() == good);
  if (!e.ok()) return;
  sx_assert(e->edge_type() == ArrayEdge::MAPPING && e->parent_size() == parents && e->child_size() == n);
  Check(e->edge_values(), a.m);
}
SX_ENTRY(convert) {  // sx: shards=4 bound=up_to_2_parents_and_3_children,_mappings_in_every_form
  Edge e = AnyEdge(sx_shard(4), 2, 2, 3, 3);
  CheckEdge(e.e.ToMappingEdge(), e.m);
  sx_assert(e.e.ToMappingEdge().edge_type() == ArrayEdge::MAPPING);
  auto s = e.e.ToSplitPointsEdge();
  sx_assert(s.ok() == eu::Sorted(e.m));
  if (s.ok()) { sx_assert(s->edge_type() == ArrayEdge::SPLIT_POINTS); CheckEdge(*s, e.m); }
  eu::CheckEdge(e.e.ToDenseArrayEdge(), e.m);
  CheckEdge(ArrayEdge::FromDenseArrayEdge(e.e.ToDenseArrayEdge()), e.m);
  EvaluationContext ctx;
  Check(ArrayEdgeMappingOp()(&ctx, e.e), e.m.map);
  sx_assert(ArrayEdgeChildShapeOp()(e.e).size == e.m.children() && ArrayEdgeParentShapeOp()(e.e).size == e.m.parents);
  Model<int64_t> sizes(e.m.parents, {true, 0});
  for (auto& x : e.m.map) if (x.p) ++sizes[x.v].v;
  auto z = ArrayEdgeSizesOp()(&ctx, e.e);
  sx_assert(z.ok());
  Check(*z, sizes);
  auto d = ArrayEdgeAsDenseArrayOp()(&ctx, e.e);
  sx_assert(d.ok() && d->edge_type() == e.e.edge_type() && d->edge_values().bitmap_bit_offset == 0);
  eu::CheckEdge(*d, e.m);
}
SX_ENTRY(compose) {  // sx: shards=8 bound=chains_of_2_or_3_edges_of_up_to_2_parents_and_2_children,_mappings_in_every_form
  int k = sx_shard(8), n = 2 + (k & 1);
  std::vector<ArrayEdge> es; std::vector<EdgeModel> ms;
  bool any_mapping = false;
  int parents = n == 3 ? sx_pick("parents", 1, 2) : sx_pick("parents", 0, 2);
  for (int i = 0; i < n; ++i) {
    int kind = i == 0 ? k >> 1 : sx_pick("kind", 0, i == 2 ? 1 : 3);
    any_mapping |= kind > 0;
    Edge e = kind ? Mapping(parents, sx_pick("children", 0, i == 2 ? 1 : 2), kind - 1) : Splits(parents, i == 2 ? 1 : 2);
    if (e.m.children() > 2) sx_end();
    parents = e.m.children();
    es.push_back(e.e); ms.push_back(e.m);
  }
  auto r = ArrayEdge::ComposeEdges(es);
  sx_assert(r.ok());
  sx_assert(r->edge_type() == (any_mapping ? ArrayEdge::MAPPING : ArrayEdge::SPLIT_POINTS));
  EdgeModel want{ms[0].parents, {}};
  for (int c = 0; c < ms.back().children(); ++c) {
    bool p = true; int64_t at = c;
    for (int i = n - 1; i >= 0 && p; --i) { p = ms[i].map[at].p; at = ms[i].map[at].v; }
    want.map.push_back({p, at});
  }
  CheckEdge(*r, want);
}
SX_ENTRY(compose_errors) {
  sx_assert(!ArrayEdge::ComposeEdges({}).ok());
  Edge a = Splits(sx_pick("p", 0, 2), 1), b = Mapping(sx_pick("q", 0, 2), sx_pick("c", 0, 1), 0);
  sx_assert(ArrayEdge::ComposeEdges({a.e, b.e}).ok() == (a.m.children() == b.m.parents));
  sx_assert(ArrayEdge::ComposeEdges({b.e, a.e}).ok() == (b.m.children() == a.m.parents));
}
SX_ENTRY(equivalent) {  // sx: shards=8 bound=up_to_2_parents_and_2_children,_mappings_in_every_form
  int k = sx_shard(8), pa = sx_pick("parents", 0, 2), pb = sx_pick("same", 0, 1) ? pa : 1;
  auto mk = [&](int kind, int ps) { return kind ? Mapping(ps, sx_pick("children", 0, 2), kind - 1) : Splits(ps, 2); };
  Edge a = mk(k & 3, pa), b = mk((k >> 2) * 2 + sx_pick("kind", 0, 1), pb);
  if (a.m.children() > 2 || b.m.children() > 2) sx_end();
  bool same = a.m.parents == b.m.parents && a.m.children() == b.m.children();
  for (int i = 0; same && i < a.m.children(); ++i)
    same = a.m.map[i].p == b.m.map[i].p && (!a.m.map[i].p || a.m.map[i].v == b.m.map[i].v);
  sx_assert(a.e.IsEquivalentTo(b.e) == same);
}
SX_ENTRY(uniform) {  // sx: bound=up_to_2_parents,_any_group_size
  int64_t parents = sx_pick("parents", -1, 2), group = sx<int64_t>("group");
  __int128 total = (__int128)parents * group;
  auto e = ArrayEdge::FromUniformGroups(parents, group);
  sx_assert(e.ok() == (parents >= 0 && group >= 0 && total <= INT64_MAX));
  if (!e.ok()) return;
  int n = sx_concretize(parents);
  sx_assert(e->edge_type() == ArrayEdge::SPLIT_POINTS && e->parent_size() == n && e->child_size() == (int64_t)total);
  for (int i = 0; i < n; ++i) sx_assert(e->split_size(i) == group);
}

// ---- group operations
using gu::Acc, gu::IdAcc, gu::Want, gu::Expect, gu::Mix, gu::kAgg, gu::kPart, gu::kFull;
namespace {
struct GroupData { AM p, po, c, co; };
// forms of the child arguments; parent arguments are dense or constant
GroupData Data(const EdgeModel& m, int form_c, int form_co) {
  int pf = kThorough ? sx_pick("parent_form", 0, 1) : form_c != 0;  // always read in dense form
  auto mk = [&](int n, int form, const char* name) { return ar::Make<int>(n, 1 << form, name); };
  return {mk(m.parents, pf, "p"), mk(m.parents, 0, "po"), mk(m.children(), form_c, "c"), mk(m.children(), form_co, "co")};
}
template <class R> void Same(const absl::StatusOr<R>& r, const Model<int>& want, bool ok) {
  sx_assert(r.ok() == ok);
  if (r.ok()) Check(*r, want);
}
template <class A, bool dense = false>
using Op = array_ops_internal::ArrayGroupOpImpl<A, meta::type_list<int, OptionalValue<int>>, meta::type_list<int, OptionalValue<int>>, false, dense>;
template <class A, bool dense = false>
using IdOp = array_ops_internal::ArrayGroupOpImpl<A, meta::type_list<int, OptionalValue<int>>, meta::type_list<int, OptionalValue<int>>, true, dense>;

// without parent arguments; the aggregate of groups without children is not missing
template <AccumulatorType TYPE>
struct NoPar : Accumulator<TYPE, OptionalValue<int>, meta::type_list<>, meta::type_list<int, OptionalValue<int>>> {
  unsigned h = 0; int bad = 0, rows = 0; bool fin = false; absl::Status status;
  explicit NoPar(int b) : bad(b) {}
  void Reset() final { h = 11; rows = 0; fin = false; }
  void Add(int x, OptionalValue<int> y) final {
    h = Mix(h, x, y.present ? y.value : 77, 0);
    if (x == bad) status = absl::InvalidArgumentError("bad");
    sx_assert(!fin);
  }
  void AddN(int64_t n, int x, OptionalValue<int> y) final {
    sx_assert(n > 0);
    for (int64_t i = 0; i < n; ++i) this->Add(x, y);
  }
  void FinalizeFullGroup() final { fin = true; }
  OptionalValue<int> GetResult() final {
    sx_assert(fin == (TYPE == kFull));
    if (TYPE == kFull) h ^= 1u << (4 * (rows++ % 8));
    return {true, (int)h};
  }
  absl::Status GetStatus() final { return status; }
};
template <AccumulatorType TYPE>
using NoParOp = array_ops_internal::ArrayGroupOpImpl<NoPar<TYPE>, meta::type_list<>, meta::type_list<int, OptionalValue<int>>, false, false>;
struct NoParWant { Model<int> agg, part, full; bool ok = true; };
NoParWant ExpectNoPar(const EdgeModel& m, const Model<int>& c, const Model<int>& co, int bad) {
  NoParWant w;
  w.part = w.full = Model<int>(m.children(), {false, 0});
  for (int p = 0; p < m.parents; ++p) {
    unsigned h = 11; std::vector<int> rows;
    for (int i = 0; i < m.children(); ++i) {
      if (!m.map[i].p || m.map[i].v != p || !c[i].p) continue;
      h = Mix(h, c[i].v, co[i].p ? co[i].v : 77, 0);
      w.ok &= c[i].v != bad;
      w.part[i] = {true, (int)h};
      rows.push_back(i);
    }
    w.agg.push_back({true, (int)h});
    int k = 0;
    for (int i : rows) { h ^= 1u << (4 * (k++ % 8)); w.full[i] = {true, (int)h}; }
  }
  return w;
}
}  // namespace

template <AccumulatorType TYPE>
void GroupOp(Model<int> Want::* field) {
  int s = sx_shard(12);  // kind of the edge, form of the required child argument
  Edge e = AnyEdge(s & 3, 2, 2, 2, 2);
  int co = kThorough ? sx_pick("co", 0, e.m.children() == 2 ? 2 : 1) : ((s >> 2) + e.m.parents) % (e.m.children() == 2 ? 3 : 2);
  auto d = Data(e.m, s >> 2, co);
  int bad = sx<int>("bad");
  Want w = Expect<false>(e.m, d, bad);
  Same(Op<Acc<TYPE>>(GetHeapBufferFactory(), Acc<TYPE>(bad)).Apply(e.e, d.p.a, d.po.a, d.c.a, d.co.a), w.*field, w.ok);
}
SX_ENTRY(group_agg) { GroupOp<kAgg>(&Want::agg); }    // sx: shards=12 bound=up_to_2_parents_and_2_children,_arguments_in_every_form
SX_ENTRY(group_part) { GroupOp<kPart>(&Want::part); }  // sx: shards=12 bound=up_to_2_parents_and_2_children,_arguments_in_every_form
SX_ENTRY(group_full) { GroupOp<kFull>(&Want::full); }  // sx: shards=12 bound=up_to_2_parents_and_2_children,_arguments_in_every_form

namespace {
// n elements, those at the given ids listed, every other with the value of mv
template <class T> ar::Arr<T> Listed(int n, std::vector<int64_t> ids, bool bitmap, El<T> mv, const char* name = "x") {
  auto d = du::Make<T>(ids.size(), 0, bitmap, ids.size(), name);
  ar::Arr<T> r{Array<T>(n, IdFilter(n, Ids(ids)), d.a, Opt<T>(mv.p, mv.v)), Model<T>(n, mv)};
  for (size_t i = 0; i < ids.size(); ++i) r.m[ids[i]] = d.m[i];
  return r;
}
const std::vector<std::vector<int64_t>> kSparseIds = {{0, 1}, {0, 7}, {3, 4}, {6, 7}};
}  // namespace
// few children present: results are built in sparse form
SX_ENTRY(group_sparse) {  // sx: shards=4 bound=8_children,_2_of_them_listed_in_4_ways,_3_parents
  int s = sx_shard(4), how = sx_pick("ids", 0, 3), by = s & 1;
  EdgeModel m{3, {}};
  const int at[] = {0, 1, 4, 7, 8};
  int a = sx_pick("a", 0, 4), b = sx_pick("b", a, 4);
  std::vector<int64_t> map;
  for (int c = 0; c < 8; ++c) { int p = c < at[a] ? 0 : c < at[b] ? 1 : 2; m.map.push_back({true, p}); map.push_back(p); }
  ArrayEdge e = by ? ArrayEdge::UnsafeFromMapping(Array<int64_t>(DenseArray<int64_t>{Ids(map)}), 3)
                   : ArrayEdge::UnsafeFromSplitPoints(Array<int64_t>(DenseArray<int64_t>{Ids({0, at[a], at[b], 8})}));
  auto c = Listed<int>(8, kSparseIds[how], true, {false, 0}, "c");
  auto co = how & 1 ? ar::Arr<int>{Array<int>(8, OptionalValue<int>(6)), Model<int>(8, {true, 6})} : Listed<int>(8, {1, 7}, false, {true, 5}, "co");
  auto p = du::Make<int>(3, 0, true, 1, "p"), po = du::Make<int>(3, 0, false, 1, "po");
  struct { du::Arr<int>& p; du::Arr<int>& po; ar::Arr<int>& c; ar::Arr<int>& co; } d{p, po, c, co};
  auto* f = GetHeapBufferFactory();
  Array<int> pa(p.a), poa(po.a);
  if (s < 2) {
    Want w = Expect<true>(m, d, 0);
    Same(IdOp<IdAcc<kAgg>>(f).Apply(e, pa, poa, c.a, co.a), w.agg, true);
    Same(IdOp<IdAcc<kPart>>(f).Apply(e, pa, poa, c.a, co.a), w.part, true);
    Same(IdOp<IdAcc<kFull>>(f).Apply(e, pa, poa, c.a, co.a), w.full, true);
    return;
  }
  int bad = sx<int>("bad");
  auto w = Expect<false>(m, d, bad);
  Same(Op<Acc<kAgg>>(f, Acc<kAgg>(bad)).Apply(e, pa, poa, c.a, co.a), w.agg, w.ok);
  Same(Op<Acc<kPart>>(f, Acc<kPart>(bad)).Apply(e, pa, poa, c.a, co.a), w.part, w.ok);
  Same(Op<Acc<kFull>>(f, Acc<kFull>(bad)).Apply(e, pa, poa, c.a, co.a), w.full, w.ok);
}
// no parent arguments and few non-empty groups: the result lists only these
SX_ENTRY(group_very_sparse) {  // sx: shards=2 bound=9_parents,_10_children_of_which_up_to_2_are_listed
  bool by = sx_shard(2);
  int k = sx_pick("listed", 0, 2), x = sx_pick("x", 0, 9), y = k == 2 ? sx_pick("y", 0, 9) : 9;
  if ((k < 2 && x != 4) || (k == 2 && x >= y) || (k == 2 && x > 2 && y < 9)) sx_end();
  std::vector<int64_t> ids;
  if (k > 0) ids.push_back(x);
  if (k > 1) ids.push_back(y);
  EdgeModel m{9, {}};
  ArrayEdge e;
  if (by) {
    int order = sx_pick("order", 0, 3);
    std::vector<int64_t> v;
    for (int c = 0; c < 10; ++c) { v.push_back(order == 0 ? (c < 5 ? 8 - c : 8) : order == 1 ? 0 : order == 2 ? 8 : c % 3 * 4); m.map.push_back({true, v[c]}); }
    e = ArrayEdge::UnsafeFromMapping(Array<int64_t>(DenseArray<int64_t>{Ids(v)}), 9);
  } else {
    const std::vector<std::vector<int64_t>> splits = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 10}, {0, 0, 0, 3, 3, 3, 10, 10, 10, 10}, {0, 10, 10, 10, 10, 10, 10, 10, 10, 10}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 10}};
    auto& sp = splits[sx_pick("splits", 0, 3)];
    for (int p = 0; p < 9; ++p) for (int64_t c = sp[p]; c < sp[p + 1]; ++c) m.map.push_back({true, p});
    e = ArrayEdge::UnsafeFromSplitPoints(Array<int64_t>(DenseArray<int64_t>{Ids(sp)}));
  }
  ar::Arr<int> c;
  if (k) c = Listed<int>(10, ids, k == 2, {false, 0}, "c");
  else c = {Array<int>(10, std::nullopt), Model<int>(10, {false, 0})};
  auto co = ar::Arr<int>{Array<int>(10, OptionalValue<int>(6)), Model<int>(10, {true, 6})};
  int bad = sx<int>("bad");
  auto w = ExpectNoPar(m, c.m, co.m, bad);
  Same(NoParOp<kAgg>(GetHeapBufferFactory(), NoPar<kAgg>(bad)).Apply(e, c.a, co.a), w.agg, w.ok);
}
SX_ENTRY(group_no_parent) {  // sx: shards=4 bound=up_to_5_parents_and_2_children,_arguments_in_every_form
  int s = sx_shard(4);
  Edge e = s ? Mapping(sx_pick("few", 0, 1) ? 5 : 2, 2, s - 1) : AnyEdge(0, 3, 2, 2, 2);
  auto c = ar::Make<int>(e.m.children(), s == 3 && !kThorough ? (e.m.parents == 5 ? ar::kSparse : ar::kDense) : ar::kAnyForm, "c");
  auto co = ar::Make<int>(e.m.children(), s == 3 ? ar::kSparse : ar::kConst, "co");
  int bad = sx<int>("bad");
  auto w = ExpectNoPar(e.m, c.m, co.m, bad);
  auto* f = GetHeapBufferFactory();
  Same(NoParOp<kAgg>(f, NoPar<kAgg>(bad)).Apply(e.e, c.a, co.a), w.agg, w.ok);
}
SX_ENTRY(group_no_parent_rows) {  // sx: shards=4 bound=up_to_3_parents_and_2_children,_arguments_in_every_form
  int s = sx_shard(4);
  Edge e = s ? Mapping(2, 2, s - 1) : AnyEdge(0, 3, 2, 2, 2);
  auto c = ar::Make<int>(e.m.children(), ar::kAnyForm, "c");
  auto co = ar::Make<int>(e.m.children(), s == 2 ? ar::kDense : ar::kConst, "co");
  int bad = sx<int>("bad");
  auto w = ExpectNoPar(e.m, c.m, co.m, bad);
  auto* f = GetHeapBufferFactory();
  Same(NoParOp<kPart>(f, NoPar<kPart>(bad)).Apply(e.e, c.a, co.a), w.part, w.ok);
  Same(NoParOp<kFull>(f, NoPar<kFull>(bad)).Apply(e.e, c.a, co.a), w.full, w.ok);
}
// the public entry: arguments that are all dense go to the dense implementation
SX_ENTRY(group_dense_path) {  // sx: shards=4 bound=up_to_2_parents_and_2_children
  int kind = sx_shard(4), form = kind == 3 && !kThorough ? 1 : sx_pick("form", 0, 1);
  Edge e = AnyEdge(kind, 2, 1, 2, 2);
  auto d = Data(e.m, form, form);
  int bad = sx<int>("bad");
  Want w = Expect<false>(e.m, d, bad);
  EvaluationContext ctx;
  using L = ArrayGroupLifter<Acc<kAgg>, meta::type_list<int, OptionalValue<int>>, meta::type_list<int, OptionalValue<int>>>;
  Same(L()(&ctx, d.p.a, d.po.a, d.c.a, d.co.a, e.e, bad), w.agg, w.ok);
  Same(ArrayGroupOp<Acc<kFull>>(GetHeapBufferFactory(), Acc<kFull>(bad)).Apply(e.e, d.p.a, d.po.a, d.c.a, d.co.a), w.full, w.ok);
}
template <bool dense> void GroupScalar() {
  int form = sx_shard(3), n = sx_pick("n", 0, 3);
  EdgeModel m{1, Model<int64_t>(n, {true, 0})};
  auto c = ar::Make<int>(n, 1 << form, "c");
  auto co = ar::Make<int>(n, n < 3 ? ar::kAnyForm : form == 2 ? ar::kConst : 1 << form, "co");
  int pv = sx<int>("p");
  OptionalValue<int> po = Opt<int>(sx<bool>("pp"), sx<int>("pov"));
  struct { ar::Arr<int> p, po, c, co; } d{{Array<int>(), {{true, pv}}}, {Array<int>(), {{po.present, po.value}}}, c, co};
  int bad = sx<int>("bad");
  Want w = Expect<false>(m, d, bad);
  ArrayGroupScalarEdge e(n);
  auto* f = GetHeapBufferFactory();
  auto a = Op<Acc<kAgg>, dense>(f, Acc<kAgg>(bad)).Apply(e, pv, po, c.a, co.a);
  sx_assert(a.ok() == w.ok);
  if (a.ok()) { sx_assert(a->present == w.agg[0].p); sx_assert(!a->present | (a->value == w.agg[0].v)); }
  Same(Op<Acc<kPart>, dense>(f, Acc<kPart>(bad)).Apply(e, pv, po, c.a, co.a), w.part, w.ok);
  Same(Op<Acc<kFull>, dense>(f, Acc<kFull>(bad)).Apply(e, pv, po, c.a, co.a), w.full, w.ok);
}
SX_ENTRY(group_scalar) { GroupScalar<false>(); }  // sx: shards=3 bound=up_to_3_children_in_every_form
SX_ENTRY(group_scalar_dense) { GroupScalar<true>(); }  // sx: shards=3 bound=up_to_3_children_in_every_form
SX_ENTRY(group_scalar_sparse) {  // sx: bound=8_children,_2_of_them_listed_in_4_ways
  int how = sx_pick("ids", 0, 3);
  EdgeModel m{1, Model<int64_t>(8, {true, 0})};
  auto c = Listed<int>(8, kSparseIds[how], true, {false, 0}, "c");
  auto co = Listed<int>(8, {1, 7}, false, {true, 5}, "co");
  struct { ar::Arr<int> p, po, c, co; } d{{Array<int>(), {{true, 3}}}, {Array<int>(), {{false, 0}}}, c, co};
  Want w = Expect<true>(m, d, 0);
  ArrayGroupScalarEdge e(8);
  auto* f = GetHeapBufferFactory();
  Same(IdOp<IdAcc<kPart>>(f).Apply(e, 3, std::nullopt, c.a, co.a), w.part, true);
  Same(IdOp<IdAcc<kFull>>(f).Apply(e, 3, std::nullopt, c.a, co.a), w.full, true);
  auto a = IdOp<IdAcc<kAgg>>(f).Apply(e, 3, std::nullopt, c.a, co.a);
  sx_assert(a.ok() && a->present && a->value == w.agg[0].v);
}
SX_ENTRY(group_sizes) {  // sx: bound=sizes_0_and_1
  Edge e = AnyEdge(sx_pick("kind", 0, 2), 1, 1, 1);
  int s[4];
  for (int& x : s) x = sx_pick("s", 0, 1);
  bool c = sx_pick("const", 0, 1);
  auto mk = [&](int n) { return c ? Array<int>(n, OptionalValue<int>(1)) : Array<int>(du::Make<int>(n, 0, false).a); };
  auto r = ArrayGroupOp<Acc<kAgg>>(GetHeapBufferFactory()).Apply(e.e, mk(s[0]), mk(s[1]), mk(s[2]), mk(s[3]));
  bool fit = s[0] == e.m.parents && s[1] == e.m.parents && s[2] == e.m.children() && s[3] == e.m.children();
  sx_assert(r.ok() == fit);
  auto r2 = ArrayGroupOp<Acc<kFull>>(GetHeapBufferFactory()).Apply(ArrayGroupScalarEdge(e.m.children()), 1, {}, mk(s[2]), mk(s[3]));
  sx_assert(r2.ok() == (s[2] == e.m.children() && s[3] == e.m.children()));
}
SX_ENTRY(multi_edge) {  // sx: shards=12 bound=up_to_2_parents_and_2_children,_arguments_in_every_form
  int s = sx_shard(12);
  Edge e = AnyEdge(s & 3, 2, 2, 2, 2);
  auto d = Data(e.m, s >> 2, ((s >> 2) + e.m.parents) % (e.m.children() == 2 ? 3 : 2));
  std::vector<unsigned> st(e.m.parents, 1), want(e.m.parents, 1);
  for (int p = 0; p < e.m.parents; ++p) if (d.p.m[p].p) want[p] = Mix(want[p], d.p.m[p].v, d.po.m[p].p ? d.po.m[p].v : 9, 0);
  ArrayMultiEdgeUtil u;
  auto ok = u.ApplyParentArgs([](unsigned& s, int p, OptionalValue<int> o) { s = Mix(s, p, o.present ? o.value : 9, 0); },
                              absl::MakeSpan(st), meta::type_list<int, OptionalValue<int>>{}, d.p.a, d.po.a);
  sx_assert(ok.ok());
  sx_assert(st == want);
  Model<int> out;
  for (int c = 0; c < e.m.children(); ++c) {
    bool valid = e.m.map[c].p && d.c.m[c].p;
    if (valid) { unsigned& h = want[e.m.map[c].v]; h = Mix(h, d.c.m[c].v, d.co.m[c].p ? d.co.m[c].v : 9, c); out.push_back({true, (int)h}); }
    else out.push_back({false, 0});
  }
  auto fn = [](unsigned& h, int64_t id, int c, OptionalValue<int> o) { h = Mix(h, c, o.present ? o.value : 9, id); return (int)h; };
  auto types = meta::type_list<int, OptionalValue<int>>{};
  if (s & 4) {
    sx_assert(u.ApplyChildArgs(fn, absl::MakeSpan(st), e.e, types, d.c.a, d.co.a).ok());
  } else {
    auto r = u.ProduceResult<int>(GetHeapBufferFactory(), fn, absl::MakeSpan(st), e.e, types, d.c.a, d.co.a);
    sx_assert(r.ok());
    Check(*r, out);
  }
  sx_assert(st == want);
}
SX_ENTRY(multi_edge_sparse) {  // sx: bound=8_children,_2_of_them_listed_in_4_ways,_2_parents
  int how = sx_pick("ids", 0, 3), at = sx_pick("at", 0, 1) * 4, by = sx_pick("by", 0, 1);
  std::vector<int64_t> map;
  for (int c = 0; c < 8; ++c) map.push_back(c < at ? 0 : 1);
  ArrayEdge e = by ? ArrayEdge::UnsafeFromMapping(Array<int64_t>(DenseArray<int64_t>{Ids(map)}), 2)
                   : ArrayEdge::UnsafeFromSplitPoints(Array<int64_t>(DenseArray<int64_t>{Ids({0, at, 8})}));
  auto c = Listed<int>(8, kSparseIds[how], true, {false, 0}, "c");
  std::vector<unsigned> st(2, 1), want(2, 1);
  Model<int> out;
  for (int i = 0; i < 8; ++i) {
    if (c.m[i].p) { unsigned& h = want[map[i]]; h = Mix(h, c.m[i].v, 3, i); out.push_back({true, (int)h}); }
    else out.push_back({false, 0});
  }
  auto r = ArrayMultiEdgeUtil().ProduceResult<int>(GetHeapBufferFactory(), [](unsigned& h, int64_t id, int c) { h = Mix(h, c, 3, id); return (int)h; },
      absl::MakeSpan(st), e, meta::type_list<int>{}, c.a);
  sx_assert(r.ok());
  Check(*r, out);
  sx_assert(st == want);
}
SX_ENTRY(multi_edge_sizes) {
  Edge e = AnyEdge(sx_pick("kind", 0, 1), 1, 1, 1);
  ArrayMultiEdgeUtil u;
  int n = sx_pick("states", 0, 2), c = sx_pick("c", 0, 2);
  std::vector<unsigned> st(n, 0);
  Array<int> a(c, OptionalValue<int>(1));
  sx_assert(u.ApplyChildArgs([](unsigned&, int64_t, int) {}, absl::MakeSpan(st), e.e, meta::type_list<int>{}, a).ok() == (n == e.m.parents && c == e.m.children()));
  auto r = u.ProduceResult<int>(GetHeapBufferFactory(), [](unsigned&, int64_t, int) { return 1; }, absl::MakeSpan(st), e.e, meta::type_list<int>{}, a);
  sx_assert(r.ok() == (n == e.m.parents && c == e.m.children()));
  sx_assert(u.ApplyParentArgs([](unsigned&, int) {}, absl::MakeSpan(st), meta::type_list<int>{}, a).ok() == (n == c));
}

// ---- edge operators
SX_ENTRY(from_sizes) {  // sx: shards=3 bound=up_to_3_sizes_of_any_value_in_every_form_(2_in_sparse_form_in_quick)
  int form = sx_shard(3), n = sx_pick("n", 0, form == 2 && !kThorough ? 2 : 3);
  auto a = ar::Make<int64_t>(n, 1 << form, "s");
  EvaluationContext ctx;
  auto r = ArrayEdgeFromSizesOp()(&ctx, a.a);
  bool good = true; __int128 total = 0;
  for (auto& e : a.m) { good &= e.p & (e.v >= 0); total += e.v; }
  good &= total <= INT64_MAX;
  sx_assert(r.ok() == good);
  if (!r.ok()) return;
  sx_assert(r->edge_type() == ArrayEdge::SPLIT_POINTS && r->parent_size() == n && r->child_size() == (int64_t)total);
  for (int i = 0; i < n; ++i) sx_assert(r->split_size(i) == a.m[i].v);
  auto back = ArrayEdgeSizesOp()(&ctx, *r);
  sx_assert(back.ok());
  Check(*back, a.m);
}
SX_ENTRY(pairs) {  // sx: bound=up_to_2_sizes_from_-2_to_3,_dense_and_constant
  int n = sx_pick("n", 0, kThorough ? 3 : 2);
  EvaluationContext ctx;
  std::vector<int64_t> s;
  bool bad = false, cnst = n && sx_pick("const", 0, 1);
  for (int i = 0; i < n; ++i) { s.push_back(cnst && i ? s[0] : sx_pick("s", -2, 3)); bad |= s.back() < 0; }
  Array<int64_t> in = cnst ? Array<int64_t>(n, OptionalValue<int64_t>(s[0])) : Array<int64_t>(DenseArray<int64_t>{Ids(s)});
  auto l = ArrayEdgePairLeftOp()(&ctx, in);
  auto r = ArrayEdgePairRightOp()(&ctx, in);
  sx_assert(l.ok() == !bad && r.ok() == !bad);
  if (bad) return;
  EdgeModel wl{0, {}}, wr{0, {}};
  for (int64_t k : s) {
    for (int i = 0; i < k; ++i)
      for (int j = 0; j < k; ++j) { wl.map.push_back({true, wl.parents + i}); wr.map.push_back({true, wl.parents + j}); }
    wl.parents += k;
  }
  wr.parents = wl.parents;
  CheckEdge(*l, wl);
  CheckEdge(*r, wr);
  if (n) {
    Array<int64_t> miss(n, std::nullopt);
    sx_assert(!ArrayEdgePairLeftOp()(&ctx, miss).ok() && !ArrayEdgePairRightOp()(&ctx, miss).ok());
  }
}
SX_ENTRY(pairs_overflow) {  // sx: bound=2_sizes_of_any_value_that_overflows_or_is_negative
  EvaluationContext ctx;
  int64_t a = sx<int64_t>("a"), b = sx_range<int64_t>("b", -3, 3);
  sx_assume(a < 0 || a >= (int64_t{1} << 32));
  auto s = Array<int64_t>(DenseArray<int64_t>{sx_pick("swap", 0, 1) ? Ids({b, a}) : Ids({a, b})});
  sx_assert(!ArrayEdgePairLeftOp()(&ctx, s).ok());
  sx_assert(!ArrayEdgePairRightOp()(&ctx, s).ok());
}
SX_ENTRY(scalar_edge) {
  EvaluationContext ctx;
  int n = sx_pick("n", 0, 3);
  auto e = ArrayEdgeFromShapeOp()(ArrayShape{n});
  sx_assert(e.child_size() == n && ArrayEdgeSizesOp()(e) == n && ArrayEdgeChildShapeOp()(e).size == n);
  sx_assert(ArrayEdgeAsDenseArrayOp()(&ctx, e).child_size() == n);
  Check(ArrayEdgeMappingOp()(e), Model<int64_t>(n, {true, 0}));
  OptionalValue<int> v = Opt<int>(sx<bool>("p"), sx<int>("v"));
  auto r = ArrayExpandOp()(&ctx, v, e);
  sx_assert(r.ok());
  Check(*r, Model<int>(n, {v.present, v.value}));
  auto u = ar::Make<int>(n, ar::kAnyForm);
  int64_t want = 0;
  for (auto& x : u.m) want += x.p;
  sx_assert(ArrayCountOp()(ArrayHasOp()(u.a), e) == want);
  int64_t size = sx_range<int64_t>("size", -1, 5);
  auto g = ArrayEdgeResizeGroupsParentSide()(&ctx, e, size);
  sx_assert(g.ok() == (size >= 0));
  if (g.ok()) sx_assert(g->child_size() == size);
}
template <class T> void Expand(int max_children) {
  int s = sx_shard(12);
  Edge e = AnyEdge(s & 3, 2, 2, max_children, max_children);
  EvaluationContext ctx;
  int n = e.m.parents + (sx_pick("longer", 0, 4) == 4);
  auto a = ar::Make<T>(n, 1 << (s >> 2), "x");
  auto r = ArrayExpandOp()(&ctx, a.a, e.e);
  sx_assert(r.ok() == (n == e.m.parents));
  if (!r.ok()) return;
  Model<T> want;
  for (auto& c : e.m.map) want.push_back(c.p ? a.m[c.v] : El<T>{false, 0});
  Check(*r, want);
}
SX_ENTRY(expand) { Expand<int>(3); }  // sx: shards=12 bound=up_to_2_parents_and_3_children,_values_and_mappings_in_every_form
SX_ENTRY(expand_three) {  // sx: shards=4 bound=3_parents,_sparse_values,_groups_of_up_to_2_children,_a_few_mappings
  int s = sx_shard(4);
  Edge e;
  if (s == 0) e = Splits(3, 2);
  else {
    std::vector<int64_t> v = {2, 0, 1, 2, 0, 1};
    e.m.parents = 3;
    int rot = sx_pick("rot", 0, 2);
    Model<int64_t> m;
    std::vector<int64_t> w(v.begin() + rot, v.begin() + rot + s + 1);
    for (int64_t p : w) e.m.map.push_back({true, p});
    e.e = ArrayEdge::UnsafeFromMapping(Array<int64_t>(DenseArray<int64_t>{Ids(w)}), 3);
  }
  auto a = ar::Make<int>(3, ar::kSparse, "x");
  EvaluationContext ctx;
  auto r = ArrayExpandOp()(&ctx, a.a, e.e);
  sx_assert(r.ok());
  Model<int> want;
  for (auto& c : e.m.map) want.push_back(a.m[c.v]);
  Check(*r, want);
}
namespace {
// texts of up to 1 byte in every form
struct Texts { Array<Text> a; Model<std::string> m; };
Texts AnyTexts(int n, int form) {
  auto one = [] { int len = sx_pick("len", -1, 1); std::string s; if (len > 0) s.push_back(sx<char>("c")); return El<std::string>{len >= 0, s}; };
  Texts r;
  if (form == 0 || (form == 2 && n < 2)) {
    auto e = one();
    r.m.assign(n, e);
    r.a = Array<Text>(n, e.p ? OptionalValue<Text>(Text(e.v)) : OptionalValue<Text>());
    return r;
  }
  int mask = form == 1 ? (1 << n) - 1 : sx_pick("ids", 1, (1 << n) - 2);
  El<std::string> mv{false, ""};
  if (form == 2) mv = one();
  std::vector<int64_t> ids;
  for (int i = 0; i < n; ++i) if (mask >> i & 1) ids.push_back(i);
  DenseArrayBuilder<Text> b(ids.size());
  int k = 0;
  for (int i = 0; i < n; ++i) {
    if (!(mask >> i & 1)) { r.m.push_back(mv); continue; }
    auto e = one();
    if (e.p) b.Set(k, e.v);
    ++k;
    r.m.push_back(e);
  }
  if (form == 1) r.a = Array<Text>(std::move(b).Build());
  else r.a = Array<Text>(n, IdFilter(n, Ids(ids)), std::move(b).Build(), mv.p ? OptionalValue<Text>(Text(mv.v)) : OptionalValue<Text>());
  return r;
}
}  // namespace
SX_ENTRY(expand_text) {  // sx: shards=12 bound=up_to_2_parents_and_2_children,_texts_of_up_to_1_byte_in_every_form
  int s = sx_shard(12);
  Edge e = AnyEdge(s & 3, 2, 1, 2, 2);
  auto a = AnyTexts(e.m.parents, s >> 2);
  EvaluationContext ctx;
  auto r = ArrayExpandOp()(&ctx, a.a, e.e);
  sx_assert(r.ok());
  Model<std::string> want;
  for (auto& c : e.m.map) want.push_back(c.p ? a.m[c.v] : El<std::string>{false, ""});
  Check(*r, want);
}
SX_ENTRY(group_by) {  // sx: shards=12 bound=3_elements,_2_parents,_values_0_to_2_in_every_form
  int s = sx_shard(12);
  Edge e = (s & 3) ? Mapping(2, sx_pick("children", 0, 2), (s & 3) - 1) : Splits(2, 2);
  if (e.m.children() > 3) sx_end();
  auto a = ar::Make<uint8_t>(e.m.children(), 1 << (s >> 2), "x");
  for (auto& x : a.m) sx_assume(x.v < 3);
  if (a.a.HasMissingIdValue()) sx_assume(a.a.missing_id_value().value < 3);
  std::vector<int64_t> vals;
  EvaluationContext ctx;
  // group ids of ints
  auto conv = [](const Array<uint8_t>& x) {
    std::vector<int> v;
    for (uint8_t b : x.dense_data().values) v.push_back(b);
    DenseArray<int> d{Buffer<int>::Create(v.begin(), v.end()), x.dense_data().bitmap, x.dense_data().bitmap_bit_offset};
    return Array<int>(x.size(), x.id_filter(), d, Opt<int>(x.missing_id_value().present, x.missing_id_value().value));
  };
  auto r = ArrayGroupByOp()(&ctx, conv(a.a), e.e);
  sx_assert(r.ok());
  sx_assert(r->edge_type() == ArrayEdge::MAPPING && r->child_size() == e.m.children());
  Model<int64_t> got;
  for (int i = 0; i < e.m.children(); ++i) { auto v = r->edge_values()[i]; got.push_back({v.present, v.value}); }
  Check(r->edge_values(), got);
  std::vector<bool> used(r->parent_size(), false);
  for (int i = 0; i < e.m.children(); ++i) {
    bool in = e.m.map[i].p && a.m[i].p;
    sx_assert(got[i].p == in);
    if (!in) continue;
    int64_t g = sx_concretize(got[i].v);
    sx_assert(g >= 0 && g < r->parent_size());
    used[g] = true;
    for (int j = 0; j < i; ++j)
      if (got[j].p) sx_assert((got[j].v == g) == (e.m.map[i].v == e.m.map[j].v && a.m[i].v == a.m[j].v));
  }
  for (bool u : used) sx_assert(u);
}
SX_ENTRY(resize_child) {  // sx: shards=6 bound=up_to_2_groups_with_2_children_in_all_(thorough:_3),_any_offsets_in_every_form,_sizes_up_to_2
  EvaluationContext ctx;
  int s = sx_shard(6), form = s % 3;
  bool many = s >= 3, split = sx_pick("kind", 0, 5) < 5;
  Edge e = split ? Splits(sx_pick("parents", 0, 2), form == 2 ? 1 : 2) : Mapping(1, 1, 1);
  if (e.m.children() > (kThorough ? 3 : 2)) sx_end();
  int n = e.m.children() + (sx_pick("longer", 0, 5) == 5);
  auto off = ar::Make<int64_t>(n, 1 << form, "o");
  std::vector<int64_t> sizes;
  bool bad = !split || n != e.m.children();
  absl::StatusOr<ArrayEdge> r;
  bool neg = false;
  if (many) {
    int k = e.m.parents + (sx_pick("more", 0, 5) == 5);
    bool cnst = k && (form == 2 || sx_pick("cnst", 0, 1));
    for (int i = 0; i < k; ++i) { sizes.push_back(i && cnst ? sizes[0] : sx_pick("size", kThorough ? -1 : 0, 2)); neg |= sizes[i] < 0; }
    bad |= k != e.m.parents;
    Array<int64_t> sz = cnst ? Array<int64_t>(k, OptionalValue<int64_t>(sizes[0])) : Array<int64_t>(DenseArray<int64_t>{Ids(sizes)});
    r = ArrayEdgeResizeGroupsChildSide()(&ctx, e.e, sz, off.a);
  } else {
    int s = sx_pick("size", -1, 2);
    sizes.assign(e.m.parents, s);
    neg = s < 0 && e.m.parents > 0;
    r = ArrayEdgeResizeGroupsChildSide()(&ctx, e.e, s, off.a);
    if (s < 0 && e.m.parents == 0) return;  // either answer is fine
  }
  bad |= neg;
  if (bad) { sx_assert(!r.ok()); return; }
  EdgeModel want{e.m.children(), {}};
  std::vector<int> base;
  for (int64_t s : sizes) { base.push_back(want.children()); for (int i = 0; i < s; ++i) want.map.push_back({false, 0}); }
  for (int c = 0; c < n; ++c) {
    if (!sx_concretize(off.m[c].p)) continue;
    int64_t o = off.m[c].v;
    if (o < 0) { bad = true; continue; }
    if (o >= sizes[e.m.map[c].v]) continue;
    auto& slot = want.map[base[e.m.map[c].v] + sx_concretize(o)];
    bad |= slot.p;
    slot = {true, c};
  }
  sx_assert(r.ok() == !bad);
  if (r.ok()) CheckEdge(*r, want);
}
SX_ENTRY(resize_child_errors) {  // sx: bound=sizes_of_any_value_whose_total_overflows_or_that_are_negative,_missing_sizes
  EvaluationContext ctx;
  ArrayEdge e = ArrayEdge::UnsafeFromSplitPoints(Array<int64_t>(DenseArray<int64_t>{Ids({0, 1, 2})}));
  Array<int64_t> off(DenseArray<int64_t>{Ids({sx<int64_t>("o0"), sx<int64_t>("o1")})});
  int64_t a = sx<int64_t>("a"), b = sx<int64_t>("b");
  int how = sx_pick("how", 0, 4);
  ArrayEdgeResizeGroupsChildSide op;
  if (how == 0) {
    sx_assume(a < 0 || b < 0 || (__int128)a + b > INT64_MAX);
    sx_assert(!op(&ctx, e, Array<int64_t>(DenseArray<int64_t>{Ids({a, b})}), off).ok());
  } else if (how == 1) {
    sx_assume(a < 0 || a > INT64_MAX / 2);
    sx_assert(!op(&ctx, e, a, off).ok());
  } else if (how == 2) {
    sx_assert(!op(&ctx, e, Array<int64_t>(2, std::nullopt), off).ok());
  } else if (how == 3) {
    DenseArray<int64_t> d{Ids({1, 1})};
    d.bitmap = du::Bm({2});
    sx_assert(!op(&ctx, e, Array<int64_t>(d), off).ok());
  } else {
    sx_assume(a < 0);
    sx_assert(!op(&ctx, ArrayGroupScalarEdge(2), a, off).ok());
  }
}
SX_ENTRY(resize_child_scalar_edge) {  // sx: bound=up_to_3_children,_any_offsets_in_every_form
  EvaluationContext ctx;
  int n = sx_pick("n", 0, kThorough ? 3 : 2), s = sx_pick("size", 0, 2);
  auto off = ar::Make<int64_t>(n, ar::kAnyForm, "o");
  auto r = ArrayEdgeResizeGroupsChildSide()(&ctx, ArrayGroupScalarEdge(n), s, off.a);
  EdgeModel want{n, Model<int64_t>(s, {false, 0})};
  bool bad = false;
  for (int c = 0; c < n; ++c) {
    if (!sx_concretize(off.m[c].p)) continue;
    int64_t o = off.m[c].v;
    if (o < 0) { bad = true; continue; }
    if (o >= s) continue;
    auto& slot = want.map[sx_concretize(o)];
    bad |= slot.p;
    slot = {true, c};
  }
  sx_assert(r.ok() == !bad);
  if (r.ok()) CheckEdge(*r, want);
}
SX_ENTRY(resize_parent) {  // sx: bound=up_to_3_groups,_any_sizes_in_every_form
  EvaluationContext ctx;
  bool split = sx_pick("kind", 0, 1) == 0;
  Edge e = split ? Splits(sx_pick("parents", 0, 3), 1) : Mapping(1, 1, sx_pick("form", 0, 1), false);
  absl::StatusOr<ArrayEdge> r;
  Model<int64_t> sizes;
  bool good = split; __int128 total = 0;
  if (sx_pick("many", 0, 1)) {
    int k = e.m.parents + (sx_pick("more", 0, 3) == 3);
    auto a = ar::Make<int64_t>(k, k > 2 ? ar::kDense : ar::kAnyForm, "size");
    sizes = a.m;
    good &= k == e.m.parents;
    r = ArrayEdgeResizeGroupsParentSide()(&ctx, e.e, a.a);
  } else {
    int64_t s = sx<int64_t>("size");
    sizes.assign(e.m.parents, {true, s});
    good &= s >= 0;
    r = ArrayEdgeResizeGroupsParentSide()(&ctx, e.e, s);
  }
  for (auto& s : sizes) { good &= s.p & (s.v >= 0); total += s.v; }
  good &= total <= INT64_MAX;
  sx_assert(r.ok() == good);
  if (!r.ok()) return;
  sx_assert(r->edge_type() == ArrayEdge::SPLIT_POINTS && r->parent_size() == e.m.parents && r->child_size() == (int64_t)total);
  for (int i = 0; i < e.m.parents; ++i) sx_assert(r->split_size(i) == sizes[i].v);
}

// ---- array operators
SX_ENTRY(at) {  // sx: shards=3 bound=up_to_3_elements_in_every_form,_any_index
  int form = sx_shard(3), n = sx_pick("n", 0, 3);
  auto a = ar::Make<int>(n, 1 << form, "x");
  EvaluationContext ctx;
  OptionalValue<int64_t> id = Opt<int64_t>(sx<bool>("p"), sx<int64_t>("id"));
  bool in = (id.value >= 0) & (id.value < n);
  OptionalValue<int> r;
  bool opt = sx_pick("opt", 0, 1);
  if (opt) r = ArrayAtOp()(&ctx, a.a, id);
  else r = ArrayAtOp()(&ctx, a.a, id.value);
  bool asked = id.present | !opt;
  sx_assert(ctx.status().ok() == (in | !asked));
  El<int> want{false, 0};
  if (in & asked) want = a.m[sx_concretize(id.value)];
  sx_assert(r.present == want.p && (!want.p || r.value == want.v));
}
SX_ENTRY(at_many) {  // sx: shards=9 bound=up_to_2_elements_and_2_indices_in_every_form
  int s = sx_shard(9);
  auto a = ar::Make<int>(sx_pick("n", 0, 2), 1 << s % 3, "x");
  int n = a.m.size();
  auto ids = ar::Make<int64_t>(sx_pick("k", 0, 2), 1 << s / 3, "id");
  bool bad = false;
  Model<int> want;
  for (auto& i : ids.m) {
    bool in = (i.v >= 0) & (i.v < n);
    bad |= i.p & !in;
    want.push_back(sx_concretize(i.p & in) ? a.m[sx_concretize(i.v)] : El<int>{false, 0});
  }
  EvaluationContext ctx;
  auto r = ArrayAtOp()(&ctx, a.a, ids.a);
  sx_assert(ctx.status().ok() == !bad);
  if (!bad) Check(r, want);
  if (ids.a.IsDenseForm()) {
    EvaluationContext ctx2;
    auto ids2 = ids.a.dense_data().ForceNoBitmapBitOffset();
    auto d = ArrayAtOp()(&ctx2, a.a, ids2);
    sx_assert(ctx2.status().ok() == !bad);
    if (!bad) du::Check(d, want);
  }
}
SX_ENTRY(slice) {  // sx: bound=up_to_3_elements_in_every_form,_any_offset_and_size
  int n = sx_pick("n", 0, 3);
  auto a = ar::Make<int>(n, ar::kAnyForm, "x");
  int64_t off = sx<int64_t>("off"), size = sx<int64_t>("size");
  bool good = (off >= 0) & (off <= n) & (size >= -1);
  good &= size <= n - (good ? off : 0);
  if (!good) { sx_assert(!ArraySliceOp()(a.a, off, size).ok()); return; }
  int o = sx_concretize(off), k = sx_concretize(size);
  auto r = ArraySliceOp()(a.a, o, k);
  sx_assert(r.ok());
  if (k < 0) k = n - o;
  Check(*r, Model<int>(a.m.begin() + o, a.m.begin() + o + k));
}
SX_ENTRY(concat) {  // sx: shards=9 bound=two_arrays_of_up_to_2_elements_in_every_form
  int s = sx_shard(9);
  auto a = ar::Make<int>(sx_pick("n", 0, 2), 1 << s % 3, "a"), b = ar::Make<int>(sx_pick("m", 0, 2), 1 << s / 3, "b");
  EvaluationContext ctx;
  auto m = a.m;
  m.insert(m.end(), b.m.begin(), b.m.end());
  Check(ArrayConcatOp()(&ctx, a.a, b.a), m);
}
SX_ENTRY(concat_sparse) {  // sx: shards=4 bound=two_arrays_of_12_elements,_up_to_2_of_them_listed,_and_of_up_to_2_elements
  int s = sx_shard(4);
  auto mv = [] { return El<int>{sx<bool>("mv"), sx<int>("mv")}; };
  int n = (s & 1) ? 12 : 2;
  auto a = Listed<int>(12, sx_pick("ids", 0, 1) ? std::vector<int64_t>{0, 11} : std::vector<int64_t>{5}, true, mv(), "a");
  auto b = n == 2 ? ar::Make<int>(2, ar::kAnyForm, "b") : Listed<int>(12, {0, 7}, true, mv(), "b");
  if (s & 2) std::swap(a, b);
  EvaluationContext ctx;
  auto m = a.m;
  m.insert(m.end(), b.m.begin(), b.m.end());
  Check(ArrayConcatOp()(&ctx, a.a, b.a), m);
}
SX_ENTRY(present) {  // sx: bound=up_to_3_elements_in_every_form
  int n = sx_pick("n", 0, 3);
  auto a = ar::Make<int>(n, ar::kAnyForm, "x");
  EvaluationContext ctx;
  Model<int64_t> ids; Model<int> vals; Model<Unit> mask;
  for (int i = 0; i < n; ++i) {
    bool p = sx_concretize(a.m[i].p);
    mask.push_back({p, {}});
    if (p) { ids.push_back({true, i}); vals.push_back({true, a.m[i].v}); }
  }
  auto has = ArrayHasOp()(a.a);
  Check(has, mask);
  Check(ArrayPresentIndicesOp()(&ctx, has), ids);
  Check(ArrayPresentValuesOp()(&ctx, a.a), vals);
}
SX_ENTRY(unique) {  // sx: bound=up_to_3_elements_in_every_form
  int n = sx_pick("n", 0, 3);
  auto a = ar::Make<int>(n, n == 3 ? ar::kDense | ar::kSparse : ar::kAnyForm, "x");
  EvaluationContext ctx;
  Model<int> want;
  for (auto& e : a.m) {
    if (!sx_concretize(e.p)) continue;
    bool seen = false;
    for (auto& w : want) seen |= w.v == e.v;
    if (!sx_concretize(seen)) want.push_back(e);
  }
  Check(ArrayUniqueOp()(&ctx, a.a), want);
}
SX_ENTRY(select_present) {  // sx: shards=9 bound=up_to_2_elements_(3_with_a_dense_filter)_in_every_form
  int s = sx_shard(9), n = sx_pick("n", 0, s / 3 == 1 ? 3 : 2);
  auto a = ar::Make<int>(n, 1 << s % 3, "x"), f = ar::Make<int>(n, 1 << s / 3, "f");
  EvaluationContext ctx;
  auto r = ArraySelectOp()(&ctx, a.a, ArrayHasOp()(f.a));
  sx_assert(r.ok());
  Model<int> want;
  for (int i = 0; i < n; ++i) if (sx_concretize(f.m[i].p)) want.push_back(a.m[i]);
  Check(*r, want);
  sx_assert(!ArraySelectOp()(&ctx, a.a, Array<Unit>(n + 1, OptionalValue<Unit>())).ok());
}
SX_ENTRY(from_indices) {  // sx: shards=9 bound=up_to_2_indices_of_any_value_in_every_form,_sizes_up_to_3
  int s = sx_shard(9), n = sx_pick("n", 0, 2), k = n + (sx_pick("more", 0, 3) == 3);
  auto ids = ar::Make<int64_t>(n, 1 << s % 3, "i");
  auto vals = ar::Make<int>(k, 1 << s / 3, "v");
  int64_t size = sx<int64_t>("size");
  sx_assume(size <= 3);
  bool good = (n == k) & (size >= 0);
  int64_t last = -1;
  for (auto& i : ids.m) { good &= i.p & (i.v > last) & (i.v < size); last = i.v; }
  EvaluationContext ctx;
  auto r = ArrayFromIndicesAndValues()(&ctx, ids.a, vals.a, size);
  sx_assert(ctx.status().ok() == good);
  if (!good) return;
  Model<int> want(sx_concretize(size), El<int>{false, 0});
  for (int i = 0; i < n; ++i) want[sx_concretize(ids.m[i].v)] = vals.m[i];
  Check(r, want);
}
SX_ENTRY(presence_or) {  // sx: shards=9 bound=two_arrays_of_up_to_3_elements_in_every_form
  int s = sx_shard(9), n = sx_pick("n", 0, s == 8 ? 2 : 3);
  auto a = ar::Make<int>(n, 1 << s % 3, "a"), b = ar::Make<int>(n, 1 << s / 3, "b");
  EvaluationContext ctx;
  auto r = ArrayPresenceOrOp()(&ctx, a.a, b.a);
  sx_assert(r.ok());
  Model<int> want;
  for (int i = 0; i < n; ++i) want.push_back({a.m[i].p | b.m[i].p, a.m[i].p ? a.m[i].v : b.m[i].v});
  Check(*r, want);
  sx_assert(!ArrayPresenceOrOp()(&ctx, a.a, Array<int>(n + 1, OptionalValue<int>(1))).ok());
}
SX_ENTRY(presence_or_scalar) {  // sx: bound=up_to_3_elements_in_every_form
  int n = sx_pick("n", 0, 3), v = sx<int>("v");
  auto a = ar::Make<int>(n, ar::kAnyForm, "a");
  EvaluationContext ctx;
  Model<int> want;
  for (auto& e : a.m) want.push_back({true, e.p ? e.v : v});
  Check(ArrayPresenceOrOp()(&ctx, a.a, v), want);
}
SX_ENTRY(presence_or_text) {  // sx: bound=up_to_2_texts_of_up_to_1_byte_in_every_form
  int n = sx_pick("n", 0, 2);
  auto a = AnyTexts(n, sx_pick("form", 0, 2));
  EvaluationContext ctx;
  Model<std::string> want;
  for (auto& e : a.m) want.push_back({true, e.p ? e.v : "zz"});
  Check(ArrayPresenceOrOp()(&ctx, a.a, Text("zz")), want);
}
SX_ENTRY(factories) {  // sx: bound=up_to_3_elements_in_every_form,_sizes_up_to_5
  int n = sx_pick("n", 0, 3);
  EvaluationContext ctx;
  auto a = ar::Make<int>(n, ar::kAnyForm, "a");
  auto d = ArrayAsDenseArrayOp()(&ctx, a.a);
  du::Check(d, a.m);
  sx_assert(d.bitmap_bit_offset == 0);
  Check(ArrayFromDenseArrayOp()(d), a.m);
  sx_assert(ArrayShapeSizeOp()(ArrayShapeOfOp()(ArrayHasOp()(a.a))) == n);
  int v = sx<int>("v"); bool p = sx<bool>("p");
  Check(ArrayConstWithShapeOp()(ArrayShape{n}, v), Model<int>(n, {true, v}));
  Check(ArrayConstWithShapeOp()(ArrayShape{n}, Opt<int>(p, v)), Model<int>(n, {p, v}));
  Model<int64_t> iota;
  for (int i = 0; i < n; ++i) iota.push_back({true, i});
  Check(ArrayIotaOp()(&ctx, ArrayShape{n}), iota);
  int64_t size = sx<int64_t>("size");
  auto r = ArrayResizeShapeOp()(ArrayShape{n}, size);
  sx_assert(r.ok() == (size >= 0));
  if (r.ok()) sx_assert(r->size == size);
}
namespace {
struct SubFn { int operator()(int a, int b) const { return (int)((unsigned)a - 3u * (unsigned)b); } };
struct DivFn { absl::StatusOr<int> operator()(int a, int b) const { if (b == 0) return absl::InvalidArgumentError("zero"); return a ^ b; } };
}  // namespace
SX_ENTRY(lifter) {  // sx: shards=9 bound=two_arrays_of_up_to_2_elements_in_every_form
  int s = sx_shard(9), n = sx_pick("n", 0, 2);
  auto a = ar::Make<int>(n, 1 << s % 3, "a"), b = ar::Make<int>(n, 1 << s / 3, "b");
  EvaluationContext ctx;
  Model<int> sub, div; bool bad = false;
  for (int i = 0; i < n; ++i) {
    bool p = a.m[i].p & b.m[i].p;
    bad |= p & (b.m[i].v == 0);
    sub.push_back({p, SubFn()(a.m[i].v, b.m[i].v)});
    div.push_back({p, a.m[i].v ^ b.m[i].v});
  }
  auto r = ArrayPointwiseLifter<SubFn, meta::type_list<int, int>>()(&ctx, a.a, b.a);
  sx_assert(r.ok());
  Check(*r, sub);
  auto q = ArrayPointwiseLifter<DivFn, meta::type_list<int, int>>()(&ctx, a.a, b.a);
  sx_assert(q.ok() == !bad);
  if (q.ok()) Check(*q, div);
  int c = sx<int>("c");
  auto t = ArrayPointwiseLifter<SubFn, meta::type_list<DoNotLiftTag<int>, int>>()(&ctx, c, b.a);
  sx_assert(t.ok());
  Model<int> ct;
  for (auto& e : b.m) ct.push_back({e.p, SubFn()(c, e.v)});
  Check(*t, ct);
}
