// Jagged shapes against nested lists of sizes.
// SX-SRCS: arolla/jagged_shape/util/repr.cc arolla/jagged_shape/dense_array/jagged_shape.cc arolla/array/edge.cc arolla/array/array.cc arolla/array/array_util.cc arolla/array/id_filter.cc arolla/dense_array/edge.cc arolla/dense_array/bitmap.cc arolla/dense_array/dense_array.cc arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc arolla/memory/optional_value.cc arolla/util/preallocated_buffers.cc arolla/util/status.cc arolla/util/fingerprint.cc arolla/util/repr.cc arolla/util/string.cc arolla/util/text.cc arolla/util/bytes.cc arolla/util/unit.cc arolla/util/init_arolla.cc arolla/util/init_arolla_internal.cc arolla/memory/frame.cc arolla/qtype/qtype.cc arolla/qtype/base_types.cc arolla/qtype/optional_qtype.cc arolla/qtype/typed_slot.cc arolla/qtype/typed_ref.cc arolla/qtype/typed_value.cc arolla/qtype/derived_qtype.cc arolla/qtype/tuple_qtype.cc arolla/qtype/named_field_qtype.cc arolla/sequence/sequence.cc arolla/sequence/mutable_sequence.cc arolla/sequence/sequence_qtype.cc arolla/qexpr/bound_operators.cc arolla/qexpr/operators.cc arolla/qexpr/casting.cc arolla/qexpr/operator_errors.cc arolla/qexpr/qexpr_operator_signature.cc arolla/qtype/standard_type_properties/common_qtype.cc arolla/qtype/standard_type_properties/properties.cc arolla/qtype/shape_qtype.cc arolla/qtype/weak_qtype.cc arolla/util/cancellation.cc arolla/util/demangle.cc arolla/util/class_info.cc
// SX-FLAGS: -I$VERIF/harness/stub_sstream
#include <algorithm>
#include <string>
#include <vector>

#include "array_gen.h"
#include "edge_util.h"
#include "arolla/array/array.h"
#include "arolla/array/edge.h"
#include "arolla/jagged_shape/array/jagged_shape.h"
#include "arolla/jagged_shape/array/util/concat.h"
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "arolla/jagged_shape/dense_array/util/concat.h"
#include "arolla/jagged_shape/qexpr/shape_operators.h"
#include "arolla/jagged_shape/util/concat.h"
#include "arolla/jagged_shape/util/repr.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/repr.h"

using namespace arolla;

namespace {

using Sizes = std::vector<int64_t>;
// One list of sizes per dimension; the first has one element.
using Model = std::vector<Sizes>;

int64_t Sum(const Sizes& s) {
  int64_t n = 0;
  for (int64_t x : s) n += x;
  return n;
}
int64_t Total(const Model& m) { return m.empty() ? 1 : Sum(m.back()); }
Sizes Starts(const Sizes& sizes) {
  Sizes s{0};
  for (int64_t x : sizes) s.push_back(s.back() + x);
  return s;
}

template <typename E>
struct Kit;
template <>
struct Kit<DenseArrayEdge> {
  static DenseArray<int64_t> Ints(const Sizes& v) { return eu::Ints(v); }
  static DenseArray<int32_t> Values(const std::vector<OptionalValue<int32_t>>& v) {
    DenseArrayBuilder<int32_t> b(v.size());
    for (size_t i = 0; i < v.size(); ++i) {
      if (v[i].present) b.Set(i, v[i].value);
    }
    return std::move(b).Build();
  }
  using Values_ = DenseArray<int32_t>;
};
template <>
struct Kit<ArrayEdge> {
  static Array<int64_t> Ints(const Sizes& v) { return Array<int64_t>(eu::Ints(v)); }
  static Array<int32_t> Values(const std::vector<OptionalValue<int32_t>>& v) {
    auto a = Array<int32_t>(Kit<DenseArrayEdge>::Values(v));
    return sx_pick("form", 0, 1) ? a.ToSparseForm() : a;
  }
  using Values_ = Array<int32_t>;
};

// An edge with those group sizes, kept as split points or as a mapping.
template <typename E>
E MakeEdge(const Sizes& sizes, bool mapping) {
  if (!mapping) {
    auto e = E::FromSplitPoints(Kit<E>::Ints(Starts(sizes)));
    sx_assert(e.ok());
    return *e;
  }
  Sizes map;
  for (size_t p = 0; p < sizes.size(); ++p) map.insert(map.end(), sizes[p], p);
  auto e = E::FromMapping(Kit<E>::Ints(map), sizes.size());
  sx_assert(e.ok());
  return *e;
}
template <typename S>
void CheckShape(const S& shape, const Model& m) {
  sx_assert(shape.rank() == m.size());
  sx_assert(shape.size() == Total(m));
  sx_assert(shape.edges().size() == m.size());
  for (size_t d = 0; d < m.size(); ++d) {
    const auto& e = shape.edges()[d];
    sx_assert(e.edge_type() == S::Edge::SPLIT_POINTS);
    sx_assert(e.parent_size() == (int64_t)m[d].size());
    sx_assert(e.child_size() == Sum(m[d]));
    auto starts = Starts(m[d]);
    sx_assert(e.edge_values().size() == (int64_t)starts.size());
    for (size_t i = 0; i < starts.size(); ++i) {
      auto v = e.edge_values()[i];
      sx_assert(v.present);
      sx_assert(v.value == starts[i]);
    }
  }
}
Model PickModel(int rank, int max_group, int first_max = -1) {
  Model m;
  int64_t parents = 1;
  for (int d = 0; d < rank; ++d) {
    Sizes s;
    for (int64_t p = 0; p < parents; ++p) s.push_back(sx_pick("group", 0, d == 0 && first_max >= 0 ? first_max : max_group));
    parents = Sum(s);
    m.push_back(s);
  }
  return m;
}
template <typename S>
S MakeShape(const Model& m, int mapped = 0) {
  typename S::EdgeVec edges;
  for (size_t d = 0; d < m.size(); ++d) edges.push_back(MakeEdge<typename S::Edge>(m[d], mapped >> d & 1));
  auto s = S::FromEdges(std::move(edges));
  sx_assert(s.ok());
  return *std::move(s);
}

#ifdef SX_THOROUGH
constexpr int kRank = 3, kGroup = 2, kConcat = 3;
#else
constexpr int kRank = 2, kGroup = 2, kConcat = 2;
#endif

template <typename S>
void FromEdges() {
  using E = typename S::Edge;
  // a list of edges that need not fit
  int n = sx_pick("edges", 0, kRank);
  typename S::EdgeVec edges;
  Model m;
  bool good = true;
  int64_t child = 1;
  for (int d = 0; d < n; ++d) {
    int parents = sx_pick("parents", 0, 2);
    good &= parents == child;
    Sizes s;
    int kind = sx_pick("kind", 0, 2);
    if (kind == 2) {  // any mapping at all
      auto e = [&] {
        if constexpr (std::is_same_v<E, DenseArrayEdge>) {
          int children = parents == 0 ? 0 : sx_pick("children", 0, 2);
          return eu::Mapping(parents, children, parents > 0);
        } else {
          return eu::Mapping(parents, 0, false);
        }
      }();
      good &= eu::Sorted(e.m);
      s.assign(parents, 0);
      for (auto& x : e.m.map) {
        if (x.p) ++s[x.v];
      }
      if constexpr (std::is_same_v<E, DenseArrayEdge>) {
        edges.push_back(e.e);
      } else {
        edges.push_back(MakeEdge<E>(s, true));
      }
      child = e.m.children();
    } else {
      for (int p = 0; p < parents; ++p) s.push_back(sx_pick("group", 0, kGroup));
      edges.push_back(MakeEdge<E>(s, kind));
      child = Sum(s);
    }
    m.push_back(s);
  }
  int prefix = sx_pick("prefix", 0, n);
  auto shape = S::FromEdges(edges);
  sx_assert(shape.ok() == good);
  if (!good) {
    sx_assert(shape.status().code() == absl::StatusCode::kInvalidArgument);
    sx_reach("refused");
  } else {
    CheckShape(*shape, m);
    sx_reach("made");
  }
  // in two steps
  auto first = S::FromEdges({edges.begin(), edges.begin() + prefix});
  if (first.ok()) {
    auto both = first->AddDims(absl::Span<const E>(edges).subspan(prefix));
    sx_assert(both.ok() == good);
    if (good) CheckShape(*both, m);
    CheckShape(*first, Model(m.begin(), m.begin() + prefix));
  } else {
    sx_assert(!good);
  }
}

// Dimensions [from, to) as one.
Model Flat(const Model& m, int from, int to) {
  Model r(m.begin(), m.begin() + from);
  int64_t parents = from == 0 ? 1 : Sum(m[from - 1]);
  Sizes s;
  for (int64_t p = 0; p < parents; ++p) {
    int64_t lo = p, hi = p + 1;
    for (int d = from; d < to; ++d) {
      auto starts = Starts(m[d]);
      lo = starts[lo];
      hi = starts[hi];
    }
    s.push_back(hi - lo);
  }
  r.push_back(s);
  r.insert(r.end(), m.begin() + to, m.end());
  return r;
}
int Clamp(int64_t i, int rank) {
  if (i < 0) i += rank;
  return i < 0 ? 0 : i > rank ? rank : i;
}

int64_t Dim(const char* name, int rank) {
  int k = sx_pick(name, -rank - 2, rank + 2);
  return k == -rank - 2 ? INT64_MIN : k == rank + 2 ? INT64_MAX : k;
}

template <typename S>
void Ops(int part) {
  int rank = sx_pick("rank", 0, kRank + 1);
  Model m = PickModel(rank, rank == kRank + 1 ? 1 : kGroup, kGroup);
  S shape = MakeShape<S>(m);
  sx_assert(JaggedShapeRankOp<S>()(shape) == rank);
  sx_assert(JaggedShapeSizeOp<S>()(shape) == Total(m));
  if (part == 0) {
    int64_t from = Dim("from", rank), to = Dim("to", rank);
    int f = Clamp(from, rank), t = Clamp(to, rank);
    if (t < f) t = f;
    CheckShape(JaggedShapeFlattenOp<S>()(shape, from, to), Flat(m, f, t));
  } else if (part == 1) {
    int64_t from = Dim("from", rank);
    int f = Clamp(from, rank);
    CheckShape(JaggedShapeRemoveDimsOp<S>()(shape, from), Model(m.begin(), m.begin() + f));
    int64_t dim = rank > 1 ? Dim("dim", rank) : sx<int64_t>("dim");
    auto e = JaggedShapeEdgeAtOp<S>()(shape, dim);
    if (dim >= rank || dim < -(int64_t)rank) {
      sx_assert(e.status().code() == absl::StatusCode::kInvalidArgument);
    } else {
      sx_assert(e.ok());
      sx_assert(e->IsEquivalentTo(shape.edges()[sx_concretize(Clamp(dim, rank))]));
    }
  }
  CheckShape(shape, m);
  sx_reach("ops");
}

template <typename S>
void Compare() {
  int ra = sx_pick("a", 0, kRank), rb = sx_pick("b", 0, kRank);
  Model a = PickModel(ra, kGroup), b = PickModel(rb, kGroup);
  S x = MakeShape<S>(a), y = MakeShape<S>(b);
  if (ra == 0 && sx_pick("default", 0, 1)) x = sx_pick("kind", 0, 1) ? S() : S::Empty();
  bool equal = a == b;
  sx_assert(x.IsEquivalentTo(y) == equal);
  sx_assert(JaggedShapeEqualOp<S>()(x, y).present == equal);
  auto fast = x.FastEquivalenceCheck(y);
  if (fast.IsGuaranteedEq()) sx_assert(equal);
  if (fast.IsGuaranteedNotEq()) sx_assert(!equal);
  bool sizes = ra == rb;
  for (int d = 0; sizes && d < ra; ++d) sizes = Sum(a[d]) == Sum(b[d]);
  sx_assert(fast.AreAllSizesEqual() == sizes);
  Fingerprint fx = FingerprintHasher("").Combine(x).Finish(), fy = FingerprintHasher("").Combine(y).Finish();
  sx_assert((fx == fy) == equal);
  bool prefix = ra <= rb && std::equal(a.begin(), a.end(), b.begin());
  sx_assert(x.IsBroadcastableTo(y) == prefix);
  sx_assert(JaggedShapeIsBroadcastableToOp<S>()(x, y).present == prefix);
  if (prefix) {
    auto edge = x.GetBroadcastEdge(y);
    Model f = Flat(b, ra, rb);
    sx_assert(edge.parent_size() == Total(a) && edge.child_size() == Total(b));
    for (int64_t p = 0; p < edge.parent_size(); ++p) sx_assert(edge.split_size(p) == f[ra][p]);
    sx_reach("broadcast");
  }
  S copy = x;
  sx_assert(copy.FastEquivalenceCheck(x).IsGuaranteedEq());
  sx_reach("compared");
}

// A nested list: the elements of a jagged array, in order, per dimension.
struct Node {
  std::vector<Node> kids;
  int leaf = -1;
};
Node Build(const Model& m, int d, int64_t row, int* next) {
  Node n;
  if (d == (int)m.size()) {
    n.leaf = (*next)++;
    return n;
  }
  for (int64_t i = 0; i < m[d][row]; ++i) {
    n.kids.push_back(Build(m, d + 1, Starts(m[d])[row] + i, next));
  }
  return n;
}
Node Concat(const std::vector<Node>& all, int dim, bool stack) {
  Node n;
  if (dim > 0) {
    for (size_t i = 0; i < all[0].kids.size(); ++i) {
      std::vector<Node> column;
      for (auto& x : all) column.push_back(x.kids[i]);
      n.kids.push_back(Concat(column, dim - 1, stack));
    }
    return n;
  }
  for (auto& x : all) {
    if (stack) {
      n.kids.push_back(x);
    } else {
      n.kids.insert(n.kids.end(), x.kids.begin(), x.kids.end());
    }
  }
  return n;
}
void Read(const Node& n, int d, Model* m, std::vector<int>* leaves) {
  if (d == (int)m->size()) {
    leaves->push_back(n.leaf);
    return;
  }
  (*m)[d].push_back(n.kids.size());
  for (auto& k : n.kids) Read(k, d + 1, m, leaves);
}

template <typename E>
void Concatenated(bool stack, bool arrays) {
  using S = JaggedShape<E>;
  using A = typename Kit<E>::Values_;
  int n = sx_pick("count", 0, kConcat);
  std::vector<S> shapes;
  std::vector<Model> models;
  std::vector<A> values;
  std::vector<OptionalValue<int32_t>> all;
  std::vector<Node> nodes;
  int next = 0;
  for (int i = 0; i < n; ++i) {
    int rank = i > 0 && sx_pick("same", 0, 1) ? (int)models[0].size() : sx_pick("rank", 0, 2);
    Model m = PickModel(rank, kGroup);
    models.push_back(m);
    shapes.push_back(MakeShape<S>(m));
    nodes.push_back(Build(m, 0, 0, &next));
    std::vector<OptionalValue<int32_t>> v;
    for (int k = 0; k < Total(m); ++k) {
      v.push_back(OptionalValue<int32_t>(true, 100 * i + k));
    }
    if (arrays && !v.empty()) {
#ifdef SX_THOROUGH
      int missing = sx_pick("missing", 0, v.size());
#else
      int missing = sx_pick("missing", 0, 1) ? (i == 0 ? v.size() : 1) : 0;
#endif
      if (missing > 0) v[missing - 1] = {};
      if (missing != 1) v[0].value = sx<int16_t>("value");
    }
    all.insert(all.end(), v.begin(), v.end());
    if (arrays) values.push_back(Kit<E>::Values(v));
  }
  int64_t dim = arrays ? sx_pick("dim", -1, 3) : sx<int64_t>("dim");
  bool good = n > 0;
  int rank = 0;
  if (good) {
    rank = models[0].size() + stack;
    good = rank > 0 && dim >= 0 && dim < rank;
  }
  int d = good ? sx_concretize(dim) : 0;
  for (int i = 1; good && i < n; ++i) {
    good = models[i].size() == models[0].size() && std::equal(models[0].begin(), models[0].begin() + d, models[i].begin());
  }
  absl::StatusOr<S> shape = absl::InternalError("");
  absl::StatusOr<std::tuple<A, S>> both = absl::InternalError("");
  if (arrays) {
    both = stack ? StackJaggedArraysAlongDimension<A, S>(values, shapes, dim) : ConcatJaggedArraysAlongDimension<A, S>(values, shapes, dim);
    sx_assert(both.ok() == good);
  } else {
    shape = stack ? StackJaggedShapesAlongDimension<S>(shapes, dim) : ConcatJaggedShapesAlongDimension<S>(shapes, dim);
    sx_assert(shape.ok() == good);
  }
  if (!good) {
    sx_assert((arrays ? both.status() : shape.status()).code() == absl::StatusCode::kInvalidArgument);
    sx_reach("refused");
    return;
  }
  Model want(rank);
  std::vector<int> leaves;
  Read(Concat(nodes, d, stack), 0, &want, &leaves);
  CheckShape(arrays ? std::get<1>(*both) : *shape, want);
  if (arrays) {
    const A& got = std::get<0>(*both);
    sx_assert(got.size() == (int64_t)leaves.size());
    for (size_t i = 0; i < leaves.size(); ++i) {
      auto v = got[i];
      sx_assert(v.present == all[leaves[i]].present);
      if (v.present) sx_assert(v.value == all[leaves[i]].value);
    }
    // as many arrays as shapes, of the sizes of their shapes
    auto fewer = values;
    fewer.pop_back();
    sx_assert(!(stack ? StackJaggedArraysAlongDimension<A, S>(fewer, shapes, dim) : ConcatJaggedArraysAlongDimension<A, S>(fewer, shapes, dim)).ok());
    auto wrong = values;
    wrong.back() = Kit<E>::Values(std::vector<OptionalValue<int32_t>>(Total(models.back()) + 1));
    sx_assert(!(stack ? StackJaggedArraysAlongDimension<A, S>(wrong, shapes, dim) : ConcatJaggedArraysAlongDimension<A, S>(wrong, shapes, dim)).ok());
  }
  sx_reach("joined");
}

}  // namespace

SX_ENTRY(from_edges) { // sx: bound=up_to_2_edges_(3_in_thorough)_of_up_to_2_parents_and_groups_of_up_to_2,_fitting_or_not,_as_split_points_or_any_mapping
  FromEdges<JaggedDenseArrayShape>();
}
SX_ENTRY(from_array_edges) { // sx: bound=the_same_with_array_edges
  FromEdges<JaggedArrayShape>();
}
SX_ENTRY(dims) { // sx: shards=4 bound=shapes_of_rank_up_to_3_(4_in_thorough),_every_64-bit_dimension
  int shard = sx_shard(4);
  if (shard < 2) {
    Ops<JaggedDenseArrayShape>(shard);
  } else {
    Ops<JaggedArrayShape>(shard - 2);
  }
}
SX_ENTRY(clamp) { // sx: bound=every_64-bit_index,_ranks_up_to_64
  int64_t i = sx<int64_t>("index");
  int64_t rank = sx<int64_t>("rank");
  sx_assume((rank >= 0) & (rank <= 64));
  int64_t at = GetPosIndex(i, rank);
  int64_t from_end = i < 0 ? i + rank : i;
  sx_assert((at >= 0) & (at <= rank));
  if ((from_end >= 0) & (from_end <= rank)) {
    sx_assert(at == from_end);
  } else {
    sx_assert(at == (i < 0 ? 0 : rank));
  }
  sx_reach("clamp");
}
SX_ENTRY(flat) { // sx: bound=every_size_up_to_1000
  int64_t n = sx<int64_t>("size");
  sx_assume((n >= 0) & (n <= 1000));
  auto s = JaggedDenseArrayShape::FlatFromSize(n);
  sx_assert(s.rank() == 1 && s.size() == n);
  sx_assert(s.edges()[0].parent_size() == 1 && s.edges()[0].split_size(0) == n);
  auto a = JaggedArrayShape::FlatFromSize(n);
  sx_assert(a.rank() == 1 && a.size() == n);
  sx_reach("flat");
}
SX_ENTRY(compare) { // sx: shards=2 bound=pairs_of_shapes_of_rank_up_to_2_(3_in_thorough)_with_groups_of_up_to_2
  if (sx_shard(2)) {
    Compare<JaggedDenseArrayShape>();
  } else {
    Compare<JaggedArrayShape>();
  }
}
SX_ENTRY(concat_shapes) { // sx: shards=4 bound=up_to_2_shapes_(3_in_thorough)_of_rank_up_to_2_with_groups_of_up_to_2,_every_64-bit_dimension
  int shard = sx_shard(4);
  if (shard < 2) {
    Concatenated<DenseArrayEdge>(shard, false);
  } else {
    Concatenated<ArrayEdge>(shard - 2, false);
  }
}
SX_ENTRY(concat_arrays) { // sx: shards=4 bound=up_to_2_arrays_(3_in_thorough)_of_rank_up_to_2,_one_element_missing,_dimensions_-1_to_3
  int shard = sx_shard(4);
  if (shard < 2) {
    Concatenated<DenseArrayEdge>(shard, true);
  } else {
    Concatenated<ArrayEdge>(shard - 2, true);
  }
}
SX_ENTRY(repr) { // sx: bound=up_to_7_sizes_of_0_to_2,_every_limit_up_to_3
  int n = sx_pick("sizes", 0, 7);
  Sizes s;
  for (int i = 0; i < n; ++i) s.push_back(i < 5 ? sx_pick("size", 0, 1) : 12);
  int limit = sx_pick("limit", 0, 3);
  auto starts = Starts(s);
  if (n == 0 && sx_pick("none", 0, 1)) starts.clear();
  std::string want = "[";
  bool same = n > 0;
  for (int i = 1; i < n; ++i) same &= s[i] == s[0];
  if (same) {
    want = std::to_string(s[0]);
  } else {
    bool first = true;
    for (int i = 0; i < n; ++i) {
      if (n > 2 * limit && i >= limit && i < n - limit) {
        if (i == limit) want += first ? "..." : ", ...";
      } else {
        want += (first ? "" : ", ") + std::to_string(s[i]);
      }
      first = false;
    }
    want += "]";
  }
  sx_assert(CompactSplitPointsAsSizesRepr(starts, limit) == want);
  if (n > 0 && n < 4) {
    auto shape = MakeShape<JaggedDenseArrayShape>({{n}, s});
    sx_assert(Repr(shape) == "JaggedShape(" + std::to_string(n) + ", " + CompactSplitPointsAsSizesRepr(starts, 3) + ")");
  }
  sx_reach("repr");
}
