// Decision forests: every evaluator against walking the trees node by node as decision_forest.h defines them.
// SX-SRCS: arolla/decision_forest/decision_forest.cc arolla/decision_forest/pointwise_evaluation/forest_evaluator.cc arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc arolla/decision_forest/pointwise_evaluation/bitmask_eval.cc arolla/decision_forest/pointwise_evaluation/single_input_eval.cc arolla/decision_forest/pointwise_evaluation/oblivious.cc arolla/memory/frame.cc arolla/qtype/qtype.cc arolla/qtype/base_types.cc arolla/qtype/optional_qtype.cc arolla/qtype/typed_slot.cc arolla/util/fingerprint.cc arolla/util/text.cc arolla/util/bytes.cc arolla/util/status.cc arolla/util/demangle.cc arolla/util/class_info.cc arolla/util/init_arolla.cc arolla/util/init_arolla_internal.cc arolla/memory/optional_value.cc
// SX-FLAGS: -I$VERIF/harness/stub_protobuf
#include <cmath>
#include <limits>
#include <map>

#include "sx.h"
#include "arolla/decision_forest/decision_forest.h"
#include "arolla/decision_forest/pointwise_evaluation/forest_evaluator.h"
#include "arolla/decision_forest/pointwise_evaluation/oblivious.h"
#include "arolla/decision_forest/pointwise_evaluation/pointwise.h"
#include "arolla/decision_forest/split_conditions/interval_split_condition.h"
#include "arolla/decision_forest/split_conditions/set_of_values_split_condition.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/qtype/typed_slot.h"

using namespace arolla;
namespace {
constexpr float kInf = std::numeric_limits<float>::infinity(), kMax = std::numeric_limits<float>::max(), kNan = std::numeric_limits<float>::quiet_NaN();
using S = DecisionTreeNodeId;
// inputs: #0, #1 optional floats, #2 optional int64
struct Inputs {
  OptionalValue<float> f[2];
  OptionalValue<int64_t> i;
};
// a condition and what it is defined to mean
struct Cond {
  int input;
  float l, r;
  std::vector<int64_t> vals;
  std::vector<float> fvals;
  bool missed;
  int kind;  // 0 interval, 1 set of int64, 2 set of floats
  std::shared_ptr<SplitCondition> Make() const {
    if (kind == 0) return IntervalSplit(input, l, r);
    if (kind == 1) return SetOfValuesSplit<int64_t>(input, absl::flat_hash_set<int64_t>(vals.begin(), vals.end()), missed);
    return SetOfValuesSplit<float>(input, absl::flat_hash_set<float>(fvals.begin(), fvals.end()), missed);
  }
  bool Eval(const Inputs& in) const {
    if (kind == 0) { auto v = in.f[input]; return v.present & (l <= v.value) & (v.value <= r); }
    if (kind == 1) {
      bool c = false;
      for (int64_t x : vals) c |= in.i.value == x;
      return (in.i.present & c) | (!in.i.present & missed);
    }
    bool c = false;
    for (float x : fvals) c |= in.f[input].value == x;
    return (in.f[input].present & c) | (!in.f[input].present & missed);
  }
};
Cond Interval(int input, float l, float r) { return {input, l, r, {}, {}, false, 0}; }
Cond Set(std::vector<int64_t> v, bool missed) { return {2, 0, 0, v, {}, missed, 1}; }
Cond FSet(int input, std::vector<float> v, bool missed) { return {input, 0, 0, {}, v, missed, 2}; }

struct Tree {
  DecisionTree tree;
  std::vector<Cond> conds;
};
// Shapes of trees with n splits: children (false, true) of each split; >= 0: split, < 0: leaf -1-x
using Shape = std::vector<std::pair<int, int>>;
const std::vector<Shape>& Shapes(int n) {
  static const std::vector<Shape> s0 = {{}}, s1 = {{{-1, -2}}, {{-2, -1}}},
      s2 = {{{-1, 1}, {-2, -3}}, {{1, -3}, {-2, -1}}, {{1, -1}, {-3, -2}}},
      s3 = {{{1, 2}, {-1, -2}, {-3, -4}}, {{2, 1}, {-4, -1}, {-3, -2}}, {{1, -4}, {-1, 2}, {-3, -2}}, {{-1, 2}, {-4, -3}, {1, -2}}};
  return n == 0 ? s0 : n == 1 ? s1 : n == 2 ? s2 : s3;
}
// leaf values are distinct: leaf j of tree k gives a value that no other choice of leaves adds up to
Tree MakeTree(const Shape& shape, const std::vector<Cond>& conds, int k, float weight = 1, int step = 0, int submodel = 0) {
  Tree t;
  auto id = [](int x) { return x >= 0 ? S::SplitNodeId(x) : S::AdjustmentId(-1 - x); };
  for (size_t i = 0; i < shape.size(); ++i)
    t.tree.split_nodes.push_back({id(shape[i].first), id(shape[i].second), conds[i].Make()});
  float base = 1;
  for (int i = 0; i < k; ++i) base *= 8;
  for (size_t i = 0; i <= shape.size(); ++i) t.tree.adjustments.push_back(base * (i + 1));
  t.tree.weight = weight;
  t.tree.tag = {.step = step, .submodel_id = submodel};
  t.conds = conds;
  return t;
}
double EvalTree(const Tree& t, const Inputs& in) {
  S n = GetTreeRootId(t.tree);
  while (!n.is_leaf()) {
    const SplitNode& s = t.tree.split_nodes[n.split_node_index()];
    n = sx_concretize(t.conds[n.split_node_index()].Eval(in)) ? s.child_if_true : s.child_if_false;
  }
  return double{t.tree.adjustments[n.adjustment_index()]} * t.tree.weight;
}
struct Env {
  FrameLayout layout;
  std::vector<TypedSlot> slots;
  FrameLayout::Slot<OptionalValue<float>> f[2] = {FrameLayout::Slot<OptionalValue<float>>::UnsafeUninitializedSlot(), FrameLayout::Slot<OptionalValue<float>>::UnsafeUninitializedSlot()};
  FrameLayout::Slot<OptionalValue<int64_t>> i = FrameLayout::Slot<OptionalValue<int64_t>>::UnsafeUninitializedSlot();
  FrameLayout::Slot<float> out[2] = {FrameLayout::Slot<float>::UnsafeUninitializedSlot(), FrameLayout::Slot<float>::UnsafeUninitializedSlot()};
  std::unique_ptr<MemoryAllocation> alloc;
  Env() {
    FrameLayout::Builder b;
    f[0] = b.AddSlot<OptionalValue<float>>();
    out[0] = b.AddSlot<float>();
    i = b.AddSlot<OptionalValue<int64_t>>();
    f[1] = b.AddSlot<OptionalValue<float>>();
    out[1] = b.AddSlot<float>();
    layout = std::move(b).Build();
    slots = {TypedSlot::FromSlot(f[0]), TypedSlot::FromSlot(f[1]), TypedSlot::FromSlot(i)};
    alloc = std::make_unique<MemoryAllocation>(&layout);
  }
  FramePtr frame() { return alloc->frame(); }
  void SetInputs(const Inputs& in) { frame().Set(f[0], in.f[0]); frame().Set(f[1], in.f[1]); frame().Set(i, in.i); }
};
Inputs AnyInputs(bool f0, bool f1, bool i) {
  Inputs in;
  if (f0) in.f[0] = {sx<bool>("p0"), sx<float>("f0")};
  if (f1) in.f[1] = {sx<bool>("p1"), sx<float>("f1")};
  if (i) in.i = {sx<bool>("pi"), sx<int64_t>("i")};
  return in;
}
using Params = ForestEvaluator::CompilationParams;
Params AnyParams() {
  Params p;
  p.enable_regular_eval = true;
  switch (sx_pick("params", 0, 3)) {
    case 0: break;
    case 1: p.enable_bitmask_eval = p.enable_single_input_eval = false; break;
    case 2: p.enable_single_input_eval = false; break;
    case 3: p.enable_bitmask_eval = false; break;
  }
  return p;
}
std::unique_ptr<DecisionForest> Forest(const std::vector<Tree>& ts) {
  std::vector<DecisionTree> v;
  for (auto& t : ts) v.push_back(t.tree);
  auto r = DecisionForest::FromTrees(std::move(v));
  sx_assert(r.ok());
  return *std::move(r);
}
void CheckForest(const std::vector<Tree>& ts, const Inputs& in, Params p) {
  auto forest = Forest(ts);
  Env env;
  sx_assert(forest->ValidateInputSlots(env.slots).ok());
  auto ev = SimpleForestEvaluator::Compile(*forest, env.slots, p);
  sx_assert(ev.ok());
  env.SetInputs(in);
  double want = 0;
  for (auto& t : ts) want += EvalTree(t, in);
  sx_assert(ev->Eval(env.frame()) == static_cast<float>(want));
  if (!p.enable_bitmask_eval & !p.enable_single_input_eval)
    sx_assert(DecisionForestNaiveEvaluation(*forest, env.frame(), env.slots) == static_cast<float>(want));
}
const Shape& PickShape(int n) { return Shapes(n)[sx_pick("shape", 0, Shapes(n).size() - 1)]; }
// conditions with interacting thresholds, open and empty intervals, signed zeros, infinities and NaN
Cond PickInterval(int input, int k = -1) {
  switch (k >= 0 ? k : sx_pick("interval", 0, 7)) {
    case 0: return Interval(input, -kInf, 1);
    case 1: return Interval(input, 1, kInf);
    case 2: return Interval(input, 1, 1);
    case 3: return Interval(input, 1, 2);
    case 4: return Interval(input, -0.0f, 0.0f);
    case 5: return Interval(input, -kMax, kMax);
    case 6: return Interval(input, 2, 1);
    default:
      switch (sx_pick("special", 0, 3)) {
        case 0: return Interval(input, -kInf, kInf);
        case 1: return Interval(input, -kInf, -kInf);
        case 2: return Interval(input, kNan, 1);
        default: return Interval(input, kInf, kInf);
      }
  }
}
}  // namespace


// one tree, one float input: every evaluator agrees with the definition for every value
SX_ENTRY(tree_float) { // sx: shards=8 bound=one_tree_of_up_to_3_splits_on_one_float_input,_every_value_of_it
  int k = sx_shard(8);
  int n = sx_pick("splits", 0, 2);
  std::vector<Cond> c;
  for (int i = 0; i < n; ++i) c.push_back(i == 0 ? PickInterval(0, k) : PickInterval(0));
  CheckForest({MakeTree(PickShape(n), c, 0, 0.5f)}, AnyInputs(true, false, false), AnyParams());
}
// three splits over thresholds that interact
SX_ENTRY(tree3) { // sx: shards=4 bound=one_tree_of_3_splits_on_one_or_two_inputs
  const Shape& shape = Shapes(3)[sx_shard(4)];
  std::vector<Cond> c;
  for (int i = 0; i < 3; ++i) {
    switch (sx_pick("cond", 0, 3)) {
      case 0: c.push_back(Interval(0, 1, kInf)); break;
      case 1: c.push_back(Interval(0, -kInf, 2)); break;
      case 2: c.push_back(Interval(1, 1, 2)); break;
      case 3: c.push_back(Set({5, 7}, i == 1)); break;
    }
  }
  CheckForest({MakeTree(shape, c, 0)}, AnyInputs(true, true, true), AnyParams());
}
// int64 inputs: sets with extreme values and defaults for missing inputs
SX_ENTRY(sets) { // sx: bound=two_trees_of_up_to_2_set_conditions,_every_int64
  constexpr int64_t lo = std::numeric_limits<int64_t>::min(), hi = std::numeric_limits<int64_t>::max();
  auto pick = [] {
    switch (sx_pick("set", 0, 5)) {
      case 0: return Set({}, sx_pick("missed", 0, 1));
      case 1: return Set({3, 5}, sx_pick("missed", 0, 1));
      case 2: return Set({lo, hi}, false);
      case 3: return Set({lo + 1, -1, hi - 1}, true);
      case 4: return Set({hi, hi - 2}, false);
      default: return Set({5}, true);
    }
  };
  int n = sx_pick("splits", 1, 2);
  std::vector<Cond> c;
  for (int i = 0; i < n; ++i) c.push_back(pick());
  CheckForest({MakeTree(PickShape(n), c, 0), MakeTree(Shapes(1)[0], {Set({4, 5}, false)}, 1, -2)}, AnyInputs(false, false, true), AnyParams());
}
// sets of floats: special values, and together with intervals
SX_ENTRY(float_sets) { // sx: bound=one_tree_of_up_to_2_conditions_with_sets_of_floats,_every_float
  auto pick = [] {
    switch (sx_pick("set", 0, 5)) {
      case 0: return FSet(0, {1, 2}, sx_pick("missed", 0, 1));
      case 1: return FSet(0, {kInf, -kInf}, false);
      case 2: return FSet(0, {kMax, -kMax, 3e38f}, true);
      case 3: return FSet(0, {kNan, 1}, false);
      case 4: return Interval(0, 1, 3);
      default: return FSet(0, {0.0f}, true);
    }
  };
  int n = sx_pick("splits", 1, 2);
  std::vector<Cond> c;
  for (int i = 0; i < n; ++i) c.push_back(pick());
  CheckForest({MakeTree(PickShape(n), c, 0)}, AnyInputs(true, false, false), AnyParams());
}
// any thresholds whatever, in two trees over one input
SX_ENTRY(any_thresholds) { // sx: shards=4 bound=two_trees_of_one_split_with_any_thresholds,_every_float_input
  Params p;
  int k = sx_shard(4);
  p.enable_bitmask_eval = k & 1;
  p.enable_single_input_eval = false;
  float a = sx<float>("a"), b = sx<float>("b");
  std::vector<Tree> t;
  switch (sx_pick("kind", 0, 3)) {
    case 0: t = {MakeTree(Shapes(1)[0], {Interval(0, a, b)}, 0), MakeTree(Shapes(1)[1], {Interval(0, -1, 1)}, 1)}; break;
    case 1: t = {MakeTree(Shapes(1)[0], {Interval(0, -kInf, a)}, 0), MakeTree(Shapes(1)[1], {Interval(0, -kInf, b)}, 1)}; break;
    case 2: t = {MakeTree(Shapes(1)[0], {Interval(0, a, kInf)}, 0), MakeTree(Shapes(1)[1], {Interval(0, b, kInf)}, 1)}; break;
    case 3: t = {MakeTree(Shapes(1)[0], {Interval(0, a, a)}, 0), MakeTree(Shapes(1)[1], {Interval(0, b, b)}, 1)}; break;
  }
  if (k & 2) std::swap(t[0], t[1]);
  CheckForest(t, AnyInputs(true, false, false), p);
}
// more trees than one batch of the boosted predictor, of different depths
SX_ENTRY(many_trees) { // sx: bound=18_trees_of_0_to_3_splits_on_3_inputs
  Params p = AnyParams();
  std::vector<Tree> t;
  Cond a = Interval(0, 1, 2), b = Interval(1, 3, kInf), c = Set({1, 2}, true);
  for (int i = 0; i < 18; ++i) {
    int n = (i * 7 + 1) % 4;
    std::vector<Cond> cs;
    for (int j = 0; j < n; ++j) cs.push_back((i + j) % 3 == 0 ? a : (i + j) % 3 == 1 ? b : c);
    Tree tr = MakeTree(Shapes(n)[i % Shapes(n).size()], cs, 0);
    for (size_t j = 0; j < tr.tree.adjustments.size(); ++j) tr.tree.adjustments[j] = (1 << i % 9) * (2 * j + 1);
    if (i % 5 == 4) tr.tree.weight = 0.25f;
    t.push_back(tr);
  }
  CheckForest(t, AnyInputs(true, true, true), p);
}
// big trees: a chain with as many leaves as a mask has bits, one more, and one past the wide mask
SX_ENTRY(big_trees) { // sx: shards=4 bound=chains_of_31_to_64_splits_next_to_a_small_tree
  static const int sizes[] = {31, 32, 63, 64};
  int n = sizes[sx_shard(4)];
  Params p;
  p.enable_single_input_eval = false;
  Shape shape;
  std::vector<Cond> c;
  for (int i = 0; i < n; ++i) {
    // odd splits continue on the true side
    int next = i + 1 < n ? i + 1 : -1 - n;
    shape.push_back(i % 2 ? std::pair{-1 - i, next} : std::pair{next, -1 - i});
    c.push_back(i % 2 ? Interval(0, -kInf, 100.f - i) : Interval(0, 100.f - i, kInf));
  }
  CheckForest({MakeTree(shape, c, 0), MakeTree(Shapes(1)[0], {Interval(0, 70, 75)}, 3)}, AnyInputs(true, false, false), p);
}
// oblivious trees: every layer asks one question
SX_ENTRY(oblivious) { // sx: bound=trees_of_2_layers_with_equal_or_different_questions
  Cond pool[] = {Interval(0, 1, 2), Interval(1, 1, 2), Set({5}, true), Interval(0, -kInf, 1)};
  Cond top = pool[sx_pick("top", 0, 3)], left = pool[sx_pick("left", 0, 3)], right = sx_pick("same", 0, 1) ? left : pool[sx_pick("right", 0, 3)];
  const Shape& shape = Shapes(3)[sx_pick("shape", 0, 1)];
  Tree t = MakeTree(shape, {top, left, right}, 0, 0.5f);
  auto ob = ToObliviousTree(t.tree);
  bool same = *left.Make() == *right.Make();
  sx_assert(ob.has_value() == same);
  if (same) {
    sx_assert(ob->layer_splits.size() == 2 && ob->adjustments.size() == 4);
    sx_assert(*ob->layer_splits[0] == *top.Make() && *ob->layer_splits[1] == *left.Make());
    sx_reach("oblivious");
  }
  Params p;
  p.enable_single_input_eval = false;
  CheckForest({t, MakeTree(Shapes(1)[0], {pool[0]}, 1), MakeTree(Shapes(2)[0], {pool[1], pool[2]}, 2)}, AnyInputs(true, true, true), p);
}
// a tree that is not balanced is not oblivious
SX_ENTRY(not_oblivious) { // sx: bound=trees_of_up_to_3_splits_asking_one_question
  int n = sx_pick("splits", 0, 3);
  int k = sx_pick("shape", 0, Shapes(n).size() - 1);
  Tree t = MakeTree(Shapes(n)[k], std::vector<Cond>(n, Interval(0, 1, 2)), 0, 2);
  auto ob = ToObliviousTree(t.tree);
  sx_assert(ob.has_value() == (n <= 1 || (n == 3 && k < 2)));
  if (!ob) return;
  sx_assert(ob->adjustments.size() == size_t(n + 1));
  // the leaf reached by answering "true" at the layers given by the bits, the first layer in the highest bit
  for (int bits = 0; bits <= n; ++bits) {
    S id = GetTreeRootId(t.tree);
    for (int d = n == 3 ? 1 : 0; !id.is_leaf(); --d) {
      auto& s = t.tree.split_nodes[id.split_node_index()];
      id = bits >> d & 1 ? s.child_if_true : s.child_if_false;
    }
    sx_assert(ob->adjustments[bits] == t.tree.adjustments[id.adjustment_index()] * 2);
  }
}
// results per group of trees; trees in no group are left out, trees in two groups are an error
SX_ENTRY(groups) { // sx: shards=4 bound=4_trees_tagged_by_step_and_submodel,_two_filters
  Cond a = Interval(0, 1, 2), b = Set({3}, true);
  int k = sx_shard(4);
  std::vector<Tree> t;
  for (int i = 0; i < 4; ++i)
    t.push_back(i == 3 ? MakeTree(Shapes(0)[0], {}, 3, 1, 2, 1) : MakeTree(Shapes(1)[i % 2], {i % 2 ? b : a}, i, 1, i, i % 2));
  if (k & 1) t.push_back(MakeTree(Shapes(2)[0], {a, b}, 4, 1, 1, 0));
  auto filter = [] {
    TreeFilter f;
    f.step_range_from = sx_pick("from", 0, 2);
    f.step_range_to = sx_pick("to", -1, 3);
    switch (sx_pick("sub", 0, 2)) { case 1: f.submodels = {0}; break; case 2: f.submodels = {1, 5}; break; }
    return f;
  };
  auto in_group = [](const TreeFilter& f, const Tree& t) {
    auto tag = t.tree.tag;
    return tag.step >= f.step_range_from && (f.step_range_to == -1 || tag.step < f.step_range_to) &&
           (f.submodels.empty() || f.submodels.contains(tag.submodel_id));
  };
  TreeFilter f1 = filter(), f2;
  f2.step_range_from = sx_pick("from2", 0, 3);
  f2.submodels = {0};
  Inputs in = AnyInputs(true, false, true);
  double want[2] = {0, 0};
  bool clash = false;
  for (auto& x : t) {
    bool g1 = in_group(f1, x), g2 = in_group(f2, x);
    clash |= g1 && g2;
    if (g1) want[0] += EvalTree(x, in);
    if (g2) want[1] += EvalTree(x, in);
  }
  Env env;
  auto forest = Forest(t);
  Params p;
  if (k & 2) p.enable_single_input_eval = false;
  auto ev = ForestEvaluator::Compile(*forest, env.slots, {{f1, env.out[1]}, {f2, env.out[0]}}, p);
  sx_assert(ev.ok() == !clash);
  sx_assert(!ForestEvaluator::Compile(*forest, env.slots, {}, p).ok());
  env.SetInputs(in);
  sx_assert(DecisionForestNaiveEvaluation(*forest, env.frame(), env.slots, f1) == static_cast<float>(want[0]));
  if (clash) { sx_reach("clash"); return; }
  sx_reach("groups");
  ev->Eval(env.frame(), env.frame());
  ev->Eval(env.frame(), env.frame());  // results do not add up over calls
  sx_assert(env.frame().Get(env.out[1]) == static_cast<float>(want[0]));
  sx_assert(env.frame().Get(env.out[0]) == static_cast<float>(want[1]));
}
// without the regular evaluator unsupported trees are an error, never a wrong result
SX_ENTRY(restricted) { // sx: bound=every_combination_of_evaluators
  Params p{.enable_regular_eval = false, .enable_bitmask_eval = sx_pick("bitmask", 0, 1) != 0, .enable_single_input_eval = sx_pick("single", 0, 1) != 0};
  int kind = sx_pick("kind", 0, 2);
  std::vector<Cond> c = kind == 0 ? std::vector{Interval(0, 1, 2), Interval(0, 2, 3)} : kind == 1 ? std::vector{Interval(0, 1, 2), Interval(1, 2, 3)} : std::vector{FSet(0, {1}, true), Interval(1, 2, 3)};
  std::vector<Tree> t = {MakeTree(PickShape(2), c, 0), MakeTree(Shapes(0)[0], {}, 1)};
  if (sx_pick("const", 0, 1)) t.pop_back();
  Env env;
  auto forest = Forest(t);
  auto ev = SimpleForestEvaluator::Compile(*forest, env.slots, p);
  bool ok = (kind == 0 && p.enable_single_input_eval) || (kind <= 1 && p.enable_bitmask_eval);
  if (t.size() == 2) ok = ok && p.enable_bitmask_eval;
  sx_assert(ev.ok() == ok);
  if (!ok) return;
  Inputs in = AnyInputs(true, true, false);
  double want = 0;
  for (auto& x : t) want += EvalTree(x, in);
  env.SetInputs(in);
  sx_assert(ev->Eval(env.frame()) == static_cast<float>(want));
}
// malformed forests are rejected, well-formed ones described correctly
SX_ENTRY(validation) { // sx: bound=two_trees_of_2_splits,_any_tag,_any_child_index_-5_to_4
  Cond a = Interval(0, 1, 2), b = Set({3}, true);
  Tree t0 = MakeTree(Shapes(2)[0], {a, b}, 0), t1 = MakeTree(Shapes(1)[0], {a}, 1);
  DecisionTree& d = t0.tree;
  bool ok = true;
  switch (sx_pick("what", 0, 6)) {
    case 0: break;
    case 1: {
      int c = sx_pick("child", -5, 4);
      S id = c >= 0 ? S::SplitNodeId(c) : S::AdjustmentId(-1 - c);
      int which = sx_pick("which", 0, 3);
      (which & 1 ? d.split_nodes[which / 2].child_if_true : d.split_nodes[which / 2].child_if_false) = id;
      ok = c < 2 && c >= -3;
      break;
    }
    case 2: d.adjustments.pop_back(); ok = false; break;
    case 3: d.adjustments.push_back(1); ok = false; break;
    case 4: d.tag.step = sx<int>("step"); sx_assume(d.tag.step < 1000000); ok = d.tag.step >= 0; break;
    case 5: d.tag.submodel_id = sx<int>("sub"); sx_assume(d.tag.submodel_id < 1000000); ok = d.tag.submodel_id >= 0; break;
    case 6: d.split_nodes[1].condition = SetOfValuesSplit<int64_t>(0, {1}, false); ok = false; break;
  }
  bool order = sx_pick("order", 0, 1);
  auto tag = d.tag;
  auto r = DecisionForest::FromTrees(order ? std::vector{t0.tree, t1.tree} : std::vector{t1.tree, t0.tree});
  sx_assert(r.ok() == ok);
  if (!ok) return;
  sx_assert((*r)->step_count() == tag.step + 1);
  sx_assert((*r)->submodel_count() == tag.submodel_id + 1);
  sx_assert((*r)->GetTrees().size() == 2);
  auto& q = (*r)->GetRequiredQTypes();
  sx_assert(q.at(0) == GetOptionalQType<float>());
  if (q.contains(2)) sx_assert(q.at(2) == GetOptionalQType<int64_t>());
  Env env;
  sx_assert((*r)->ValidateInputSlots(env.slots).ok());
  if (q.contains(2)) {
    sx_assert(!(*r)->ValidateInputSlots(absl::MakeSpan(env.slots).subspan(0, 2)).ok());
    std::vector<TypedSlot> swapped = {env.slots[2], env.slots[1], env.slots[0]};
    sx_assert(!(*r)->ValidateInputSlots(swapped).ok());
  }
}
// fingerprints: equal for equal forests, different when anything that matters differs
SX_ENTRY(fingerprints) { // sx: bound=two_forests_of_one_tree_that_differ_in_at_most_one_detail
  auto make = [](int change) {
    Cond a = change == 1 ? Interval(0, 1, 3) : change == 2 ? Interval(1, 1, 2) : Interval(0, 1, 2), b = Set(change == 3 ? std::vector<int64_t>{3} : change == 11 ? std::vector<int64_t>{4, 3} : std::vector<int64_t>{3, 4}, change != 4);
    Tree t = MakeTree(Shapes(2)[change == 5 ? 1 : 0], {a, b}, 0, change == 6 ? 2 : 1, change == 7, change == 8);
    if (change == 9) t.tree.adjustments[1] = 100;
    std::vector<Tree> ts = {t};
    if (change == 10) ts.push_back(t);
    return Forest(ts)->fingerprint();
  };
  int x = sx_pick("x", 0, 11), y = sx_pick("y", 0, 11);
  auto same = [](int c) { return c == 11 ? 0 : c; };
  sx_assert((make(x) == make(y)) == (same(x) == same(y)));
}
// conditions: equality, input ids
SX_ENTRY(conditions) { // sx: bound=pairs_of_conditions_from_a_pool_of_9
  Cond pool[] = {Interval(0, 1, 2), Interval(1, 1, 2), Interval(0, 1, 3), Interval(0, 0, 2), Set({1, 2}, true), Set({1, 2}, false), Set({1}, true), FSet(0, {1, 2}, true), Set({2, 1}, true)};
  int x = sx_pick("x", 0, 8), y = sx_pick("y", 0, 8);
  auto a = pool[x].Make(), b = pool[y].Make();
  auto same = [](int c) { return c == 8 ? 4 : c; };
  bool eq = same(x) == same(y);
  sx_assert((*a == *b) == eq && (*a != *b) == !eq);
  sx_assert(!eq || a->StableHash() == b->StableHash());
  auto sig = a->GetInputSignatures();
  sx_assert(sig.size() == 1 && sig[0].id == pool[x].input && sig[0].type == (pool[x].kind == 1 ? GetOptionalQType<int64_t>() : GetOptionalQType<float>()));
  int to = sx_pick("to", 0, 3);
  auto m = a->RemapInputs({{y % 3, to}});
  Cond want = pool[x];
  if (want.input == y % 3) want.input = to;
  sx_assert(*m == *want.Make());
}
namespace {
struct Less {
  int feature = 0;
  float than = 0;
  template <class C> bool operator()(const C& v) const { return *(v.begin() + feature) < than; }
};
}
// the low-level compiler: every node set once and used once, or an error
SX_ENTRY(compiler) { // sx: bound=3_nodes,_any_ids_0_to_3
  int n = sx_pick("nodes", 0, 1) ? 3 : 1;
  PredictorCompiler<int, Less> c(n);
  if (n == 1) {
    auto s = c.SetLeaf(sx_pick("leaf", 0, 1), 7);
    auto r = c.Compile();
    sx_assert(r.ok() == s.ok());
    sx_assert(!c.Compile().ok());
    if (r.ok()) sx_assert(r->Predict(std::vector<float>{1}) == 7);
    return;
  }
  int node = sx_pick("node", 0, 3), l = sx_pick("l", 0, 3), r = sx_pick("r", 0, 3);
  bool ok = node == 0 && l != r && l != 0 && r != 0 && l < 3 && r < 3;
  bool s = c.SetNode(node, l, r, {0, 1.5f}).ok();
  sx_assert(s == (node < 3 && l < 3 && r < 3 && l != r && l != 0 && r != 0));
  int a = sx_pick("a", 0, 3), b = sx_pick("b", 0, 3);
  bool sa = c.SetLeaf(a, 10).ok(), sb = c.SetLeaf(b, 20).ok();
  sx_assert(sa == (a < 3 && a != node));
  sx_assert(sb == (b < 3 && b != node && b != a));
  auto p = c.Compile();
  ok = ok && a != b && (a == 1 || a == 2) && (b == 1 || b == 2);
  if (!s || !sa || !sb || node != 0) return;  // the first node is the root
  sx_assert(p.ok() == ok);
  if (!p.ok()) return;
  sx_reach("compiled");
  float v = sx<float>("v");
  int leaf = v < 1.5f ? l : r;
  sx_assert(p->Predict(std::vector<float>{v}) == (leaf == a ? 10 : 20));
}
// boosted trees with a filter over tags, across batches
SX_ENTRY(boosted) { // sx: bound=0,_1,_16,_17_or_33_trees,_tags_filtered_by_any_bit_set
  static const int sizes[] = {0, 1, 16, 17, 33};
  int n = sizes[sx_pick("n", 0, 4)];
  int mask = sx_pick("mask", 0, 7);
  float v = sx<float>("v");
  auto run = [&](auto op, uint32_t start, auto fold) {
    BoostedPredictorCompiler<uint32_t, Less, decltype(op), int> c;
    for (int i = 0; i < n; ++i) {
      if (i % 4 == 3) { sx_assert(c.AddTree(1, i % 3).SetLeaf(0, 1u << i % 32).ok()); continue; }
      auto t = c.AddTree(3, i % 3);
      sx_assert(t.SetNode(0, 1, 2, {0, float(i % 3)}).ok() && t.SetLeaf(1, i).ok() && t.SetLeaf(2, 1000 + i).ok());
    }
    auto p = c.Compile();
    sx_assert(p.ok() && !c.Compile().ok());
    uint32_t want = start, all = start;
    for (int i = 0; i < n; ++i) {
      uint32_t x = i % 4 == 3 ? 1u << i % 32 : v < float(i % 3) ? i : 1000 + i;
      all = fold(all, x);
      if (mask >> i % 3 & 1) want = fold(want, x);
    }
    sx_assert(p->Predict(std::vector<float>{v}, start, [&](int tag) { return mask >> tag & 1; }) == want);
    sx_assert(p->Predict(std::vector<float>{v}, start) == all);
  };
  run(std::plus<uint32_t>(), 5, [](uint32_t a, uint32_t b) { return a + b; });
}
