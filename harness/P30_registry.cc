// Choosing operators: implicit casts, overloads, the registry, binding.
// SX-SRCS: arolla/qexpr/operators.cc arolla/qexpr/casting.cc arolla/qexpr/operator_errors.cc arolla/qexpr/qexpr_operator_signature.cc arolla/qexpr/bound_operators.cc arolla/qtype/standard_type_properties/common_qtype.cc arolla/qtype/standard_type_properties/properties.cc arolla/qtype/shape_qtype.cc arolla/qtype/weak_qtype.cc arolla/array/qtype/types.cc arolla/array/array.cc arolla/array/array_util.cc arolla/array/edge.cc arolla/array/id_filter.cc arolla/dense_array/qtype/types.cc arolla/dense_array/edge.cc arolla/dense_array/bitmap.cc arolla/dense_array/dense_array.cc arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc arolla/util/cancellation.cc arolla/memory/frame.cc arolla/qtype/qtype.cc arolla/qtype/base_types.cc arolla/qtype/optional_qtype.cc arolla/qtype/derived_qtype.cc arolla/qtype/tuple_qtype.cc arolla/qtype/named_field_qtype.cc arolla/qtype/typed_slot.cc arolla/qtype/typed_ref.cc arolla/qtype/typed_value.cc arolla/util/string.cc arolla/util/repr.cc arolla/util/fingerprint.cc arolla/util/text.cc arolla/util/bytes.cc arolla/util/unit.cc arolla/util/status.cc arolla/util/demangle.cc arolla/util/class_info.cc arolla/util/init_arolla.cc arolla/util/init_arolla_internal.cc arolla/memory/optional_value.cc arolla/util/preallocated_buffers.cc
// SX-FLAGS: -I$VERIF/harness/stub_sstream
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "sx.h"
#include "arolla/array/qtype/types.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/qexpr/bound_operators.h"
#include "arolla/qexpr/casting.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/lift_to_optional_operator.h"
#include "arolla/qexpr/operator_factory.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qexpr/qexpr_operator_signature.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/derived_qtype.h"
#include "arolla/qtype/named_field_qtype.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/shape_qtype.h"
#include "arolla/qtype/standard_type_properties/common_qtype.h"
#include "arolla/qtype/standard_type_properties/properties.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/qtype/weak_qtype.h"
#include "arolla/util/bytes.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"

using namespace arolla;

namespace {

// Types in two coordinates: what one element is, and how elements are kept.
enum Scalar { kI32, kI64, kF32, kF64, kWeak, kBool, kText, kScalars };
enum Shape { kOne, kOpt, kDense, kArr, kShapes };
struct Type {
  int scalar, shape;  // scalar < 0: no type
  bool operator==(const Type& o) const { return (scalar == o.scalar) & (shape == o.shape); }
};
constexpr Type kNoType = {-1, 0};

template <typename T>
QTypePtr Shaped(int shape) {
  if (shape == kOne) return GetQType<T>();
  if (shape == kOpt) return GetOptionalQType<T>();
  if (shape == kDense) return GetDenseArrayQType<T>();
  return GetArrayQType<T>();
}
QTypePtr Real(Type t) {
  switch (t.scalar) {
    case kI32: return Shaped<int32_t>(t.shape);
    case kI64: return Shaped<int64_t>(t.shape);
    case kF32: return Shaped<float>(t.shape);
    case kF64: return Shaped<double>(t.shape);
    case kBool: return Shaped<bool>(t.shape);
    case kText: return Shaped<Text>(t.shape);
    case kWeak:
      if (t.shape == kOne) return GetWeakFloatQType();
      if (t.shape == kOpt) return GetOptionalWeakFloatQType();
      if (t.shape == kDense) return GetDenseArrayWeakFloatQType();
      return GetArrayWeakFloatQType();
    default: return nullptr;
  }
}
// The join of two elements: int32 < int64 < float32 < float64, weak < float32.
int JoinScalar(int a, int b) {
  if (a == b) return a;
  static constexpr int kJoin[5][5] = {
      {kI32, kI64, kF32, kF64, kF32},
      {kI64, kI64, kF32, kF64, kF32},
      {kF32, kF32, kF32, kF64, kF32},
      {kF64, kF64, kF64, kF64, kF64},
      {kF32, kF32, kF32, kF64, kWeak},
  };
  if (a < 0 || b < 0 || a > kWeak || b > kWeak) return -1;
  return kJoin[a][b];
}
int JoinShape(int a, int b, bool broadcast) {
  if (a == b) return a;
  if (!broadcast && (a >= kDense || b >= kDense)) return -1;
  if (a >= kDense && b >= kDense) return -1;
  return a > b ? a : b;
}
Type Join(Type a, Type b, bool broadcast) {
  if (a.scalar < 0 || b.scalar < 0) return kNoType;
  if (a == b) return a;
  int scalar = JoinScalar(a.scalar, b.scalar), shape = JoinShape(a.shape, b.shape, broadcast);
  return scalar < 0 || shape < 0 ? kNoType : Type{scalar, shape};
}
// As after the initialisation of the library, which makes all of its types.
void Warm() {
  for (int shape = 0; shape < kShapes; ++shape) {
    for (int scalar = 0; scalar < kScalars; ++scalar) Real({scalar, shape});
    Shaped<Unit>(shape);
  }
}
Type PickType(const char* name, int scalars = kScalars, int shapes = kShapes) {
  int k = sx_pick(name, 0, scalars * shapes);
  return k == scalars * shapes ? kNoType : Type{k / shapes, k % shapes};
}

}  // namespace

SX_ENTRY(common) { // sx: shards=8 bound=every_pair_of_types_of_7_elements_and_4_shapes,_and_no_type
  Warm();
  int shard = sx_shard(8);
  Type a = PickType("a"), b = PickType("b");
  if ((a.scalar + 1 + b.shape) % 8 != shard) sx_end();
  bool broadcast = sx_pick("broadcast", 0, 1);
  Type j = Join(a, b, broadcast);
  sx_assert(CommonQType(Real(a), Real(b), broadcast) == Real(j));
  sx_assert(CommonQType(Real(b), Real(a), broadcast) == Real(j));
  sx_assert(CanCastImplicitly(Real(a), Real(b), broadcast) == (b.scalar >= 0 && j == b));
  QTypePtr both[] = {Real(a), Real(b)};
  sx_assert(CommonQType(both, broadcast) == Real(j));
  sx_assert(CommonQType(absl::Span<const QTypePtr>(both, 1), broadcast) == Real(a));
  sx_assert(CommonQType(absl::Span<const QTypePtr>(both, 0), broadcast) == nullptr);
  if (a.scalar >= 0) {
    sx_assert(GetScalarQTypeOrNull(Real(a)) == Real({a.scalar, kOne}));
    sx_assert(IsScalarQType(Real(a)) == (a.shape == kOne));
    sx_assert(IsOptionalLikeQType(Real(a)) == (a.shape != kOne));
    sx_assert(IsArrayLikeQType(Real(a)) == (a.shape >= kDense));
    auto shape = GetShapeQTypeOrNull(Real(a));
    sx_assert(shape != nullptr);
    if (b.scalar >= 0) {
      auto moved = shape->WithValueQType(Real({b.scalar, kOne}));
      sx_assert(moved.ok() && *moved == Real({b.scalar, a.shape}));
      auto with = WithScalarQType(Real(a), Real({b.scalar, kOne}));
      sx_assert(with.ok() && *with == Real({b.scalar, a.shape}));
      if (b.shape != kOne) sx_assert(!WithScalarQType(Real(a), Real(b)).ok());
    }
    auto opt = ToOptionalLikeQType(Real(a));
    sx_assert(opt.ok() && *opt == Real({a.scalar, a.shape == kOne ? kOpt : a.shape}));
    auto presence = GetPresenceQType(Real(a));
    sx_assert(presence.ok() && *presence == Shaped<Unit>(a.shape));
    auto decayed = DecayDerivedQType(Real(a));
    sx_assert(decayed == (a.scalar == kWeak ? Real({kF64, a.shape}) : Real(a)));
  }
  sx_reach("common");
}

// The join is the least upper bound: associative, so that the order in which
// arguments are combined does not matter.
SX_ENTRY(lattice) { // sx: shards=6 weight=2 bound=every_triple_of_types_of_6_elements_and_4_shapes_(numbers,_one_other)
  Warm();
  int shard = sx_shard(6);
  Type a{shard, (int)sx_pick("shape", 0, kShapes - 1)};
  Type b = PickType("b", 5), c = PickType("c", 5);
  bool broadcast = sx_pick("broadcast", 0, 1);
  QTypePtr x = Real(a), y = Real(b), z = Real(c);
  auto left = CommonQType(CommonQType(x, y, broadcast), z, broadcast);
  auto right = CommonQType(x, CommonQType(y, z, broadcast), broadcast);
  sx_assert(left == right);
  QTypePtr all[] = {x, y, z};
  sx_assert(CommonQType(all, broadcast) == left);
  if (CanCastImplicitly(x, y, broadcast) && CanCastImplicitly(y, z, broadcast)) {
    sx_assert(CanCastImplicitly(x, z, broadcast));
    if (x != y) sx_assert(!CanCastImplicitly(y, x, broadcast));
  }
  if (left != nullptr) {
    for (auto q : all) sx_assert(CanCastImplicitly(q, left, broadcast));
  }
  sx_reach("lattice");
}

SX_ENTRY(broadcast) { // sx: shards=4 bound=up_to_2_targets,_every_type_of_3_elements_and_4_shapes,_or_none
  Warm();
  int n = sx_shard(4);
  if (n == 3) {
    QTypePtr tuple = MakeTupleQType({});
    sx_assert(CommonQType(tuple, tuple, true) == tuple);
    sx_assert(CommonQType(tuple, GetQType<int32_t>(), true) == nullptr);
    sx_assert(CommonQType(GetQType<int32_t>(), tuple, true) == nullptr);
    QTypePtr one[] = {GetQType<int32_t>()};
    sx_assert(BroadcastQType(one, tuple) == nullptr);
    one[0] = tuple;
    sx_assert(BroadcastQType(one, GetQType<int32_t>()) == nullptr);
    sx_reach("tuples");
    return;
  }
  Type t = PickType("type", 3);
  std::vector<QTypePtr> targets;
  int shape = t.shape;
  bool none = t.scalar < 0;
  for (int i = 0; i < n; ++i) {
    Type g = PickType("target", 3);
    targets.push_back(Real(g));
    none |= g.scalar < 0;
    if (shape >= 0 && g.scalar >= 0) shape = JoinShape(shape, g.shape, true);
  }
  QTypePtr want = none || shape < 0 ? nullptr : Real({t.scalar, shape});
  sx_assert(BroadcastQType(targets, Real(t)) == want);
  sx_reach("broadcast");
}

namespace {

struct Overload {
  std::vector<QTypePtr> in;
  QTypePtr out;
};
bool Castable(const std::vector<QTypePtr>& from, const std::vector<QTypePtr>& to) {
  if (from.size() != to.size()) return false;
  for (size_t i = 0; i < from.size(); ++i) {
    if (!CanCastImplicitly(from[i], to[i], true)) return false;
  }
  return true;
}
constexpr int kNone = -1, kAmbiguous = -2;
// Which overload a call means: the one with exactly those types (up to derived
// types), else the one closest among those the arguments can be cast to.
int Resolve(const std::vector<Overload>& all, const std::vector<QTypePtr>& in, QTypePtr out) {
  std::vector<QTypePtr> plain;
  for (auto t : in) plain.push_back(DecayDerivedQType(t));
  std::vector<int> fit;
  for (int i = 0; i < (int)all.size(); ++i) {
    if (all[i].out != DecayDerivedQType(out)) continue;
    if (all[i].in == plain) return i;
    if (Castable(in, all[i].in)) fit.push_back(i);
  }
  int best = kNone;
  for (int i : fit) {
    bool closest = true;
    for (int k : fit) closest &= k == i || !Castable(all[k].in, all[i].in);
    if (!closest) continue;
    if (best != kNone) return kAmbiguous;
    best = i;
  }
  return best;
}
void CheckMatching(const std::vector<Overload>& all, const std::vector<QTypePtr>& in, QTypePtr out) {
  std::vector<const QExprOperatorSignature*> signatures;
  for (auto& o : all) signatures.push_back(QExprOperatorSignature::Get(o.in, o.out));
  int want = Resolve(all, in, out);
  auto got = FindMatchingSignature(in, out, signatures, "test.op");
  if (want >= 0) {
    sx_assert(got.ok());
    sx_assert(*got == signatures[want]);
    sx_reach("chosen");
  } else {
    sx_assert(!got.ok());
    sx_assert(got.status().code() ==
              (want == kNone ? absl::StatusCode::kNotFound : absl::StatusCode::kFailedPrecondition));
    if (want == kAmbiguous) sx_reach("ambiguous");
  }
}

}  // namespace

SX_ENTRY(matching_one) { // sx: shards=6 weight=2 bound=lists_of_up_to_3_overloads_of_1_argument_of_8_types_and_2_results,_every_call_with_10_types
  Warm();
  QTypePtr tuple = MakeTupleQType({GetQType<int32_t>()});
  auto named = MakeNamedTupleQType({"a"}, tuple);
  sx_assert(named.ok());
  QTypePtr pool[] = {GetQType<int64_t>(), GetQType<float>(), GetOptionalQType<int32_t>(), GetOptionalQType<double>(),
                     GetDenseArrayQType<int64_t>(), tuple, GetWeakFloatQType(), GetArrayQType<float>()};
  QTypePtr calls[] = {GetQType<int32_t>(), GetQType<int64_t>(), GetWeakFloatQType(), GetOptionalQType<int32_t>(), tuple,
                      *named, GetQType<double>(), GetDenseArrayQType<int32_t>(), GetOptionalWeakFloatQType(), GetQType<Text>()};
  QTypePtr outs[] = {GetQType<float>(), GetQType<double>()};
  int shard = sx_shard(6);
  int n = shard < 3 ? shard : 3;
  std::vector<Overload> all;
  int used[3];
  for (int i = 0; i < n; ++i) {
    used[i] = sx_pick("type", 0, 7);
    if (shard >= 3 && i == 0 && used[0] % 3 != shard - 3) sx_end();
    for (int k = 0; k < i; ++k) {
      if (used[k] == used[i]) sx_end();
    }
    all.push_back({{pool[used[i]]}, outs[i == 1 ? sx_pick("result", 0, 1) : 0]});
  }
  for (auto call : calls) {
    for (auto out : {outs[0], outs[1], GetWeakFloatQType()}) {
      CheckMatching(all, {call}, out);
    }
  }
  CheckMatching(all, {}, outs[0]);
  CheckMatching(all, {calls[0], calls[0]}, outs[0]);
}

SX_ENTRY(matching_two) { // sx: shards=9 weight=2 bound=lists_of_3_overloads_(4_in_thorough)_of_2_arguments_of_3_types,_every_call_with_4_types
  Warm();
  QTypePtr pool[] = {GetQType<int64_t>(), GetQType<float>(), GetOptionalQType<int32_t>()};
  QTypePtr calls[] = {GetQType<int32_t>(), GetQType<int64_t>(), GetWeakFloatQType(), GetOptionalQType<int32_t>()};
#ifdef SX_THOROUGH
  constexpr int kCount = 4;
#else
  constexpr int kCount = 3;
#endif
  std::vector<Overload> all;
  int used[kCount];
  for (int i = 0; i < kCount; ++i) {
    used[i] = i == 0 ? sx_shard(9) : sx_pick("types", 0, 8);
    for (int k = 0; k < i; ++k) {
      if (used[k] == used[i]) sx_end();
    }
    all.push_back({{pool[used[i] / 3], pool[used[i] % 3]}, GetQType<float>()});
  }
  for (auto a : calls) {
    for (auto b : calls) {
      CheckMatching(all, {a, b}, GetQType<float>());
    }
  }
}

namespace {

struct TestOp final : public QExprOperator {
  using QExprOperator::QExprOperator;
  absl::StatusOr<std::unique_ptr<BoundOperator>> DoBind(absl::Span<const TypedSlot>, TypedSlot) const final {
    return absl::UnimplementedError("bind");
  }
};
struct TestFamily final : public OperatorFamily {
  absl::StatusOr<OperatorPtr> DoGetOperator(absl::Span<const QTypePtr>, QTypePtr) const final {
    return absl::DataLossError("family");
  }
};
struct Registered {
  std::vector<Overload> overloads;
  std::vector<OperatorPtr> ops;
  std::vector<bool> low, high;
  bool family = false;
  bool combined = false;
};

}  // namespace

SX_ENTRY(registry) { // sx: shards=6 weight=2 bound=sequences_of_3_registrations_(4_in_thorough)_of_3_names,_3_signatures_and_every_priority,_every_call_after_each
  Warm();
#ifdef SX_THOROUGH
  constexpr int kCalls = 4;
#else
  constexpr int kCalls = 3;
#endif
  OperatorRegistry registry;
  const char* names[] = {"test.x", "test.y", "test.1"};
  QTypePtr i64 = GetQType<int64_t>(), f32 = GetQType<float>(), weak = GetWeakFloatQType();
  std::vector<QTypePtr> ins[] = {{i64}, {f32}};
  Registered model[2];
  int shard = sx_shard(6);
  for (int call = 0; call < kCalls; ++call) {
    int name = sx_pick("name", 0, 2);
    int kind = call == 0 ? shard / 2 : sx_pick("kind", 0, 3);
    if (call == 0 && name == 1) sx_end();  // as name 0
    Registered* m = name < 2 ? &model[name] : nullptr;
    if (kind == 0) {
      auto status = registry.RegisterOperatorFamily(names[name], std::make_unique<TestFamily>());
      if (m == nullptr) {
        sx_assert(status.code() == absl::StatusCode::kInvalidArgument);
      } else if (m->family || m->combined) {
        sx_assert(status.code() == absl::StatusCode::kAlreadyExists);
      } else {
        sx_assert(status.ok());
        m->family = true;
      }
    } else {
      // kinds 1 and 2 share their argument types, kinds 2 and 3 their result
      Overload o{ins[kind == 3], kind == 1 ? f32 : i64};
      uint64_t priority = sx<uint64_t>("priority");
      if (call == 0 && (priority % 2) != (uint64_t)(shard % 2)) sx_end();
      auto op = std::make_shared<TestOp>(QExprOperatorSignature::Get(o.in, o.out));
      auto status = registry.RegisterOperator(names[name], op, priority);
      if (m == nullptr) {
        sx_assert(status.code() == absl::StatusCode::kInvalidArgument);
      } else if (m->family) {
        sx_assert(status.code() == absl::StatusCode::kAlreadyExists);
      } else if (priority > 1) {
        sx_assert(status.code() == absl::StatusCode::kInvalidArgument);
        m->combined = true;
      } else {
        m->combined = true;
        int at = -1;
        for (int i = 0; i < (int)m->overloads.size(); ++i) {
          if (m->overloads[i].in == o.in) at = i;
        }
        if (at < 0) {
          sx_assert(status.ok());
          m->overloads.push_back(o);
          m->ops.push_back(op);
          m->low.push_back(priority == 0);
          m->high.push_back(priority == 1);
        } else if (priority == 0 ? m->low[at] : m->high[at]) {
          sx_assert(status.code() == absl::StatusCode::kAlreadyExists);
        } else {
          sx_assert(status.ok());
          if (priority == 1) {
            m->high[at] = true;
            m->overloads[at] = o;
            m->ops[at] = op;
          } else {
            m->low[at] = true;
          }
        }
      }
    }
  }
  for (int name = 0; name < 2; ++name) {
    const Registered& m = model[name];
    for (auto in : {i64, f32, weak}) {
      if (name == 1 && in == f32) continue;
      for (auto out : {f32, i64}) {
        auto got = registry.LookupOperator(names[name], {in}, out);
        if (m.family) {
          sx_assert(got.status().code() == absl::StatusCode::kDataLoss);
          continue;
        }
        int want = Resolve(m.overloads, {in}, out);
        if (want == kNone) {
          sx_assert(got.status().code() == absl::StatusCode::kNotFound);
        } else if (want == kAmbiguous) {
          sx_assert(got.status().code() == absl::StatusCode::kFailedPrecondition);
        } else {
          sx_assert(got.ok());
          sx_assert(*got == m.ops[want]);
          sx_reach("found");
        }
      }
    }
  }
  auto list = registry.ListRegisteredOperators();
  for (int name = 0; name < 2; ++name) {
    int found = 0;
    for (auto& s : list) found += s == names[name];
    if (model[name].family || !model[name].overloads.empty()) sx_assert(found == 1);
    if (!model[name].family && !model[name].combined) sx_assert(found == 0);
  }
  for (auto& s : list) sx_assert(s != names[2]);
}

SX_ENTRY(signatures) { // sx: bound=pairs_of_signatures_of_up_to_2_arguments_of_3_types
  QTypePtr tuple = MakeTupleQType({GetQType<int32_t>()});
  auto named = MakeNamedTupleQType({"a"}, tuple);
  QTypePtr pool[] = {GetQType<double>(), GetWeakFloatQType(), tuple, *named};
  Overload o[2];
  for (auto& x : o) {
    int n = sx_pick("args", 0, 2);
    for (int i = 0; i < n; ++i) x.in.push_back(pool[sx_pick("arg", 0, 3)]);
    x.out = pool[sx_pick("out", 0, 1)];
  }
  auto a = QExprOperatorSignature::Get(o[0].in, o[0].out);
  auto b = QExprOperatorSignature::Get(o[1].in, o[1].out);
  bool same = o[0].in == o[1].in && o[0].out == o[1].out;
  sx_assert((a == b) == same);
  sx_assert(std::vector<QTypePtr>(a->input_types().begin(), a->input_types().end()) == o[0].in);
  sx_assert(a->output_type() == o[0].out);
  sx_assert(QExprOperatorSignature::Get(a->input_types(), a->output_type()) == a);
  bool derived = o[0].in.size() == o[1].in.size();
  auto from = [](QTypePtr l, QTypePtr r) { return l == r || DecayDerivedQType(l) == r; };
  for (size_t i = 0; derived && i < o[0].in.size(); ++i) derived = from(o[0].in[i], o[1].in[i]);
  derived = derived && from(o[0].out, o[1].out);
  sx_assert(IsDerivedFrom(o[0].in, o[0].out, *b) == derived);
  sx_reach("signatures");
}

namespace {
int calls_made = 0;
template <typename T>
T TypedIn(const TypedValue& v) {
  auto r = v.As<T>();
  sx_assert(r.ok());
  return *r;
}
}  // namespace

// Operators made from functions: what they declare is what they take and give.
SX_ENTRY(functions) { // sx: shards=6 bound=6_functions,_every_value_of_their_arguments,_every_wrong_type_of_3_in_every_place
  int32_t x = sx<int8_t>("x");
  int64_t y = sx<int8_t>("y");
  int shard = sx_shard(6);
  bool fail = shard >= 2 && shard < 5 && sx<bool>("fail");
  absl::StatusOr<OperatorPtr> op;
  QTypePtr out = GetQType<int64_t>();
  calls_made = 0;
  switch (shard) {
    case 0: op = QExprOperatorFromFunction([](int32_t a, int64_t b) { ++calls_made; return a - b; }); break;
    case 1:
      op = QExprOperatorFromFunction([](EvaluationContext* ctx, const int32_t& a, int64_t b) {
        ++calls_made;
        sx_assert(ctx->status().ok());
        return a - b;
      });
      break;
    case 2:
      op = QExprOperatorFromFunction([fail](int32_t a, int64_t b) -> absl::StatusOr<int64_t> {
        ++calls_made;
        if (fail) return absl::AbortedError("no");
        return a - b;
      });
      break;
    case 3:
      op = QExprOperatorFromFunction([fail](EvaluationContext* ctx, int32_t a, int64_t b) {
        ++calls_made;
        if (fail) ctx->set_status(absl::AbortedError("no"));
        return a - b;
      });
      break;
    case 4:
      op = QExprOperatorFromFunction([fail](int32_t a, int64_t b) -> absl::StatusOr<std::tuple<int64_t, int32_t>> {
        ++calls_made;
        if (fail) return absl::AbortedError("no");
        return std::make_tuple(a - b, a);
      });
      out = MakeTupleQType({GetQType<int64_t>(), GetQType<int32_t>()});
      break;
    default:
      op = QExprOperatorFromFunction([](int32_t a, int64_t b) {
        ++calls_made;
        return OptionalValue<int64_t>(a < b, a - b);
      });
      out = GetOptionalQType<int64_t>();
  }
  sx_assert(op.ok());
  const QExprOperator& real = **op;
  sx_assert(real.signature() == QExprOperatorSignature::Get({GetQType<int32_t>(), GetQType<int64_t>()}, out));
  // called with the types it declares
  auto result = InvokeOperator(real, {TypedValue::FromValue(x), TypedValue::FromValue(y)});
  sx_assert(calls_made == 1);
  if (fail) {
    sx_assert(!result.ok());
    sx_assert(result.status() == absl::AbortedError("no"));
    sx_reach("failed");
  } else {
    sx_assert(result.ok());
    sx_assert(result->GetType() == out);
    if (shard == 4) {
      sx_assert(result->GetField(0).UnsafeAs<int64_t>() == x - y);
      sx_assert(result->GetField(1).UnsafeAs<int32_t>() == x);
    } else if (shard == 5) {
      auto v = TypedIn<OptionalValue<int64_t>>(*result);
      sx_assert(v.present == (x < y));
      if (v.present) sx_assert(v.value == x - y);
    } else {
      sx_assert(TypedIn<int64_t>(*result) == x - y);
    }
    sx_reach("called");
  }
  // called with anything else
  QTypePtr types[] = {GetQType<int32_t>(), GetQType<int64_t>(), GetQType<float>(), out};
  TypedValue values[] = {TypedValue::FromValue(x), TypedValue::FromValue(y), TypedValue::FromValue(1.0f)};
  int n = sx_pick("args", 0, 3);
  std::vector<TypedValue> args;
  std::vector<TypedSlot> slots;
  std::vector<int> picked;
  FrameLayout::Builder builder;
  for (int i = 0; i < n; ++i) {
    picked.push_back(sx_pick("arg", 0, 2));
    args.push_back(values[picked[i]]);
    slots.push_back(AddSlot(types[picked[i]], &builder));
  }
  bool good = n == 2 && picked[0] == 0 && picked[1] == 1;
  if (!good) {
    auto bad = InvokeOperator(real, args);
    sx_assert(calls_made == 1);
    sx_assert(bad.status().code() == absl::StatusCode::kFailedPrecondition);
  }
  int o = sx_pick("out", 0, 3);
  TypedSlot out_slot = AddSlot(types[o], &builder);
  auto bound = real.Bind(slots, out_slot);
  sx_assert(bound.ok() == (good && types[o] == out));
  if (!bound.ok()) sx_assert(bound.status().code() == absl::StatusCode::kFailedPrecondition);
  sx_reach("bound");
}

// Operators given a signature by hand: only one that fits the function.
SX_ENTRY(given_signature) { // sx: shards=3 bound=3_functions,_signatures_of_up_to_3_arguments_of_3_types_and_5_results
  int shard = sx_shard(3);
  QTypePtr i32 = GetQType<int32_t>(), i64 = GetQType<int64_t>();
  QTypePtr pair = MakeTupleQType({i64, i32});
  auto named = MakeNamedTupleQType({"a", "b"}, pair);
  sx_assert(named.ok());
  QTypePtr ins[] = {i32, i64, GetWeakFloatQType()};
  QTypePtr outs[] = {i64, pair, *named, i32, MakeTupleQType({i32, i64})};
  std::vector<QTypePtr> in;
  int n = sx_pick("args", 0, 3);
  for (int i = 0; i < n; ++i) in.push_back(ins[sx_pick("arg", 0, 2)]);
  QTypePtr out = outs[sx_pick("out", 0, 4)];
  auto signature = QExprOperatorSignature::Get(in, out);
  absl::StatusOr<OperatorPtr> op;
  bool good = false;
  switch (shard) {
    case 0:
      op = QExprOperatorFromFunction([](int32_t a, int64_t b) { return a - b; }, signature);
      good = n == 2 && in[0] == i32 && in[1] == i64 && out == i64;
      break;
    case 1:
      op = QExprOperatorFromFunction([](double a, EvaluationContext*) { return int64_t{1}; }, signature);
      good = false;
      break;
    default:
      op = QExprOperatorFromFunction(
          [](EvaluationContext*, double a, int32_t b) { return std::make_tuple(int64_t{5}, b); }, signature);
      good = n == 2 && in[0] == ins[2] && in[1] == i32 && out == pair;
  }
  sx_assert(op.ok() == good);
  if (good) {
    sx_assert((*op)->signature() == signature);
    sx_reach("fits");
  } else {
    sx_assert(op.status().code() == absl::StatusCode::kInvalidArgument);
  }
}

SX_ENTRY(variadic) { // sx: shards=4 bound=up_to_3_arguments,_every_value,_every_wrong_type_of_3
  int shard = sx_shard(4);
  std::unique_ptr<OperatorFamily> family;
  bool fail = false;
  if (shard == 0) {
    family = MakeVariadicInputOperatorFamily([](std::vector<int32_t> args) {
      int64_t r = 1;
      for (int32_t a : args) r = (r << 8) ^ a;
      return r;
    });
  } else if (shard == 1) {
    family = MakeVariadicInputOperatorFamily([](absl::Span<const int32_t* const> args) {
      int64_t r = 1;
      for (auto* a : args) r = (r << 8) ^ *a;
      return r;
    });
  } else {
    fail = shard == 3;
    family = MakeVariadicInputOperatorFamily([fail](std::vector<int32_t> args) -> absl::StatusOr<int64_t> {
      if (fail) return absl::AbortedError("no");
      int64_t r = 1;
      for (int32_t a : args) r = (r << 8) ^ a;
      return r;
    });
  }
  QTypePtr types[] = {GetQType<int32_t>(), GetQType<int64_t>(), GetOptionalQType<int32_t>()};
  int n = sx_pick("args", 0, 3);
  std::vector<QTypePtr> in;
  std::vector<TypedValue> args;
  bool good = true;
  int64_t want = 1;
  for (int i = 0; i < n; ++i) {
    int k = sx_pick("type", 0, 2);
    good &= k == 0;
    in.push_back(types[k]);
    int32_t v = sx<int8_t>("value");
    args.push_back(TypedValue::FromValue(v));
    want = (want << 8) ^ v;
  }
  QTypePtr out = types[sx_pick("out", 0, 1)];
  auto op = family->GetOperator(in, out);
  sx_assert(op.ok() == (good && out == types[1]));
  if (!op.ok()) {
    sx_assert(op.status().code() == (good ? absl::StatusCode::kNotFound : absl::StatusCode::kInvalidArgument));
    return;
  }
  sx_assert((*op)->signature() == QExprOperatorSignature::Get(in, out));
  auto result = InvokeOperator(**op, args);
  if (fail) {
    sx_assert(result.status() == absl::AbortedError("no"));
  } else {
    sx_assert(result.ok());
    sx_assert(TypedIn<int64_t>(*result) == want);
  }
  sx_reach("called");
}

namespace {
struct Sub {
  int64_t operator()(int32_t a, int64_t b, int32_t c) const {
    ++calls_made;
    return a - b + c * 256;
  }
};
struct OptSub {
  OptionalValue<int64_t> operator()(int32_t a, int64_t b, int32_t c) const {
    ++calls_made;
    return OptionalValue<int64_t>(a < c, a - b + c * 256);
  }
};
struct FailSub {
  absl::StatusOr<int64_t> operator()(int32_t a, int64_t b, int32_t c) const {
    ++calls_made;
    if (b < 0) return absl::AbortedError("no");
    return a - b + c * 256;
  }
};
}  // namespace

// Lifted to optionals: missing if an argument is, else what the operator says.
SX_ENTRY(lifted) { // sx: shards=3 bound=3_operators_of_3_arguments,_every_set_of_lifted_arguments_of_3,_every_value
  int32_t a = sx<int8_t>("a"), c = sx<int8_t>("c");
  int64_t b = sx<int8_t>("b");
  bool pa = sx<bool>("pa"), pb = sx<bool>("pb"), pc = sx<bool>("pc");
  OptionalValue<int32_t> oa(pa, a), oc(pc, c);
  OptionalValue<int64_t> ob(pb, b);
  calls_made = 0;
  int64_t value = a - b + c * 256;
  auto run = [&](auto op, auto finish) {
    using Op = decltype(op);
    auto check = [&](auto result, bool present) {
      sx_assert(calls_made == (present ? 1 : 0));
      finish(std::move(result), present);
      sx_reach("lifted");
    };
    switch (sx_pick("lift", 0, 3)) {
      case 0:
        check(OptionalLiftedOperator<Op, meta::type_list<int32_t, int64_t, int32_t>>()(oa, ob, oc), pa & pb & pc);
        break;
      case 1:
        check(OptionalLiftedOperator<Op, meta::type_list<DoNotLiftTag<int32_t>, int64_t, int32_t>>()(a, ob, oc), pb & pc);
        break;
      case 2:
        check(OptionalLiftedOperator<Op, meta::type_list<int32_t, DoNotLiftTag<int64_t>, int32_t>>()(oa, b, oc), pa & pc);
        break;
      default:
        check(OptionalLiftedOperator<Op, meta::type_list<DoNotLiftTag<int32_t>, int64_t, DoNotLiftTag<int32_t>>>()(a, ob, c), pb);
    }
  };
  switch (sx_shard(3)) {
    case 0:
      run(Sub(), [&](OptionalValue<int64_t> r, bool present) {
        sx_assert(r.present == present);
        if (present) sx_assert(r.value == value);
      });
      break;
    case 1:
      run(OptSub(), [&](OptionalValue<int64_t> r, bool present) {
        sx_assert(r.present == (present & (a < c)));
        if (r.present) sx_assert(r.value == value);
      });
      break;
    default:
      run(FailSub(), [&](absl::StatusOr<OptionalValue<int64_t>> r, bool present) {
        sx_assert(r.ok() == !(present & (b < 0)));
        if (!r.ok()) return;
        sx_assert(r->present == present);
        if (present) sx_assert(r->value == value);
      });
  }
}
