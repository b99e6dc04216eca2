// Typed slots, typed values, tuples, named tuples, slices and derived types.
// SX-SRCS: arolla/memory/frame.cc arolla/qtype/qtype.cc arolla/qtype/base_types.cc arolla/qtype/optional_qtype.cc arolla/qtype/derived_qtype.cc arolla/qtype/tuple_qtype.cc arolla/qtype/slice_qtype.cc arolla/qtype/named_field_qtype.cc arolla/qtype/typed_slot.cc arolla/qtype/typed_ref.cc arolla/qtype/typed_value.cc arolla/util/string.cc arolla/util/repr.cc arolla/util/fingerprint.cc arolla/util/text.cc arolla/util/bytes.cc arolla/util/unit.cc arolla/util/status.cc arolla/util/demangle.cc arolla/util/class_info.cc arolla/util/init_arolla.cc arolla/util/init_arolla_internal.cc arolla/memory/optional_value.cc arolla/memory/raw_buffer_factory.cc
// SX-FLAGS: -I$VERIF/harness/stub_sstream
#include <algorithm>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "sx.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/derived_qtype.h"
#include "arolla/qtype/named_field_qtype.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/simple_qtype.h"
#include "arolla/qtype/slice_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/repr.h"

namespace {
std::map<const void*, int> live;
}
namespace arolla {
struct alignas(16) Counted {
  int32_t v = 7;
  Counted() { Made(); }
  explicit Counted(int x) : v(x) { Made(); }
  Counted(const Counted& o) : v(o.v) {
    o.Alive();
    Made();
  }
  Counted& operator=(const Counted& o) {
    o.Alive();
    Alive();
    v = o.v;
    return *this;
  }
  ~Counted() {
    Alive();
    live.erase(this);
  }
  void Made() {
    bool fresh = live.emplace(this, 1).second;
    sx_assert(fresh);
    sx_assert((uintptr_t)this % 16 == 0);
  }
  void Alive() const { sx_assert(live.count(this)); }
};
struct Pair {  // a type with fields
  int32_t a = 0;
  OptionalValue<int64_t> b;
  constexpr static auto ArollaStructFields() {
    using CppType = Pair;
    return std::tuple{AROLLA_DECLARE_STRUCT_FIELD(a), AROLLA_DECLARE_STRUCT_FIELD(b)};
  }
  void ArollaFingerprint(FingerprintHasher* h) const { CombineStructFields(h, *this); }
};
AROLLA_DECLARE_FINGERPRINT_HASHER_TRAITS(Counted);
void FingerprintHasherTraits<Counted>::operator()(FingerprintHasher* h, const Counted& c) const { h->Combine(c.v); }
AROLLA_DECLARE_SIMPLE_QTYPE(COUNTED, Counted);
AROLLA_DEFINE_SIMPLE_QTYPE(COUNTED, Counted);
AROLLA_DECLARE_SIMPLE_QTYPE(PAIR, Pair);
AROLLA_DEFINE_SIMPLE_QTYPE(PAIR, Pair);
}  // namespace arolla
using namespace arolla;
namespace {
#ifdef SX_THOROUGH
constexpr int kDeep = 1;
#else
constexpr int kDeep = 0;
#endif
using OptI = OptionalValue<int64_t>;
// A value next to what it stands for.
struct V {
  QTypePtr type = nullptr;
  std::vector<uint64_t> words;  // every number in it, in order
  std::vector<V> parts;
  std::optional<TypedValue> value;
};
V Leaf(int kind) {
  V r;
  auto put = [&](auto v) { r.type = GetQType<std::decay_t<decltype(v)>>(), r.value = TypedValue::FromValue(v); };
  if (kind == 0) {
    int8_t x = sx<int8_t>("int");
    r.words = {(uint64_t)(int64_t)x};
    put((int32_t)x);
  } else if (kind == 1) {
    bool p = sx<bool>("present");
    int8_t x = sx<int8_t>("long");
    r.words = {p, p ? (uint64_t)(int64_t)x : 0};
    put(OptI{p, p ? x : 0});
  } else if (kind == 2) {
    int8_t x = sx<int8_t>("counted");
    r.words = {(uint64_t)(int64_t)x};
    put(Counted(x));
  } else if (kind == 3) {
    bool x = sx<bool>("bool");
    r.words = {x};
    put(x);
  } else {
    int8_t x = sx<int8_t>("a"), y = sx<int8_t>("b");
    Pair p;
    p.a = x;
    p.b = OptI(y);
    r.words = {(uint64_t)(int64_t)x, 1, (uint64_t)(int64_t)y};
    put(p);
  }
  return r;
}
TypedValue Tup(const std::vector<V>& parts, bool by_ref) {
  if (by_ref) {
    std::vector<TypedRef> refs;
    for (auto& p : parts) refs.push_back(p.value->AsRef());
    return MakeTuple(refs);
  }
  std::vector<TypedValue> values;
  for (auto& p : parts) values.push_back(*p.value);
  return MakeTuple(values);
}
V Any(int depth) {
  int kind = (int)sx_pick("kind", 0, depth > 0 ? 5 : 4);
  if (kind < 5) return Leaf(kind);
  V r;
  int n = (int)sx_pick("size", 0, 2);
  std::vector<QTypePtr> types;
  for (int i = 0; i < n; ++i) {
    r.parts.push_back(Any(depth - 1));
    for (auto w : r.parts.back().words) r.words.push_back(w);
    types.push_back(r.parts.back().type);
  }
  r.type = MakeTupleQType(types);
  r.value = Tup(r.parts, false);
  return r;
}
std::vector<uint64_t> Words(TypedRef r) {
  QTypePtr t = DecayDerivedQType(r.GetType());
  if (t == GetQType<int32_t>()) return {(uint64_t)(int64_t)*(const int32_t*)r.GetRawPointer()};
  if (t == GetQType<OptI>()) {
    auto& o = *(const OptI*)r.GetRawPointer();
    return {(uint64_t)o.present, (uint64_t)o.value};
  }
  if (t == GetQType<Counted>()) {
    auto& c = *(const Counted*)r.GetRawPointer();
    c.Alive();
    return {(uint64_t)(int64_t)c.v};
  }
  if (t == GetQType<bool>()) return {(uint64_t)*(const bool*)r.GetRawPointer()};
  std::vector<uint64_t> w;
  for (int64_t i = 0; i < r.GetFieldCount(); ++i)
    for (auto x : Words(r.GetField(i))) w.push_back(x);
  return w;
}
bool Equal(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  sx_assert(a.size() == b.size());
  bool eq = true;
  for (size_t i = 0; i < a.size(); ++i) eq &= a[i] == b[i];
  return eq;
}
void CheckValue(const V& v, const TypedValue& t) {
  sx_assert(t.GetType() == v.type);
  sx_assert(Equal(Words(t.AsRef()), v.words));
  if (IsTupleQType(v.type)) {
    sx_assert(t.GetFieldCount() == (int64_t)v.parts.size());
    for (size_t i = 0; i < v.parts.size(); ++i) {
      sx_assert(t.GetField(i).GetType() == v.parts[i].type);
      sx_assert(Equal(Words(t.GetField(i)), v.parts[i].words));
    }
  }
}
void Tuples(int first) {
  live.clear();
  {
    std::vector<V> parts;
    int n = first < 0 ? 0 : 1 + (int)sx_pick("more", 0, 1);
    std::vector<QTypePtr> types;
    for (int i = 0; i < n; ++i) {
      if (i == 0 && first < 5) parts.push_back(Leaf(first));
      else if (i == 0) {
        V inner;
        int m = (int)sx_pick("size", 0, 2);
        std::vector<QTypePtr> its;
        for (int k = 0; k < m; ++k) {
          inner.parts.push_back(Any(k == 0 ? kDeep : 0));
          for (auto w : inner.parts.back().words) inner.words.push_back(w);
          its.push_back(inner.parts.back().type);
        }
        inner.type = MakeTupleQType(its);
        inner.value = Tup(inner.parts, true);
        parts.push_back(inner);
      } else parts.push_back(Any(1));
      types.push_back(parts[i].type);
    }
    V t;
    t.parts = parts;
    for (auto& p : parts)
      for (auto w : p.words) t.words.push_back(w);
    t.type = MakeTupleQType(types);
    sx_assert(IsTupleQType(t.type));
    sx_assert(MakeTupleQType(types) == t.type);
    bool trivial = true;
    for (auto ty : types) trivial &= ty->is_trivially_copyable();
    sx_assert(t.type->is_trivially_copyable() == trivial);
    std::optional<TypedValue> a = Tup(parts, n % 2 == 0);
    CheckValue(t, *a);
    size_t after_one = live.size();
    TypedValue same = *a;  // shares
    sx_assert(live.size() == after_one);
    sx_assert(same.GetRawPointer() == a->GetRawPointer());
    TypedValue moved = std::move(*a);
    a.reset();
    sx_assert(live.size() == after_one);
    CheckValue(t, moved);
    // into a frame and back
    FrameLayout::Builder b;
    (void)b.AddSlot<char>();
    auto s1 = AddSlot(t.type, &b);
    auto s2 = AddSlot(t.type, &b);
    auto other = b.AddSlot<OptionalValue<float>>();
    FrameLayout l = std::move(b).Build();
    {
      MemoryAllocation m(&l);
      sx_assert(moved.CopyToSlot(s1, m.frame()).ok());
      sx_assert(!moved.CopyToSlot(TypedSlot::FromSlot(other), m.frame()).ok());
      CheckValue(t, TypedValue::FromSlot(s1, m.frame()));
      s1.CopyTo(m.frame(), s2, m.frame());
      sx_assert(s2.SubSlotCount() == n);
      for (int i = 0; i < n; ++i) {
        TypedSlot sub = s2.SubSlot(i);
        sx_assert(sub.GetType() == types[i]);
        sx_assert(Equal(Words(TypedRef::FromSlot(sub, m.frame())), parts[i].words));
      }
      s1.Reset(m.frame());
      CheckValue(t, TypedValue::FromSlot(s2, m.frame()));
      TypedValue fresh = TypedValue::UnsafeFromTypeDefaultConstructed(t.type);
      sx_assert(Equal(Words(TypedRef::FromSlot(s1, m.frame())), Words(fresh.AsRef())));
    }
    // wrong fields
    std::vector<TypedValue> wrong;
    for (auto& p : parts) wrong.push_back(*p.value);
    sx_assert(TypedValue::FromFields(t.type, wrong).ok());
    if (n > 0) {
      auto keep = wrong.back();
      wrong.pop_back();
      sx_assert(!TypedValue::FromFields(t.type, wrong).ok());
      wrong.push_back(TypedValue::FromValue<float>(1));
      sx_assert(!TypedValue::FromFields(t.type, wrong).ok());
      wrong.back() = keep;
      wrong.push_back(keep);
      sx_assert(!TypedValue::FromFields(t.type, wrong).ok());
    }
    same = same;
    TypedValue over = TypedValue::FromValue(Counted(3));
    over = same;
    CheckValue(t, over);
    over = TypedValue::FromValue(Counted(4));
    sx_assert(over.UnsafeAs<Counted>().v == 4);
  }
  const void* only = MakeEmptyTuple().GetRawPointer();
  (void)only;
  sx_assert(live.empty());
  sx_reach("done");
}
}  // namespace
SX_ENTRY(tuples) { // sx: shards=7 weight=2 bound=tuples_of_up_to_2_fields_of_5_types_or_nested_tuples_(to_depth_2,_3_in_thorough),_every_value
  Tuples((int)sx_shard(7) - 1);
}
SX_ENTRY(fingerprints) { // sx: shards=6 bound=pairs_of_values_of_5_types_and_tuples_of_up_to_2
  auto one = [](int k) {
    if (k < 5) return Leaf(k);
    V r;
    int n = (int)sx_pick("size", 0, 2);
    std::vector<QTypePtr> types;
    for (int i = 0; i < n; ++i) {
      r.parts.push_back(Leaf(i == 0 ? (int)sx_pick("leaf", 0, 2) : 0));
      for (auto w : r.parts.back().words) r.words.push_back(w);
      types.push_back(r.parts.back().type);
    }
    r.type = MakeTupleQType(types);
    r.value = Tup(r.parts, false);
    return r;
  };
  V a = one((int)sx_shard(6)), b = one((int)sx_pick("other", 0, 5));
  bool eq = a.type == b.type;
  if (eq) eq = Equal(a.words, b.words);
  sx_assert((a.value->GetFingerprint() == b.value->GetFingerprint()) == eq);
  TypedValue c(a.value->AsRef());  // a copy
  sx_assert(c.GetFingerprint() == a.value->GetFingerprint());
  sx_reach(eq ? "equal" : "different");
}
SX_ENTRY(typed) { // sx: bound=every_pair_of_5_types
  int k = (int)sx_pick("kind", 0, 4);
  V v = Leaf(k);
  const TypedValue& t = *v.value;
  auto try_as = [&](auto tag, int kind) {
    using T = decltype(tag);
    auto r = t.As<T>();
    sx_assert(r.ok() == (kind == k));
    if (r.ok()) sx_assert(Equal(Words(TypedRef::FromValue(*r)), v.words));
    auto r2 = t.AsRef().As<T>();
    sx_assert(r2.ok() == (kind == k));
    auto w = TypedValue::FromValueWithQType(T(), v.type);
    sx_assert(w.ok() == (kind == k));
    T x{};
    sx_assert(TypedRef::FromValueWithQType(x, v.type).ok() == (kind == k));
    FrameLayout::Builder b;
    auto s = AddSlot(v.type, &b);
    sx_assert(s.ToSlot<T>().ok() == (kind == k));
    auto s2 = AddSlot(v.type, &b);
    sx_assert((TypedSlot::ToSlots<T, T>({s, s2}).ok()) == (kind == k));
    sx_assert((!TypedSlot::ToSlots<T>({s, s2}).ok()) && (!TypedSlot::ToSlots<T, T, T>({s, s2}).ok()));
    if (kind == k) {
      auto both = *TypedSlot::ToSlots<T, T>({s, s2});
      sx_assert(std::get<0>(both).byte_offset() == s.byte_offset() && std::get<1>(both).byte_offset() == s2.byte_offset());
    }
    sx_assert(s != s2 && s == TypedSlot::UnsafeFromOffset(v.type, s.byte_offset()));
    auto one = ToTypedSlots(TypedSlot::UnsafeFromOffset(GetQType<T>(), 0).template UnsafeToSlot<T>());
    sx_assert(one.size() == 1 && one[0] == TypedSlot::UnsafeFromOffset(GetQType<T>(), 0));
  };
  try_as(int32_t(), 0);
  try_as(OptI(), 1);
  try_as(Counted(), 2);
  try_as(bool(), 3);
  try_as(Pair(), 4);
}
SX_ENTRY(named) { // sx: shards=4 bound=up_to_3_names_of_3,_tuples_of_up_to_3_fields
  int n = (int)sx_shard(4);
  std::vector<V> parts;
  std::vector<QTypePtr> types;
  std::vector<TypedValue> values;
  std::vector<TypedRef> refs;
  for (int i = 0; i < n; ++i) {
    parts.push_back(Leaf(i % 2));
    types.push_back(parts[i].type);
    values.push_back(*parts[i].value);
  }
  for (int i = 0; i < n; ++i) refs.push_back(values[i].AsRef());
  int m = (int)sx_pick("names", 0, 3);
  static const char* pool[] = {"a", "b", "ab", "c"};
  std::vector<std::string> names;
  std::set<std::string> set;
  for (int i = 0; i < m; ++i) {
    names.push_back(pool[sx_pick("name", 0, 2)]);
    set.insert(names.back());
  }
  QTypePtr tt = MakeTupleQType(types);
  bool good = n == m && (int)set.size() == m;
  auto q = MakeNamedTupleQType(names, tt);
  sx_assert(q.ok() == good);
  auto v1 = MakeNamedTuple(names, values);
  auto v2 = MakeNamedTuple(names, refs);
  sx_assert(v1.ok() == good && v2.ok() == good);
  sx_assert(!MakeNamedTupleQType(names, GetQType<int32_t>()).ok());
  sx_assert(!MakeNamedTupleQType(names, nullptr).ok());
  if (!good) return;
  sx_assert(v1->GetType() == *q && v2->GetType() == *q && *MakeNamedTupleQType(names, tt) == *q);
  sx_assert(IsNamedTupleQType(*q) && !IsTupleQType(*q) && !IsNamedTupleQType(tt) && !IsSliceQType(*q));
  sx_assert(DecayDerivedQType(*q) == tt);
  sx_assert(!MakeNamedTupleQType(names, *q).ok());
  auto listed = GetFieldNames(*q);
  sx_assert(listed.size() == names.size() && std::equal(listed.begin(), listed.end(), names.begin()));
  for (const char* s : pool) {
    auto idx = GetFieldIndexByName(*q, s);
    auto it = std::find(names.begin(), names.end(), s);
    sx_assert(idx.has_value() == (it != names.end()));
    if (idx) sx_assert(*idx == it - names.begin());
    auto ft = GetFieldQTypeByName(*q, s);
    sx_assert(ft == (idx ? types[*idx] : nullptr));
  }
  sx_assert(v1->GetFieldCount() == n);
  for (int i = 0; i < n; ++i) {
    sx_assert(v1->GetField(i).GetType() == types[i]);
    sx_assert(Equal(Words(v1->GetField(i)), parts[i].words) && Equal(Words(v2->GetField(i)), parts[i].words));
  }
  sx_assert(v1->GetFingerprint() == v2->GetFingerprint());
  TypedValue plain = DecayDerivedQValue(*v1);
  sx_assert(plain.GetType() == tt && Equal(Words(plain.AsRef()), Words(v1->AsRef())));
  sx_assert(plain.GetFingerprint() != v1->GetFingerprint());
  TypedValue again = UnsafeDowncastDerivedQValue(*q, plain);
  sx_assert(again.GetType() == *q && again.GetFingerprint() == v1->GetFingerprint());
  if (n >= 2) {
    auto other = names;
    std::swap(other[0], other[1]);
    sx_assert(*MakeNamedTupleQType(other, tt) != *q);
  }
  sx_reach("named");
}
SX_ENTRY(slices) { // sx: bound=every_triple_of_3_types
  QTypePtr pool[] = {GetQType<int32_t>(), GetQType<OptI>(), MakeTupleQType({})};
  int k[3];
  for (int i = 0; i < 3; ++i) k[i] = (int)sx_pick("type", 0, 2);
  QTypePtr q = MakeSliceQType(pool[k[0]], pool[k[1]], pool[k[2]]);
  sx_assert(IsSliceQType(q) && !IsTupleQType(q) && !IsNamedTupleQType(q));
  sx_assert(DecayDerivedQType(q) == MakeTupleQType({pool[k[0]], pool[k[1]], pool[k[2]]}));
  for (int i = 0; i < 27; ++i) {
    bool same = i == k[0] * 9 + k[1] * 3 + k[2];
    sx_assert((MakeSliceQType(pool[i / 9], pool[i / 3 % 3], pool[i % 3]) == q) == same);
    sx_assert((MakeTupleQType({pool[i / 9], pool[i / 3 % 3], pool[i % 3]}) == DecayDerivedQType(q)) == same);
  }
  for (int i = 0; i < 3; ++i) sx_assert(q->type_fields()[i].GetType() == pool[k[i]]);
}
SX_ENTRY(find_slots) { // sx: shards=4 bound=up_to_3_names,_each_absent_or_with_one_of_2_types,_on_either_side
  static const char* names[] = {"a", "b", "c"};
  QTypePtr pool[] = {GetQType<int32_t>(), GetQType<OptI>()};
  std::vector<std::pair<std::string, QTypePtr>> types;
  absl::flat_hash_map<std::string, QTypePtr> type_map;
  absl::flat_hash_map<std::string, TypedSlot> slots;
  FrameLayout::Builder b;
  bool missed = false, mismatch = false, unwanted = false;
  for (int i = 0; i < 3; ++i) {
    int want = (int)sx_pick("want", 0, 2), have = i == 0 ? (int)sx_shard(4) % 3 : (int)sx_pick("have", 0, 2);
    if (want) types.emplace_back(names[i], pool[want - 1]), type_map.emplace(names[i], pool[want - 1]);
    if (have) slots.emplace(names[i], AddSlot(pool[have - 1], &b));
    missed |= want && !have;
    unwanted |= have && !want;
    mismatch |= want && have && want != have;
  }
  if (sx_pick("order", 0, 1)) std::reverse(types.begin(), types.end());
  auto all = FindSlotsAndVerifyTypes(types, slots);
  sx_assert(all.ok() == (!missed && !mismatch));
  if (all.ok()) {
    sx_assert(all->size() == types.size());
    for (size_t i = 0; i < types.size(); ++i) sx_assert((*all)[i] == slots.at(types[i].first));
  }
  auto some = MaybeFindSlotsAndVerifyTypes(types, slots);
  sx_assert(some.ok() == !mismatch);
  if (some.ok()) {
    sx_assert(some->size() == types.size());
    for (size_t i = 0; i < types.size(); ++i) {
      sx_assert((*some)[i].has_value() == slots.contains(types[i].first));
      if ((*some)[i]) sx_assert(*(*some)[i] == slots.at(types[i].first));
    }
  }
  sx_assert(VerifySlotTypes(type_map, slots).ok() == !(missed || mismatch || unwanted));
  sx_assert(VerifySlotTypes(type_map, slots, false).ok() == !(missed || mismatch));
  sx_assert(VerifySlotTypes(type_map, slots, true, false).ok() == !(mismatch || unwanted));
  sx_assert(VerifySlotTypes(type_map, slots, false, false).ok() == !mismatch);
  auto back = SlotsToTypes(slots);
  sx_assert(back.size() == slots.size());
  for (auto& [n, s] : slots) sx_assert(back.at(n) == s.GetType());
  // adding what is wanted
  FrameLayout::Builder c;
  auto added = AddSlotsMap(type_map, &c);
  auto listed = AddNamedSlots(types, &c);
  sx_assert(SlotsToTypes(added).size() == type_map.size() && listed.size() == types.size());
  for (size_t i = 0; i < types.size(); ++i) {
    sx_assert(listed[i].first == types[i].first && listed[i].second.GetType() == types[i].second);
    sx_assert(added.at(types[i].first).GetType() == types[i].second);
  }
  FrameLayout l = std::move(c).Build();
  for (auto& [n, s] : listed) sx_assert(l.HasField(s.byte_offset(), s.GetType()->type_info()));
  FrameLayout::Builder d;
  (void)d.AddSlot<int64_t>();
  (void)d.AddSlot<int64_t>();
  std::vector<TypedSlot> list = {TypedSlot::UnsafeFromOffset(pool[1], 0), TypedSlot::UnsafeFromOffset(pool[0], 12)};
  sx_assert(RegisterUnsafeSlots(list, &d).ok());
  list = {TypedSlot::UnsafeFromOffset(pool[1], 4)};  // ends behind the frame
  sx_assert(!RegisterUnsafeSlots(list, &d).ok());
  sx_assert(!RegisterUnsafeSlotsMap({{"x", list[0]}}, &d).ok() && RegisterUnsafeSlotsMap({{"x", TypedSlot::UnsafeFromOffset(pool[0], 4)}}, &d).ok());
  sx_reach("done");
}
namespace {
// A derived type that says of itself what the harness chooses.
struct Claim final : public QType, public DerivedQTypeInterface {
  QTypePtr base;
  Claim(QTypePtr b, QTypePtr like, std::vector<TypedSlot> fields, QTypePtr value) : QType(ConstructorArgs{.name = "CLAIM", .type_info = like->type_info(), .type_layout = like->type_layout(), .type_fields = std::move(fields), .value_qtype = value}), base(b) {}
  QTypePtr GetBaseQType() const final { return base; }
  ReprToken UnsafeReprToken(const void*) const final { return ReprToken{"claim"}; }
  void UnsafeCopy(const void*, void*) const final {}
  void UnsafeCombineToFingerprintHasher(const void*, FingerprintHasher*) const final {}
};
}  // namespace
SX_ENTRY(derived) { // sx: bound=3_base_types,_every_claimed_layout_of_4_and_fields_of_6
  QTypePtr t1 = MakeTupleQType({GetQType<int32_t>(), GetQType<OptI>()});
  QTypePtr t2 = MakeTupleQType({GetQType<OptI>()});
  QTypePtr t3 = MakeTupleQType({GetQType<int64_t>(), GetQType<int64_t>(), GetQType<int64_t>()});
  QTypePtr bases[] = {t1, t2, nullptr, MakeSliceQType(t1, t1, t1)};
  QTypePtr base = bases[sx_pick("base", 0, 3)];
  QTypePtr likes[] = {t1, t2, t3, GetQType<int32_t>()};
  QTypePtr like = likes[sx_pick("like", 0, 3)];
  std::vector<std::vector<TypedSlot>> lists = {
      {},
      {t1->type_fields().begin(), t1->type_fields().end()},
      {t1->type_fields()[1], t1->type_fields()[0]},
      {t1->type_fields()[0]},
      {t2->type_fields().begin(), t2->type_fields().end()},
      {TypedSlot::UnsafeFromOffset(GetQType<OptI>(), 8)},
  };
  auto fields = lists[sx_pick("fields", 0, 5)];
  Claim c(base, like, fields, nullptr);
  bool good = base == t1 || base == t2;
  if (good) {
    good &= like->type_info() == base->type_info();
    good &= like->type_layout().AllocSize() == base->type_layout().AllocSize() && like->type_layout().AllocAlignment() == base->type_layout().AllocAlignment();
    good &= fields.empty() || (fields.size() == base->type_fields().size() && std::equal(fields.begin(), fields.end(), base->type_fields().begin()));
  }
  sx_assert(VerifyDerivedQType(&c).ok() == good);
  sx_assert(!VerifyDerivedQType(t1).ok());
  sx_assert(DecayDerivedQType(&c) == base && DecayDerivedQType(t1) == t1);
  if (good) sx_reach("accepted");
  if (!good) sx_reach("rejected");
}
