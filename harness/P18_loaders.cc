// The generated input loaders and slot listeners: what they load and store against walking the message as the paths describe.
// SX-GEN: p18_loaders_gen.py
// SX-SRCS: arolla/codegen/qtype_utils.cc arolla/io/input_loader.cc arolla/io/slot_listener.cc arolla/io/wildcard_input_loader.cc arolla/util/string.cc arolla/util/preallocated_buffers.cc arolla/dense_array/edge.cc arolla/dense_array/qtype/types.cc arolla/codegen/io/multi_loader.cc arolla/memory/frame.cc arolla/qtype/qtype.cc arolla/qtype/base_types.cc arolla/qtype/optional_qtype.cc arolla/qtype/typed_slot.cc arolla/qtype/typed_ref.cc arolla/util/fingerprint.cc arolla/util/text.cc arolla/util/bytes.cc arolla/util/status.cc arolla/util/demangle.cc arolla/util/class_info.cc arolla/util/init_arolla.cc arolla/util/init_arolla_internal.cc arolla/memory/optional_value.cc arolla/dense_array/bitmap.cc arolla/dense_array/dense_array.cc arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc
// SX-FLAGS: -I$VERIF/harness/stub_protobuf
#include "p18_oracle.h"
#include "arolla/codegen/io/multi_loader.h"
#include "arolla/codegen/qtype_utils.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/io/accessors_input_loader.h"
#include "arolla/io/chain_slot_listener.h"
#include "arolla/io/input_loader.h"
#include "arolla/io/proto_types/types.h"
#include "arolla/io/slot_listener.h"
#include "arolla/io/wildcard_input_loader.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/util/map.h"
#include "arolla/util/meta.h"
#include "absl/strings/str_format.h"

struct Leaf {
  std::string name, path;
  std::optional<int> def;
};
#include "p18_loaders.inc"

namespace {
using namespace p18;
using namespace arolla;

template <class F>
void VisitType(QTypePtr t, F f) {
  if (t == GetQType<OptionalValue<int32_t>>()) f(OptionalValue<int32_t>());
  else if (t == GetQType<OptionalValue<int64_t>>()) f(OptionalValue<int64_t>());
  else if (t == GetQType<OptionalValue<Bytes>>()) f(OptionalValue<Bytes>());
  else if (t == GetQType<DenseArray<int32_t>>()) f(DenseArray<int32_t>());
  else if (t == GetQType<DenseArray<int64_t>>()) f(DenseArray<int64_t>());
  else if (t == GetQType<DenseArray<Bytes>>()) f(DenseArray<Bytes>());
  else if (t == GetQType<DenseArrayShape>()) f(DenseArrayShape());
  else if (t == GetQType<int32_t>()) f(int32_t());
  else sx_assert(false);
}
// The type the leaf of a path has to have.
QTypePtr TypeOf(const Path& p, bool has_default) {
  const std::string& f = p.segs.back().name;
  if (has_default) return GetQType<int32_t>();
  if (p.size) return p.multi() ? (QTypePtr)GetQType<DenseArray<int64_t>>() : GetQType<DenseArrayShape>();
  bool wide = f == "y" || f == "u", str = f == "str" || p.segs.back().kind == Seg::kAllKeys;
  if (p.multi()) return str ? (QTypePtr)GetQType<DenseArray<Bytes>>() : wide ? (QTypePtr)GetQType<DenseArray<int64_t>>() : GetQType<DenseArray<int32_t>>();
  return str ? (QTypePtr)GetQType<OptionalValue<Bytes>>() : wide ? (QTypePtr)GetQType<OptionalValue<int64_t>>() : GetQType<OptionalValue<int32_t>>();
}
template <class T>
int64_t CodeOf(const T& v) {
  if constexpr (std::is_arithmetic_v<T>) return Code(v);
  else return Code(absl::string_view(v));
}
template <class T>
std::vector<Item> Items(const OptionalValue<T>& v) { return {{v.present, CodeOf(v.value)}}; }
template <class T>
std::vector<Item> Items(const DenseArray<T>& a) {
  sx_assert(a.CheckBitmapMatchesValues());
  std::vector<Item> r;
  for (int64_t i = 0; i < a.size(); ++i) r.push_back({a.present(i), CodeOf(a.values[i])});
  return r;
}
std::vector<Item> Items(const DenseArrayShape& s) { return {{true, s.size}}; }
std::vector<Item> Items(int v) { return {{true, v}}; }
bool SameItems(const std::vector<Item>& got, const std::vector<Item>& want) {
  if (got.size() != want.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < got.size(); ++i) ok &= (got[i].present == want[i].present) & (!want[i].present | (got[i].value == want[i].value));
  return ok;
}
template <class T>
T Make(int64_t code) {
  if constexpr (std::is_arithmetic_v<T>) return (T)code;
  else return T(code == 0 ? std::string() : std::string(code / 1000, (char)(code % 1000)));
}
// What lies in the slots before loading.
template <class T>
void SetStale(OptionalValue<T>& v) { v = Make<T>(1000 + 'q'); }
template <class T>
void SetStale(DenseArray<T>& a) { a = CreateConstDenseArray<T>(3, Make<T>(1000 + 'q')); }
void SetStale(DenseArrayShape& s) { s.size = 57; }
void SetStale(int& v) { v = 1000 + 'q'; }

// Which of n leaves are asked for.
std::vector<bool> Subset(int n) {
  std::vector<bool> r(n, false);
  if (n <= 4) {
    int bits = sx_pick("subset", 0, (1 << n) - 1);
    for (int i = 0; i < n; ++i) r[i] = bits >> i & 1;
    return r;
  }
#ifdef SX_THOROUGH
  int i = sx_pick("first", 0, n), j = sx_pick("second", 0, n);  // n: none
  bool rest = i > j;
  r.assign(n, rest);
  if (i < n) r[i] = !rest;
  if (j < n) r[j] = !rest;
#else
  int i = sx_pick("one", 0, n);  // n: none
  bool rest = sx_pick("rest", 0, 1);
  r.assign(n, rest);
  if (i < n) r[i] = !rest;
  if (rest) g_max_size = 1;
#endif
  return r;
}

void CheckLoader(const InputLoader<Msg>& loader, const std::vector<Leaf>& leaves, const std::vector<bool>& asked) {
  FrameLayout::Builder lb;
  std::vector<TypedSlot> slots;
  absl::flat_hash_map<std::string, TypedSlot> requested;
  std::vector<Path> paths;
  Tails tails;
  for (auto& l : leaves) paths.push_back(Parse(l.path));
  for (size_t i = 0; i < leaves.size(); ++i) {
    QTypePtr t = loader.GetQTypeOf(leaves[i].name);
    sx_assert(t == TypeOf(paths[i], leaves[i].def.has_value()));
    slots.push_back(AddSlot(t, &lb));
    if (asked[i]) { requested.emplace(leaves[i].name, slots[i]); tails.push_back({&paths[i], 0}); }
  }
  FrameLayout layout = std::move(lb).Build();
  auto bound = loader.Bind(requested);
  sx_assert(bound.ok());
  Msg m;
  Fill(m, tails);
  MemoryAllocation alloc(&layout);
  for (auto& s : slots) VisitType(s.GetType(), [&](auto v) { SetStale(*alloc.frame().GetMutable(s.UnsafeToSlot<decltype(v)>())); });
#ifdef SX_THOROUGH
  int times = sx_pick("again", 1, 2);
#else
  int times = 1;
#endif
  for (int k = 0; k < times; ++k) sx_assert((*bound)(m, alloc.frame()).ok());
  bool ok = true;
  for (size_t i = 0; i < leaves.size(); ++i) {
    std::vector<Item> want;
    VisitType(slots[i].GetType(), [&](auto v) {
      if (asked[i]) {
        ReadAll(m, paths[i], 0, want);
        if (leaves[i].def.has_value()) {
          sx_concretize(want[0].present);
          want[0] = want[0].present ? Item{true, (int)want[0].value} : Item{true, *leaves[i].def};
        }
        sx_reach("loaded");
      } else {
        SetStale(v);
        want = Items(v);
        sx_reach("left alone");
      }
      ok &= SameItems(Items(alloc.frame().Get(slots[i].UnsafeToSlot<decltype(v)>())), want);
    });
  }
  sx_assert(ok);
}
void CheckNames(const InputLoader<Msg>& loader, const std::vector<Leaf>& leaves) {
  auto names = loader.SuggestAvailableNames();
  for (auto& l : leaves) {
    int n = 0;
    for (auto& x : names) n += x == l.name;
    sx_assert(n == 1);
  }
  sx_assert(loader.GetQTypeOf("nothing of the kind") == nullptr);
  FrameLayout::Builder lb;
  TypedSlot s = AddSlot(GetQType<OptionalValue<int32_t>>(), &lb);
  sx_assert(!loader.Bind({{"nothing of the kind", s}}).ok());
  // the type of the slot has to match
  for (auto& l : leaves) if (loader.GetQTypeOf(l.name) != s.GetType()) sx_assert(!loader.Bind({{l.name, s}}).ok());
}
void CheckLoaderOn(const InputLoader<Msg>& loader, const std::vector<Leaf>& leaves) {
  if (sx_pick("names", 0, 1)) return CheckNames(loader, leaves);
  std::vector<bool> asked = Subset(leaves.size());
  CheckLoader(loader, leaves, asked);
}
// Wildcards: any key that is asked for.
void CheckWild(const InputLoader<Msg>& loader, const std::vector<Leaf>& wild) {
  static const std::string kKeys[] = {"k", "l", "", "k/l"};
  int i = sx_pick("wildcard", 0, wild.size() - 1);
  std::string key = kKeys[sx_pick("key", 0, 3)];
  std::string name = wild[i].name;
  size_t at = name.find("%s");
  sx_assert(at != std::string::npos);
  name = name.substr(0, at) + key + name.substr(at + 2);
  Path p = Parse(wild[i].path, key);
  QTypePtr t = loader.GetQTypeOf(name);
  sx_assert(t == TypeOf(p, false));
  FrameLayout::Builder lb;
  TypedSlot slot = AddSlot(t, &lb);
  FrameLayout layout = std::move(lb).Build();
  auto bound = loader.Bind({{name, slot}});
  sx_assert(bound.ok());
  Msg m;
  Fill(m, {{&p, 0}});
  MemoryAllocation alloc(&layout);
  VisitType(t, [&](auto v) {
    SetStale(*alloc.frame().GetMutable(slot.UnsafeToSlot<decltype(v)>()));
    sx_assert((*bound)(m, alloc.frame()).ok());
    std::vector<Item> want;
    ReadAll(m, p, 0, want);
    sx_assert(SameItems(Items(alloc.frame().Get(slot.UnsafeToSlot<decltype(v)>())), want));
    sx_reach("wildcard loaded");
  });
}

// A value that is missing changes nothing that can be read.
bool SameContent(const Msg& a, const Msg& b, int depth = 4) {
  bool r = (a.has_x() == b.has_x()) & (a.x() == b.x()) & (a.y() == b.y()) & (a.has_u() == b.has_u()) & (a.u() == b.u()) & (a.has_str() == b.has_str()) & (a.raw.has_x() == b.raw.has_x()) &
           (a.raw.x() == b.raw.x()) & (a.raw.z == b.raw.z) & (a.rx().size() == b.rx().size()) & (a.ri().size() == b.ri().size()) & (a.str() == b.str());
  for (int i = 0; i < a.rx().size() && i < b.rx().size(); ++i) r &= a.rx(i) == b.rx(i);
  for (int i = 0; i < a.ri().size() && i < b.ri().size(); ++i) r &= SameContent(a.ri(i), b.ri(i), depth - 1);
  for (std::string k : {"k", "l"}) {
    r &= a.mx().count(k) == b.mx().count(k);
    if (a.mx().count(k) && b.mx().count(k)) r &= a.mx().at(k) == b.mx().at(k);
    if (a.mi().count(k) | b.mi().count(k)) r &= SameContent(a.mi().count(k) ? a.mi().at(k) : Msg::Default(), b.mi().count(k) ? b.mi().at(k) : Msg::Default(), depth - 1);
  }
  if (a.has_inner() | b.has_inner()) r &= SameContent(a.inner(), b.inner(), depth - 1);
  if (a.HasExtension(pk::emsg) | b.HasExtension(pk::emsg)) r &= SameContent(a.GetExtension(pk::emsg), b.GetExtension(pk::emsg), depth - 1);
  return r;
}
int Depth(const Path& p) {
  int d = 0;
  for (auto& s : p.segs) d += s.multi();
  return d;
}
// order: the sizes before what is inside them
void CheckListener(const SlotListener<Msg>& listener, const std::vector<Leaf>& leaves, const std::vector<bool>& asked) {
  FrameLayout::Builder lb;
  std::vector<TypedSlot> slots;
  absl::flat_hash_map<std::string, TypedSlot> requested;
  std::vector<Path> paths;
  Tails tails;
  for (auto& l : leaves) paths.push_back(Parse(l.path));
  for (size_t i = 0; i < leaves.size(); ++i) {
    const QType* t = listener.GetQTypeOf(leaves[i].name);
    sx_assert(t == TypeOf(paths[i], false));
    slots.push_back(AddSlot(t, &lb));
    if (asked[i]) { requested.emplace(leaves[i].name, slots[i]); tails.push_back({&paths[i], 0}); }
  }
  FrameLayout layout = std::move(lb).Build();
  auto bound = listener.Bind(requested);
  sx_assert(bound.ok());
  Msg m;
  Fill(m, tails);
  Msg want = m;
  MemoryAllocation alloc(&layout);
  bool fits = true;
  for (int pass = 0; pass < 2; ++pass)  // sizes first, and the outer ones before the inner ones
    for (int d = 0; d <= 3; ++d)
      for (size_t i = 0; i < leaves.size(); ++i) {
        if (!asked[i] || !fits || Depth(paths[i]) != d || paths[i].size != (pass == 0)) continue;
        VisitType(slots[i].GetType(), [&](auto v) {
          using V = decltype(v);
          std::vector<Item> in;
          if constexpr (std::is_same_v<V, DenseArrayShape>) {
            v.size = sx_pick("count", 0, 2);
            in = Items(v);
          } else if constexpr (requires { v.present; }) {
            v.present = sx<bool>("present");
            if constexpr (std::is_same_v<V, OptionalValue<Bytes>>) v.value = Make<Bytes>(2000 + 'd');
            else v.value = sx<int>("new");
            in = Items(v);
          } else if constexpr (requires { typename V::base_type; }) {
            using T = typename V::base_type;
            std::vector<Item> places;
            ReadAll(want, paths[i], 0, places);
            int64_t n = (int64_t)places.size() + sx_pick("delta", 0, 1);
            DenseArrayBuilder<T> b(n);
            for (int64_t k = 0; k < n; ++k) {
              bool present = sx_pick("present", 0, 1);
              int64_t code = paths[i].size ? sx_pick("new_size", 0, 1) : sx<int>("new");
              in.push_back({present, code});
              if (present) b.Set(k, Make<T>(code));
            }
            v = std::move(b).Build();
            fits = n == (int64_t)places.size();
          }
          if (fits) { size_t pos = 0; Assign(want, paths[i], 0, in, pos); }
          alloc.frame().Set(slots[i].UnsafeToSlot<V>(), v);
        });
      }
  absl::Status s = (*bound)(alloc.frame(), &m);
  sx_assert(s.ok() == fits);
  if (!fits) { sx_reach("does not fit"); return; }
  sx_assert(SameContent(m, want));
  sx_reach("stored");
}
void CheckListenerOn(const SlotListener<Msg>& l, const std::vector<Leaf>& leaves) {
  g_max_size = 1;
  std::vector<bool> asked = Subset(leaves.size());
#ifndef SX_THOROUGH
  int n = 0;
  for (bool b : asked) n += b;
  if (n > 4) { g_uniform = sx_pick("everything there", 0, 1); g_concrete_presence = true; }
#endif
  CheckListener(l, leaves, asked);
}
}  // namespace

SX_ENTRY(single) { // sx: bound=one_loader;_every_message_with_up_to_2_elements_per_repeated_field_(1_if_several_names_are_requested);_each_name_alone_or_left_out
  CheckLoaderOn(*gen::GetSingleLoader(), kSingleLeaves); }
SX_ENTRY(single2) { // sx: bound=one_loader;_every_message_with_up_to_2_elements_per_repeated_field_(1_if_several_names_are_requested);_each_name_alone_or_left_out
  CheckLoaderOn(*gen::GetSingle2Loader(), kSingle2Leaves); }
SX_ENTRY(defaults) { // sx: bound=one_loader;_every_message_with_up_to_2_elements_per_repeated_field_(1_if_several_names_are_requested);_each_name_alone_or_left_out
  CheckLoaderOn(*gen::GetDefaultsLoader(), kDefaultsLeaves); }
SX_ENTRY(multi) { // sx: bound=one_loader;_every_message_with_up_to_2_elements_per_repeated_field_(1_if_several_names_are_requested);_each_name_alone_or_left_out
  CheckLoaderOn(*gen::GetMultiLoader(), kMultiLeaves); }
SX_ENTRY(multi2) { // sx: bound=one_loader;_every_message_with_up_to_2_elements_per_repeated_field_(1_if_several_names_are_requested);_each_name_alone_or_left_out
  CheckLoaderOn(*gen::GetMulti2Loader(), kMulti2Leaves); }
SX_ENTRY(multi3) { // sx: bound=one_loader;_every_message_with_up_to_2_elements_per_repeated_field_(1_if_several_names_are_requested);_each_name_alone_or_left_out
  CheckLoaderOn(*gen::GetMulti3Loader(), kMulti3Leaves); }
SX_ENTRY(mixed) { // sx: bound=one_loader;_every_message_with_up_to_2_elements_per_repeated_field_(1_if_several_names_are_requested);_each_name_alone_or_left_out
  CheckLoaderOn(*gen::GetMixedLoader(), kMixedLeaves); }
SX_ENTRY(sharded) { // sx: bound=one_loader;_every_message_with_up_to_2_elements_per_repeated_field_(1_if_several_names_are_requested);_each_name_alone_or_left_out
  CheckLoaderOn(*gen::GetShardedLoader(), kShardedLeaves); }
SX_ENTRY(one_shard) { // sx: bound=one_loader;_every_message_with_up_to_2_elements_per_repeated_field_(1_if_several_names_are_requested);_each_name_alone_or_left_out
  CheckLoaderOn(*gen::GetOneShardLoader(), kOneShardLeaves); }
SX_ENTRY(wildcards) { // sx: bound=every_wildcard_with_4_keys
  CheckWild(*gen::GetShardedLoader(), kShardedWildLeaves); }
SX_ENTRY(one_wildcard) { // sx: bound=every_wildcard_with_4_keys
  CheckWild(*gen::GetOneShardLoader(), kOneShardWildLeaves); }
SX_ENTRY(only_wildcards) { // sx: bound=every_wildcard_with_4_keys
  CheckWild(*gen::GetEmptyLoader(), kEmptyWildLeaves); }
SX_ENTRY(shards) { // sx: bound=three_loaders
 
  int which = sx_pick("loader", 0, 2);
  auto shards = which == 0 ? gen::GetShardedLoader_Shards() : which == 1 ? gen::GetOneShardLoader_Shards() : gen::GetEmptyLoader_Shards();
  sx_assert(shards.size() == (which == 0 ? 3 : 1));
  // every leaf is served by exactly one shard
  for (auto& l : which == 0 ? kShardedLeaves : which == 1 ? kOneShardLeaves : kEmptyLeaves) {
    int n = 0;
    for (auto& s : shards) n += s->GetQTypeOf(l.name) != nullptr;
    sx_assert(n == 1);
    sx_reach("in one shard");
  }
}
SX_ENTRY(listen_single) { // sx: bound=one_listener;_messages_with_up_to_1_element_per_repeated_field;_every_subset_of_up_to_4_names_or_each_alone_or_left_out
  CheckListenerOn(*gen::GetSingleListener(), kSingleOutLeaves); }
SX_ENTRY(listen_single2) { // sx: bound=one_listener;_messages_with_up_to_1_element_per_repeated_field;_every_subset_of_up_to_4_names_or_each_alone_or_left_out
  CheckListenerOn(*gen::GetSingle2Listener(), kSingle2OutLeaves); }
SX_ENTRY(listen_sizes) { // sx: bound=one_listener;_messages_with_up_to_1_element_per_repeated_field;_every_subset_of_up_to_4_names_or_each_alone_or_left_out
  CheckListenerOn(*gen::GetSizesListener(), kSizesOutLeaves); }
SX_ENTRY(listen_multi) { // sx: bound=one_listener;_messages_with_up_to_1_element_per_repeated_field;_every_subset_of_up_to_4_names_or_each_alone_or_left_out
  CheckListenerOn(*gen::GetMultiListener(), kMultiOutLeaves); }
SX_ENTRY(listen_resize) { // sx: bound=one_listener;_messages_with_up_to_1_element_per_repeated_field;_every_subset_of_up_to_4_names_or_each_alone_or_left_out
  CheckListenerOn(*gen::GetResizeListener(), kResizeOutLeaves); }
SX_ENTRY(listen_sharded) { // sx: bound=one_listener;_messages_with_up_to_1_element_per_repeated_field;_every_subset_of_up_to_4_names_or_each_alone_or_left_out
  CheckListenerOn(*gen::GetShardedListener(), kShardedOutLeaves); }
