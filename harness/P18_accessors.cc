// The accessors generated for protopaths: what they read and write against walking the message as the path language describes.
// SX-GEN: p18_gen.py
// SX-SRCS: arolla/util/preallocated_buffers.cc arolla/dense_array/edge.cc arolla/dense_array/qtype/types.cc arolla/codegen/io/multi_loader.cc arolla/memory/frame.cc arolla/qtype/qtype.cc arolla/qtype/base_types.cc arolla/qtype/optional_qtype.cc arolla/qtype/typed_slot.cc arolla/util/fingerprint.cc arolla/util/text.cc arolla/util/bytes.cc arolla/util/status.cc arolla/util/demangle.cc arolla/util/class_info.cc arolla/util/init_arolla.cc arolla/util/init_arolla_internal.cc arolla/memory/optional_value.cc arolla/dense_array/bitmap.cc arolla/dense_array/dense_array.cc arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc
// SX-FLAGS: -I$VERIF/harness/stub_protobuf
#include "p18_oracle.h"
#include "arolla/codegen/io/multi_loader.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/io/accessors_input_loader.h"
#include "arolla/io/proto_types/types.h"
#include "arolla/qtype/qtype.h"
#include "arolla/util/map.h"
#include "arolla/util/meta.h"
#include "absl/strings/str_format.h"

namespace {
#include "p18_accessors.inc"
using namespace p18;
using namespace arolla;

template <class T>
int64_t CodeOf(const T& v) {
  if constexpr (std::is_arithmetic_v<T>) return Code(v);
  else return Code(absl::string_view(v));
}
int64_t CodeOf(const Text& v) { return Code(v.view()); }
template <class T>
std::vector<Item> Items(const OptionalValue<T>& v) { return {{v.present, CodeOf(v.value)}}; }
template <class T>
std::vector<Item> Items(const DenseArray<T>& a) {
  sx_assert(a.CheckBitmapMatchesValues());
  std::vector<Item> r;
  for (int64_t i = 0; i < a.size(); ++i) r.push_back({a.present(i), CodeOf(a.values[i])});
  return r;
}
std::vector<Item> Items(const DenseArrayShape& s) { return {{true, s.size}}; }
std::vector<Item> Items(int v) { return {{true, v}}; }

void Compare(const std::vector<Item>& got, const std::vector<Item>& want) {
  sx_assert(got.size() == want.size());
  bool ok = true;
  for (size_t i = 0; i < got.size(); ++i) ok &= (got[i].present == want[i].present) & (!want[i].present | (got[i].value == want[i].value));
  sx_assert(ok);
  sx_reach("compared");
}
template <class L, class M>
auto Run(const L& lambda, const M& m) {
  using R = InputLoaderAccessorResultType<L, M>;
  R out{};
  if constexpr (requires { out.present; }) out.present = sx<bool>("stale presence");
  InvokeInputLoaderAccessor(lambda, m, GetHeapBufferFactory(), &out);
  return out;
}
template <class M>
constexpr auto CheckRead() {
  return [](const std::string& text, const auto& lambda) {
    Path p = Parse(text);
    M m = Filled<M>(p);
    std::vector<Item> want;
    ReadAll(m, p, 0, want);
    Compare(Items(Run(lambda, m)), want);
  };
}

template <class T>
void SetItem(T& v, int64_t code) {
  if constexpr (std::is_arithmetic_v<T>) v = (T)code;
  else v = T(code == 0 ? std::string() : std::string(code / 1000, (char)(code % 1000)));
}
template <class T>
int64_t AnyCode() {
  if constexpr (std::is_same_v<T, Bytes>) return sx_pick("str", 0, 1) ? 2000 + 'd' : 0;
  else if constexpr (sizeof(T) == 8) return sx<int64_t>("new");
  else return sx<int32_t>("new");
}
// `create`: how far the number of values may be from the number of places
template <class M>
constexpr auto CheckAssign() {
  return [](const std::string& text, const auto& factory) {
    Path p = Parse(text);
    auto assign = factory(std::type_identity<M>());
    using Arg = std::decay_t<std::tuple_element_t<0, typename meta::function_traits<decltype(assign)>::arg_types::tuple>>;
    M m = Filled<M>(p);
    M before = m;
    std::vector<Item> in;
    if constexpr (requires(Arg a) { a.present; }) {  // OptionalValue
      Arg v;
      v.present = sx<bool>("present");
      int64_t code;
      code = AnyCode<decltype(v.value)>();
      SetItem(v.value, code);
      in = {{v.present, code}};
      assign(v, &m);
      size_t pos = 0;
      Assign(before, p, 0, in, pos);
      sx_reach("assigned");
    } else {
      using T = typename Arg::base_type;
      std::vector<Item> places;
      ReadAll(m, p, 0, places);
      int64_t n = (int64_t)places.size() + sx_pick("delta", places.empty() ? 0 : -1, 1);
      DenseArrayBuilder<T> b(n);
      for (int64_t i = 0; i < n; ++i) {
        bool present = sx_pick("present", 0, 1);
        int64_t code = p.size ? sx_pick("new_size", 0, 2) : AnyCode<T>();
        in.push_back({present, code});
        if (!present) continue;
        T v;
        SetItem(v, code);
        b.Set(i, v);
      }
      absl::Status s = assign(std::move(b).Build(), &m);
      sx_assert(s.ok() == (n == (int64_t)places.size()));
      size_t pos = 0;
      if (s.ok()) {
        Assign(before, p, 0, in, pos);
        sx_assert(pos == in.size());
        sx_reach("array assigned");
      }
    }
    sx_assert(Equal(m, before));
  };
}
}  // namespace

SX_ENTRY(single) {  // sx: shards=6 bound=all_listed_paths_of_this_kind;_messages_with_up_to_2_elements_per_repeated_field
  int i = sx_pick("path", 0, (k_single - 1 - sx_shard(6)) / 6) * 6 + sx_shard(6);
  With_single(i, CheckRead<Msg>());
}
SX_ENTRY(single_as_text) {  // sx: bound=all_listed_paths_of_this_kind;_messages_with_up_to_2_elements_per_repeated_field
  With_single_text(sx_pick("path", 0, k_single_text - 1), CheckRead<Msg>()); }
SX_ENTRY(sizes) {  // sx: bound=all_listed_paths_of_this_kind;_messages_with_up_to_2_elements_per_repeated_field
  With_size(sx_pick("path", 0, k_size - 1), CheckRead<Msg>()); }
SX_ENTRY(multi) {  // sx: shards=7 bound=all_listed_paths_of_this_kind;_messages_with_up_to_2_elements_per_repeated_field
  int i = sx_pick("path", 0, (k_multi - 1 - sx_shard(7)) / 7) * 7 + sx_shard(7);
  With_multi(i, CheckRead<Msg>());
}
SX_ENTRY(defaulted) {  // sx: bound=all_listed_paths_of_this_kind;_messages_with_up_to_2_elements_per_repeated_field
 
  With_defaulted(sx_pick("path", 0, k_defaulted - 1), [](const std::string& text, const auto& lambda) {
    Path p = Parse(text);
    Msg m = Filled<Msg>(p);
    std::vector<Item> want;
    ReadAll(m, p, 0, want);
    if (!want[0].present) want[0] = {true, -7};
    want[0].present = true;
    Compare(Items(Run(lambda, m)), want);
  });
}
SX_ENTRY(wildcard) {  // sx: bound=all_listed_paths_of_this_kind;_messages_with_up_to_2_elements_per_repeated_field
 
  With_wild(sx_pick("path", 0, k_wild - 1), [](const std::string& text, const auto& lambda) {
    static const std::string kKeys[] = {"k", "l", "", "kk"};
    std::string key = kKeys[sx_pick("key", 0, 3)];
    Path p = Parse(text, key);
    Msg m = Filled<Msg>(p);
    std::vector<Item> want;
    ReadAll(m, p, 0, want);
    using L = decltype(lambda);
    if constexpr (std::is_invocable_v<L, const Msg&, absl::string_view, RawBufferFactory*>) {
      Compare(Items(lambda(m, key, GetHeapBufferFactory())), want);
    } else {
      std::decay_t<std::remove_pointer_t<std::tuple_element_t<2, typename meta::function_traits<std::decay_t<L>>::arg_types::tuple>>> out{};
      out.present = sx<bool>("stale presence");
      lambda(m, key, &out);
      Compare(Items(out), want);
    }
  });
}
SX_ENTRY(batch) {  // sx: bound=all_listed_paths_of_this_kind;_messages_with_up_to_2_elements_per_repeated_field
  With_batch(sx_pick("path", 0, k_batch - 1), CheckRead<pk::Batch>()); }
SX_ENTRY(assign_single) {  // sx: shards=6 bound=all_listed_paths_of_this_kind;_messages_with_up_to_2_elements_per_repeated_field
  int i = sx_pick("path", 0, (k_msingle - 1 - sx_shard(6)) / 6) * 6 + sx_shard(6);
  With_msingle(i, CheckAssign<Msg>());
}
SX_ENTRY(assign_multi) {  // sx: shards=7 bound=all_listed_paths_of_this_kind;_messages_with_up_to_2_elements_per_repeated_field
  int i = sx_pick("path", 0, (k_mmulti - 1 - sx_shard(7)) / 7) * 7 + sx_shard(7);
  With_mmulti(i, CheckAssign<Msg>());
}
SX_ENTRY(assign_batch) {  // sx: bound=all_listed_paths_of_this_kind;_messages_with_up_to_2_elements_per_repeated_field
  With_mbatch(sx_pick("path", 0, k_mbatch - 1), CheckAssign<pk::Batch>()); }
