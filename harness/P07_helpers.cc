// Small generic building blocks: iterators, sorted keys, accessor packs, zero buffers,
// index dispatch, struct fields, container resizing.
// SX-SRCS: arolla/util/preallocated_buffers.cc arolla/util/demangle.cc
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

#include "sx.h"
#include "absl/container/flat_hash_map.h"
#include "arolla/io/accessor_helpers.h"
#include "arolla/util/is_bzero_constructible.h"
#include "arolla/util/iterator.h"
#include "arolla/util/map.h"
#include "arolla/util/memory.h"
#include "arolla/util/meta.h"
#include "arolla/util/preallocated_buffers.h"
#include "arolla/util/raw_span.h"
#include "arolla/util/struct_field.h"
#include "arolla/util/switch_index.h"
#include "arolla/util/traceme.h"
#include "arolla/util/types.h"

namespace {
struct Arr {
  using value_type = int;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  std::vector<int> v;
  const int& operator[](size_type i) const { return v[i]; }
  arolla::ConstArrayIterator<Arr> begin() const { return {this, 0}; }
  arolla::ConstArrayIterator<Arr> end() const { return {this, v.size()}; }
};
using It = arolla::ConstArrayIterator<Arr>;
static_assert(std::is_same_v<std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>);
}  // namespace

// Positions are symbolic: every law of a random access iterator, for all of them.
SX_ENTRY(iterator_laws) {
  int size = sx_pick("size", 0, 4);
  Arr a;
  for (int i = 0; i < size; ++i) a.v.push_back(sx<int>("x"));
  int64_t i = sx_range<int64_t>("i", 0, size), j = sx_range<int64_t>("j", 0, size), n = sx_range<int64_t>("n", -4, 4);
  It x(&a, i), y(&a, j);
  sx_assert((x == y) == (i == j)); sx_assert((x != y) == (i != j));
  sx_assert((x < y) == (i < j)); sx_assert((x <= y) == (i <= j));
  sx_assert((x > y) == (i > j)); sx_assert((x >= y) == (i >= j));
  sx_assert(x - y == i - j);
  sx_assert(a.begin() + i == x && a.end() - (size - i) == x);
  sx_assert(a.end() - a.begin() == size);
  if (i + n >= 0 && i + n <= size) {
    It t = x + n; sx_assert(t - a.begin() == i + n);
    It u = n + x; sx_assert(u == t);
    It w = x; It& wr = (w += n); sx_assert(&wr == &w && w == t);
    It& wr2 = (w -= n); sx_assert(&wr2 == &w && w == x);
    sx_assert(t - n == x);
    if (i + n < size) { sx_assert(*t == a.v[i + n]); sx_assert(x[n] == a.v[i + n]); sx_assert(&*t == &a.v[i + n] && t.operator->() == &a.v[i + n]); sx_reach("dereferenced"); }
  }
  if (i < size) {
    It p = x; It old = p++; sx_assert(old == x && p - x == 1);
    p = x; It& r = ++p; sx_assert(&r == &p && p - x == 1);
    old = p--; sx_assert(old - x == 1 && p == x);
    ++p; It& r2 = --p; sx_assert(&r2 == &p && p == x);
    sx_assert(&*x == &a.v[i]);
  }
}
SX_ENTRY(iterator_algorithms) {  // sx: bound=arrays_up_to_5
  int size = sx_pick("size", 0, 5);
  Arr a;
  for (int i = 0; i < size; ++i) a.v.push_back(sx<int>("x"));
  std::vector<int> fwd(a.begin(), a.end());
  sx_assert(fwd.size() == a.v.size());
  for (int i = 0; i < size; ++i) sx_assert(fwd[i] == a.v[i]);
  std::vector<int> rev;
  for (auto it = a.end(); it != a.begin();) rev.push_back(*--it);
  sx_assert(rev.size() == a.v.size());
  for (int i = 0; i < size; ++i) sx_assert(rev[i] == a.v[size - 1 - i]);
  int q = sx<int>("q");
  auto f = std::find(a.begin(), a.end(), q);
  auto g = std::find(a.v.begin(), a.v.end(), q);
  sx_assert(f - a.begin() == g - a.v.begin());
}

namespace {
template <class M>
void Keys() {
  int n = sx_pick("n", 0, 4);
  M m;
  std::vector<int> in;
  for (int i = 0; i < n; ++i) { int k = sx<int8_t>("k"); in.push_back(k); m[k] = i; }
  auto keys = arolla::SortedMapKeys(m);
  sx_assert(keys.size() == m.size());
  for (size_t i = 1; i < keys.size(); ++i) sx_assert(keys[i - 1] < keys[i]);
  for (int k : in) { bool found = false; for (int x : keys) found |= x == k; sx_assert(found); }
  for (int x : keys) { bool found = false; for (int k : in) found |= x == k; sx_assert(found); }
  if (keys.size() == 4) sx_reach("four distinct keys");
}
}  // namespace
SX_ENTRY(sorted_keys) { Keys<std::map<int, int>>(); }  // sx: bound=maps_up_to_4_keys
SX_ENTRY(sorted_keys_hash) { Keys<absl::flat_hash_map<int, int>>(); }  // sx: bound=maps_up_to_4_keys
SX_ENTRY(sorted_keys_string) {  // sx: bound=2_keys_of_up_to_2_bytes
  std::map<std::string, int, std::greater<>> m;
  std::string a, b;
  for (int i = sx_pick("la", 0, 2); i > 0; --i) a.push_back(sx<char>("a"));
  for (int i = sx_pick("lb", 0, 2); i > 0; --i) b.push_back(sx<char>("b"));
  m[a] = 1; m[b] = 2;
  auto keys = arolla::SortedMapKeys(m);
  if (a == b) { sx_assert(keys.size() == 1 && keys[0] == a); return; }
  sx_assert(keys.size() == 2 && keys[0] == std::min(a, b) && keys[1] == std::max(a, b));
}

SX_ENTRY(accessor_pack) {
  using arolla::accessor_helpers_impl::ConvertNameAccessorsPackToNestedTuple;
  int c0 = sx<int>("c0"), c1 = sx<int>("c1"), x = sx_range<int>("x", -1000, 1000);
  sx_assume((c0 > -1000) & (c0 < 1000) & (c1 > -1000) & (c1 < 1000));
  std::string name;
  for (int i = sx_pick("len", 0, 3); i > 0; --i) name.push_back(sx<char>("name"));
  auto t = ConvertNameAccessorsPackToNestedTuple(
      "first", [c0](int v) { return v + c0; }, name, [c1](int v, int w) { return (v ^ c1) + w; }, std::string("third"), &c0);
  static_assert(std::tuple_size_v<decltype(t)> == 3);
  static_assert(std::is_same_v<decltype(std::get<0>(t).first), std::string>);
  sx_assert(std::get<0>(t).first == "first" && std::get<1>(t).first == name && std::get<2>(t).first == "third");
  sx_assert(std::get<0>(t).second(x) == x + c0);
  sx_assert(std::get<1>(t).second(x, 7) == (x ^ c1) + 7);
  sx_assert(std::get<2>(t).second == &c0);
  auto e = ConvertNameAccessorsPackToNestedTuple();
  static_assert(std::tuple_size_v<decltype(e)> == 0);
  sx_reach("names and accessors paired in order");
}

SX_ENTRY(zero_buffer) {
  auto* p = static_cast<const unsigned char*>(arolla::GetZeroInitializedBuffer());
  sx_assert(reinterpret_cast<uintptr_t>(p) % arolla::kZeroInitializedBufferAlignment == 0);
  size_t i = sx_range<size_t>("i", 0, arolla::kZeroInitializedBufferSize / 8 - 1);
  uint64_t w;
  memcpy(&w, p + i * 8, 8);
  sx_assert(w == 0);
  sx_assert(p[arolla::kZeroInitializedBufferSize - 1] == 0);
  sx_assert(arolla::GetZeroInitializedBuffer() == p);
}

SX_ENTRY(switch_index) {
  int n = sx_range<int>("n", 0, 63);
  sx_assert(arolla::switch_index<64>(n, [](auto k) { return (int)k; }) == n);
  if (n < 32) sx_assert(arolla::switch_index<32>(n, [](auto k) { return (int)decltype(k)::value; }) == n);
  sx_reach("dispatched");
}

namespace {
struct Inner { int32_t a; double b; };
struct Outer {
  int8_t x; int64_t y; Inner in; bool z; float w;
  static auto ArollaStructFields() {
    using CppType = Outer;
    return std::tuple{AROLLA_DECLARE_STRUCT_FIELD(x), AROLLA_DECLARE_STRUCT_FIELD(y), AROLLA_DECLARE_STRUCT_FIELD(in), AROLLA_SKIP_STRUCT_FIELD(z), AROLLA_DECLARE_STRUCT_FIELD(w)};
  }
};
}  // namespace
SX_ENTRY(struct_fields) {
  Outer o{sx<int8_t>("x"), sx<int64_t>("y"), {sx<int32_t>("a"), sx<double>("b")}, sx<bool>("z"), sx<float>("w")};
  const auto& f = arolla::GetStructFields<Outer>();
  static_assert(arolla::StructFieldCount<Outer>() == 4 && arolla::HasStructFields<Outer>() && !arolla::HasStructFields<Inner>());
  sx_assert(arolla::UnsafeGetStructFieldPtr(std::get<0>(f), &o) == &o.x);
  sx_assert(arolla::UnsafeGetStructFieldPtr(std::get<1>(f), &o) == &o.y);
  sx_assert(*arolla::UnsafeGetStructFieldPtr(std::get<1>(f), &o) == o.y);
  sx_assert(arolla::UnsafeGetStructFieldPtr(std::get<2>(f), &o) == &o.in);
  sx_assert(arolla::UnsafeGetStructFieldPtr(std::get<3>(f), &o) == &o.w);
  sx_assert(std::get<3>(f).field_name == "w");
}

SX_ENTRY(aligned_memory) {  // sx: leak
  int lg = sx_pick("log2_alignment", 0, 7), k = sx_pick("units", 0, 5);
  size_t al = size_t{1} << lg;
  auto p = arolla::AlignedAlloc(std::align_val_t(al), al * k);
  sx_assert(arolla::IsAlignedPtr(al, p.get()));
  memset(p.get(), 0xff, al * k);
  uintptr_t a = sx<uint32_t>("addr");
  sx_assert(arolla::IsAlignedPtr(al, (void*)a) == (a % al == 0));
}

SX_ENTRY(raw_span) {
  int n = sx_pick("n", 0, 5);
  std::vector<int> v;
  for (int i = 0; i < n; ++i) v.push_back(sx<int>("v"));
  arolla::RawSpan<const int> s(absl::Span<const int>(v.data(), v.size()));
  sx_assert(s.size() == v.size() && s.empty() == v.empty() && s.end() - s.begin() == n && s.data() == v.data());
  int off = sx_pick("off", 0, n), len = sx_pick("len", 0, n - off);
  auto sub = s.subspan(off), sub2 = s.subspan(off, len);
  sx_assert((int)sub.size() == n - off && sub.begin() == v.data() + off);
  sx_assert((int)sub2.size() == len && sub2.begin() == v.data() + off);
  if (len) { sx_assert(sub2.front() == v[off] && sub2.back() == v[off + len - 1] && sub2[len - 1] == v[off + len - 1]); sx_reach("non-empty subspan"); }
  absl::Span<const int> back = sub2;
  sx_assert(back.data() == sub2.data() && back.size() == sub2.size());
}

SX_ENTRY(meta_lists) {
  using namespace arolla::meta;
  static_assert(std::is_same_v<head_t<type_list<int, char>>, int> && std::is_same_v<tail_t<type_list<int, char>>, type_list<char>>);
  static_assert(std::is_same_v<concat_t<type_list<int>, type_list<char, bool>>, type_list<int, char, bool>>);
  static_assert(contains_v<type_list<int, char>, char> && !contains_v<type_list<int, char>, bool> && !contains_v<type_list<>, int>);
  static_assert(is_wrapped_with_v<std::optional, std::optional<int>> && !is_wrapped_with_v<std::optional, int>);
  static_assert(std::is_same_v<arolla::signed_size_t, ptrdiff_t>);
  static_assert(arolla::is_bzero_constructible<int>::value && !arolla::is_bzero_constructible<std::string>::value);
  auto l = [](int a, double b) { return a > b; };
  static_assert(function_traits<decltype(l)>::arity == 2 && std::is_same_v<function_traits<decltype(l)>::return_type, bool>);
  int a = sx_range<int>("a", -100, 100), b = sx_range<int>("b", -100, 100), c = sx_range<int>("c", -100, 100);
  int acc = 0;
  foreach_tuple_element(std::make_tuple(a, b, c), [&](int x) { acc = acc * 4 + x; });
  sx_assert(acc == (a * 4 + b) * 4 + c);
  std::vector<size_t> sizes;
  foreach_type<type_list<char, int16_t, int64_t>>([&](auto t) { sizes.push_back(sizeof(typename decltype(t)::type)); });
  sx_assert(sizes.size() == 3 && sizes[0] == 1 && sizes[1] == 2 && sizes[2] == 8);
  foreach_tuple_element_type<std::tuple<int32_t, char>>([&](auto t) { sizes.push_back(sizeof(typename decltype(t)::type)); });
  sx_assert(sizes.size() == 5 && sizes[3] == 4 && sizes[4] == 1);
}
