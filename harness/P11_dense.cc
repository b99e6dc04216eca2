// Presence bitmaps and dense arrays (dense_array/bitmap.h/.cc, dense_array/dense_array.h).
// SX-SRCS: arolla/dense_array/bitmap.cc arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc arolla/util/preallocated_buffers.cc
// SX-FLAGS: -I$VERIF/harness/stub_protobuf
#include <algorithm>
#include <cstring>
#include <optional>
#include <string>
#include <vector>

#include "sx.h"
#include "arolla/dense_array/bitmap.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/memory/buffer.h"

#ifdef SX_THOROUGH
constexpr bool kThorough = true;
#else
constexpr bool kThorough = false;
#endif
namespace {
using namespace arolla;
using bitmap::Word;
// lengths around word boundaries
const int kLen[] = {0, 1, 2, 31, 32, 33, 63, 64, 65};
int Len(const char* n, int max = 8) { return kLen[sx_pick(n, 0, max)]; }
bool bit(const std::vector<Word>& w, int64_t i) { return (w[i >> 5] >> (i & 31)) & 1; }
std::vector<Word> Words(int n) { std::vector<Word> w(n); for (auto& x : w) x = sx<Word>("w"); return w; }
// number of ones in [from, to)
int64_t Ones(const std::vector<Word>& w, int64_t from, int64_t to) {
  int64_t r = 0;
  for (int64_t k = 0; k < (int64_t)w.size(); ++k) {
    Word mask = 0;
    for (int64_t i = std::max<int64_t>(from, 32 * k); i < std::min<int64_t>(to, 32 * k + 32); ++i) mask |= Word{1} << (i & 31);
    r += __builtin_popcount(w[k] & mask);
  }
  return r;
}
bitmap::Bitmap Bm(const std::vector<Word>& w) { return bitmap::Bitmap::Create(w.begin(), w.end()); }
}  // namespace

SX_ENTRY(bits_get_set) {
  auto w = Words(3);
  auto b = Bm(w);
  int64_t i = sx_pick("i", 0, 4);
  int off = sx_range<int>("off", 0, 31);
  sx_assert(bitmap::GetWord(b, i) == (i < 3 ? w[i < 3 ? i : 0] : ~Word(0)));
  Word g = bitmap::GetWordWithOffset(b, i, off);
  int k = sx_range<int>("k", 0, 31);
  if (i >= 3) sx_assert(g == ~Word(0));
  else if (i * 32 + off + k < 96) sx_assert(((g >> k) & 1) == bit(w, i * 32 + off + k));
  int64_t at = sx_range<int64_t>("at", 0, 95), other = sx_range<int64_t>("other", 0, 95);
  sx_assert(bitmap::GetBit(b, at) == bit(w, at));
  sx_assert(bitmap::GetBit(w.data(), at) == bit(w, at));
  sx_assert(bitmap::GetBit(w[0], k) == bool((w[0] >> k) & 1));
  sx_assert(bitmap::GetBit(bitmap::Bitmap(), at));
  auto s = w, u = w;
  bitmap::SetBit(s.data(), at); bitmap::UnsetBit(u.data(), at);
  sx_assert(bit(s, at) & !bit(u, at));
  sx_assert((other == at) | ((bit(s, other) == bit(w, other)) & (bit(u, other) == bit(w, other))));
  int64_t n = sx_range<int64_t>("n", 0, 1000);
  int64_t z = bitmap::BitmapSize(n);
  sx_assert(z * 32 >= n && (z - 1) * 32 < n);
}
SX_ENTRY(bits_all) {  // sx: bound=up_to_65_bits
  int n = Len("n");
  auto w = Words((n + 31) / 32);
  bool all = true, none = true;
  for (int i = 0; i < n; ++i) { bool b = bit(w, i); all &= b; none &= !b; }
  sx_assert(bitmap::AreAllBitsSet(w.data(), n) == all);
  sx_assert(bitmap::AreAllBitsUnset(w.data(), n) == none);
}
SX_ENTRY(bits_count) {  // sx: shards=2 bound=up_to_3_words
  int nw = sx_pick("words", 0, 3);
  auto w = Words(nw);
  auto b = Bm(w);
  int offs[] = {0, 1, 31, 32, 40};
  int off = offs[sx_pick("off", 0, 4)];
  int size = sx_shard(2) ? Len("size", 8) : sx_pick("size", 3, 30);
  int64_t r = bitmap::CountBits(b, off, size);
  // beyond the bitmap everything is present
  int64_t m = Ones(w, off, off + size) + std::max(0, off + size - std::max(off, 32 * nw));
  sx_assert(r == m);
}
SX_ENTRY(bits_intersect) {  // sx: bound=up_to_3_words,_all_offsets
  int oa = sx_pick("oa", 0, 31), ob = 0;
  const int diff[] = {0, 1, 15, 31};
  ob = kThorough ? sx_pick("ob", 0, 31) : diff[sx_pick("ob", 0, 3)];
  int n = kLen[1 + sx_pick("n", 0, 7)];
  auto wa = Words((n + oa + 31) / 32), wb = Words((n + ob + 31) / 32);
  size_t nr = std::min(wa.size(), wb.size());
  std::vector<Word> r(nr);
  bitmap::Intersect(Bm(wa), Bm(wb), oa, ob, absl::Span<Word>(r.data(), nr));
  int ro = std::min(oa, ob);
  sx_assert(nr * 32 >= (size_t)(n + ro));
  bool ok = true;
  for (int i = 0; i < n; ++i) ok &= bit(r, ro + i) == (bit(wa, oa + i) & bit(wb, ob + i));
  sx_assert(ok);
  if (wa.size() == wb.size()) {
    bitmap::Intersect(Bm(wa), Bm(wb), absl::Span<Word>(r.data(), nr));
    for (size_t i = 0; i < nr; ++i) sx_assert(r[i] == (wa[i] & wb[i]));
  }
}
SX_ENTRY(bits_iterate) {  // sx: bound=up_to_65_bits_from_every_offset_to_33
  int first = kThorough ? sx_pick("first", 0, 70) : sx_pick("first", 0, 33), n = Len("n");
  auto w = Words((first + n + 31) / 32 + 1);
  std::vector<int> got;
  std::vector<int64_t> groups;
  std::vector<bool> dummy;
  bool ok = true;
  bitmap::IterateByGroups(w.data(), first, n, [&](int64_t offset) {
    sx_assert(groups.empty() ? offset == 0 : offset > groups.back() && offset <= groups.back() + 32);
    sx_assert((int64_t)got.size() == offset);
    groups.push_back(offset);
    return [&, offset](int i, bool v) {
      sx_assert(i >= 0 && i < 32 && offset + i == (int64_t)got.size());
      ok &= v == bit(w, first + (int)got.size());
      got.push_back(1);
    };
  });
  sx_assert((int)got.size() == n);
  int c = 0;
  bitmap::Iterate(Bm(w), first, n, [&](bool v) { ok &= v == bit(w, first + c); ++c; });
  sx_assert(c == n);
  bitmap::Iterate(bitmap::Bitmap(), first, n, [&](bool v) { ok &= v; ++c; });
  sx_assert(c == 2 * n);
  c = 0;
  bitmap::IterateWord(w[0], [&](int i, bool v) { ok &= (i == c) & (v == bit(w, c)); ++c; }, std::min(n, 32));
  sx_assert(c == std::min(n, 32));
  sx_assert(ok);
}
SX_ENTRY(bits_create_empty) {
  int64_t limit = kZeroInitializedBufferSize * 8;
  int64_t ns[] = {0, 1, 32, 33, limit - 1, limit, limit + 1, limit + 33};
  int64_t n = ns[sx_pick("n", 0, 7)];
  auto b = bitmap::CreateEmptyBitmap(n);
  sx_assert(b.size() == bitmap::BitmapSize(n));
  Word acc = 0;
  for (Word x : b) acc |= x;
  sx_assert(acc == 0);
}
// AlmostFullBuilder: present except what was marked missing, unused high bits clear, empty bitmap if nothing was.
SX_ENTRY(bits_almost_full) {  // sx: leak bound=3_missing_of_up_to_65
  int n = kLen[1 + sx_pick("n", 0, 7)], k = sx_pick("k", 0, 3);
  int64_t id[3];
  bitmap::AlmostFullBuilder b(n);
  for (int i = 0; i < k; ++i) { id[i] = sx_range<int64_t>("id", 0, n - 1); b.AddMissed(id[i]); }
  bool sized = sx_pick("sized", 0, 1);
  int z = sized ? sx_pick("z", 0, 2) : 2;
  int size = z == 0 ? 0 : z == 1 ? n / 2 : n;
  auto r = sized ? std::move(b).Build(size) : std::move(b).Build();
  if (!k) { sx_assert(r.empty()); return; }
  sx_assert(r.size() == bitmap::BitmapSize(size));
  std::vector<Word> w(r.begin(), r.end());
  bool ok = true;
  for (int i = 0; i < (int)w.size() * 32; ++i) {
    bool missing = i >= n;
    for (int j = 0; j < k; ++j) missing |= id[j] == i;
    ok &= bit(w, i) == !missing;
  }
  sx_assert(ok);
}
SX_ENTRY(bits_builder) {  // sx: shards=4 bound=2_chunks_(3_in_thorough)_of_up_to_65_bits,_2_unknown_bits_per_chunk
  int chunk[3], total = 0, steps = sx_pick("steps", 1, kThorough ? 3 : 2);
  int lens[] = {0, 1, 5, 31, 32, 33, 64, 65};
  for (int i = 0; i < steps; ++i) {
    chunk[i] = i == 0 ? lens[2 * sx_shard(4) + sx_pick("c0", 0, 1)] : lens[sx_pick("c", 0, kThorough || i == 1 ? 7 : 3)];
    total += chunk[i];
  }
  int slack = sx_pick("slack", 0, 1);
  std::vector<bool> bits;
  bitmap::Builder b(total + slack * 40);
  int background = sx_pick("background", 0, 2);  // zeros, ones, alternating
  std::vector<char> v;
  for (int s = 0; s < steps; ++s) {
    size_t base = v.size();
    for (int i = 0; i < chunk[s]; ++i) v.push_back(background == 2 ? i & 1 : background);
    if (chunk[s]) { v[base] = sx<bool>("x"); v.back() = sx<bool>("y"); }
    int seen = 0;
    if (sx_pick("how", 0, 1)) b.AddForEach(v.begin() + base, v.end(), [&](char c) { ++seen; return c != 0; });
    else b.AddByGroups(chunk[s], [&](int64_t off) { sx_assert(off % 32 == 0 && off == seen); return [&, off](int i) { sx_assert(i == seen - off); ++seen; return v[base + off + i] != 0; }; });
    sx_assert(seen == chunk[s]);
  }
  auto r = std::move(b).Build();
  char all = 1;
  for (char c : v) all &= c;
  if (r.empty()) { sx_assert(all | v.empty()); return; }
  sx_assert(!all); sx_assert(r.size() >= bitmap::BitmapSize(total));
  bool ok = true;
  for (size_t i = 0; i < v.size(); ++i) ok &= bitmap::GetBit(r, i) == (v[i] != 0);
  for (int64_t i = v.size(); i < bitmap::BitmapSize(total) * 32; ++i) ok &= !bitmap::GetBit(r, i);
  sx_assert(ok);
}

// ---- dense arrays
namespace {
template <class T> struct Model { std::vector<T> v; std::vector<char> p; std::vector<Word> w = {}; int from = 0; };  // presence comes from bits of w, if any
template <class T>
void Same(const DenseArray<T>& a, const Model<int>& m, bool counts = true) {  // (counts of shifted words are out of reach of the solver)
  int n = m.v.size();
  sx_assert(a.size() == n && a.empty() == (n == 0));
  sx_assert(a.CheckBitmapMatchesValues());
  sx_assert(a.bitmap_bit_offset >= 0 && a.bitmap_bit_offset < 32);
  int64_t cnt = m.w.empty() ? 0 : Ones(m.w, m.from, m.from + n);
  bool ok = true;
  for (int i = 0; i < n; ++i) { if (m.w.empty()) cnt += m.p[i]; ok &= a.present(i) == (m.p[i] != 0); if constexpr (!std::is_same_v<T, Unit>) ok &= !m.p[i] | (a.values[i] == m.v[i]); }
  sx_assert(ok);
  if (!counts) return;
  sx_assert(a.PresentCount() == cnt);
  sx_assert(a.IsFull() == (cnt == n)); sx_assert(a.IsAllMissing() == (cnt == 0)); sx_assert(a.IsAllPresent() == (cnt == n));
}
struct Made { DenseArray<int> a; Model<int> m; };
// an array of n elements with a bitmap at any offset, or none
Made Make(int n, int off, bool has_bitmap, int known = 0) {
  Made r;
  std::vector<int> vals;
  for (int i = 0; i < n; ++i) { int x = i < known ? i * 7 : sx<int>("x"); vals.push_back(x); }
  r.m.v = vals;
  r.a.values = Buffer<int>::Create(vals.begin(), vals.end());
  r.a.bitmap_bit_offset = off;
  if (has_bitmap) {
    auto w = Words((n + off + 31) / 32);
    r.a.bitmap = Bm(w);
    r.m.w = w; r.m.from = off;
    for (int i = 0; i < n; ++i) r.m.p.push_back(bit(w, off + i));
  } else {
    r.m.p.assign(n, 1);
  }
  return r;
}
}  // namespace

SX_ENTRY(dense_basic) {  // sx: shards=3 leak bound=up_to_65_elements,_all_bit_offsets
  int off = sx_pick("off", 0, 31), n = kLen[sx_pick("n", 0, 2) * 3 + sx_shard(3)];
  Made d = Make(n, off, true);
  Same(d.a, d.m);
  auto mask = d.a.ToMask();
  Same(mask, d.m);
  auto z = d.a.ForceNoBitmapBitOffset();
  sx_assert(z.bitmap_bit_offset == 0);
  Same(z, d.m, false);
  auto own = d.a.MakeUnowned();
  sx_assert(n == 0 || !own.is_owned());
  Same(own, d.m);
  Same(own.MakeOwned(), d.m);
  sx_assert(own.MakeOwned().is_owned());
}
SX_ENTRY(dense_slices) {  // sx: shards=4 bound=2_slices_of_up_to_40_elements
  int offs[] = {0, 1, 17, 31};
  int n = 40, off = offs[sx_shard(4)];
  Made d = Make(n, off, sx_pick("bitmap", 0, 1), 38);
  for (int k = 0; k < 2; ++k) {
    int sz = d.m.v.size();
    int pts[] = {0, 1, sz / 2, 31 - off, 32 - off, sz - 1, sz};
    int o = pts[sx_pick("o", 0, 6)];
    if (o < 0 || o > sz) sx_end();
    int lens[] = {0, 1, 2, (sz - o) / 2, sz - o};
    int c = lens[sx_pick("c", 0, 4)];
    if (c < 0 || c > sz - o) sx_end();
    d.a = d.a.Slice(o, c);
    d.m.v = std::vector<int>(d.m.v.begin() + o, d.m.v.begin() + o + c);
    d.m.p = std::vector<char>(d.m.p.begin() + o, d.m.p.begin() + o + c);
    d.m.from += o;
    Same(d.a, d.m);
  }
  auto z = d.a.ForceNoBitmapBitOffset();
  sx_assert(z.bitmap_bit_offset == 0);
  Same(z, d.m, false);
}
SX_ENTRY(dense_element) {
  const int offs[] = {0, 1, 2, 3, 8, 15, 16, 30, 31};
  int off = kThorough ? sx_pick("off", 0, 31) : offs[sx_pick("off", 0, 8)], n = Len("n", 5);
  if (n == 0) return;
  Made d = Make(n, off, sx_pick("bitmap", 0, 1));
  int64_t i = sx_range<int64_t>("i", 0, n - 1);
  auto e = d.a[i];
  sx_assert(e.present == (d.m.p[i] != 0));
  sx_assert(!e.present || e.value == d.m.v[i]);
  auto it = d.a.begin() + i;
  sx_assert((*it).present == e.present);
  sx_assert(d.a.end() - d.a.begin() == n);
}
SX_ENTRY(dense_for_each) {  // sx: shards=3 bound=up_to_65_elements,_7_bit_offsets
  int offs[] = {0, 1, 2, 16, 30, 31, 31};
  int off = offs[sx_pick("off", 0, 5)], n = kLen[sx_pick("n", 0, 2) * 3 + sx_shard(3)];
  Made d = Make(n, off, sx_pick("bitmap", 0, 1));
  int64_t next = 0;
  bool ok = true;
  auto see = [&](int64_t id, bool present, int v) {
    sx_assert(id == next); ++next;
    ok &= present == (d.m.p[id] != 0);
    ok &= !present | (v == d.m.v[id]);
  };
  d.a.ForEach(see);
  sx_assert(next == n);
  next = 0;
  d.a.ForEachByGroups([&](int64_t off) { sx_assert(off == next); return [&see](int64_t id, bool p, int v) { see(id, p, v); }; });
  sx_assert(next == n);
  sx_assert(ok);
}
SX_ENTRY(dense_for_each_present) {  // sx: bound=5_unknown_elements_of_up_to_36
  int off = sx_pick("off", 0, 1) * 31, n = sx_pick("n", 0, 5);
  Made d = Make(n, off, sx_pick("bitmap", 0, 1));
  std::vector<std::pair<int64_t, int>> got, want;
  d.a.ForEachPresent([&](int64_t id, int v) { got.push_back({id, v}); });
  for (int i = 0; i < n; ++i) if (d.m.p[i]) want.push_back({i, d.m.v[i]});
  sx_assert(got == want);
  int i = 0;
  for (auto x : d.a) { sx_assert(x.present == (d.m.p[i] != 0)); sx_assert(!x.present || x.value == d.m.v[i]); ++i; }
  sx_assert(i == n);
}
SX_ENTRY(dense_equivalent) {  // sx: bound=up_to_3_elements,_4_bit_offsets
  int offs[] = {0, 1, 30, 31};
  Made a = Make(sx_pick("na", 0, 3), offs[sx_pick("oa", 0, 3)], sx_pick("ba", 0, 1));
  Made b = Make(sx_pick("nb", 0, 3), offs[sx_pick("ob", 0, 1)], sx_pick("bb", 0, 1));
  bool eq = a.m.v.size() == b.m.v.size();
  for (size_t i = 0; eq && i < a.m.v.size(); ++i) eq = a.m.p[i] == b.m.p[i] && (!a.m.p[i] || a.m.v[i] == b.m.v[i]);
  sx_assert(ArraysAreEquivalent(a.a, b.a) == eq);
}
SX_ENTRY(dense_builder) {  // sx: shards=5 bound=2_operations_(3_in_thorough)_on_34_elements
  const int n = 34;
  DenseArrayBuilder<int> b(n);
  Model<int> m{std::vector<int>(n, 0), std::vector<char>(n, 0)};
  int at[] = {0, 5, 31, 32, 33};
  for (int k = 0; k < (kThorough ? 3 : 2); ++k) {
    int op = k == 0 ? sx_shard(5) : sx_pick("op", 0, 4);
    int i = at[sx_pick("i", 0, 4)];
    int x = sx<int>("x");
    bool p = sx<bool>("p");
    auto put = [&](int j) { m.v[j] = x; m.p[j] = 1; };
    switch (op) {
      case 0: b.Set(i, x); put(i); break;
      case 1: b.Set(i, OptionalValue<int>(p, x)); if (p) put(i); break;
      case 2: { std::optional<int> o; if (p) { o = x; put(i); } b.Add(i, o); b.Set(i, std::nullopt); break; }
      case 3: { int c = sx_pick("c", 0, 1) ? n - i : std::min(2, n - i); b.SetNConst(i, c, x); for (int j = i; j < i + c; ++j) put(j); break; }
      case 4: { int c = sx_pick("c", 0, 1) ? n - i : 0; b.SetNConst(i, c, OptionalValue<int>(p, x)); b.SetNConst(i, c, std::nullopt); if (p) for (int j = i; j < i + c; ++j) put(j); break; }
    }
  }
  int size = sx_pick("all", 0, 1) == 0 ? n : at[sx_pick("size", 0, 4)];
  auto r = size == n ? std::move(b).Build() : std::move(b).Build(size);
  m.v.resize(size); m.p.resize(size);
  Same(r, m);
}
SX_ENTRY(dense_create) {  // sx: shards=2 bound=up_to_36_elements_of_which_4_unknown
  int ns[] = {0, 1, 3, 31, 32, 33, 36};
  int n = ns[sx_pick("n", 0, 6)];
  std::vector<OptionalValue<int>> v(n);
  std::vector<std::optional<int64_t>> w(n);
  Model<int> m{std::vector<int>(n), std::vector<char>(n)};
  bool full = sx_pick("full", 0, 1);
  for (int i = 0; i < n; ++i) {
    bool p = i < 2 || i >= n - 2 ? sx<bool>("p") : full || i % 3 == 0;
    int x = sx<int>("x");
    v[i] = OptionalValue<int>(p, x);
    if (p) w[i] = x;
    m.v[i] = x; m.p[i] = p;
  }
  if (sx_shard(2)) {
    auto a = CreateDenseArray<int>(absl::Span<const OptionalValue<int>>(v.data(), v.size()));
    Same(a, m);
  } else {
    auto a = CreateDenseArray<int>(w.begin(), w.end());
    Same(a, m);
    auto u = CreateDenseArray<Unit>(w.begin(), w.end());
    Same(u, m);
  }
}
SX_ENTRY(dense_create_simple) {
  int n = Len("n", 5);
  Model<int> m;
  for (int i = 0; i < n; ++i) m.v.push_back(sx<int>("x"));
  m.p.assign(n, 1);
  Same(CreateFullDenseArray<int>(m.v), m);
  Same(CreateFullDenseArray<int>(std::vector<int>(m.v)), m);
  Same(CreateFullDenseArray<int>(m.v.begin(), m.v.end()), m);
  int c = sx<int>("c");
  Same(CreateConstDenseArray<int>(n, c), Model<int>{std::vector<int>(n, c), std::vector<char>(n, 1)});
  Same(CreateEmptyDenseArray<int>(n), Model<int>{std::vector<int>(n, 0), std::vector<char>(n, 0)});
  Same(CreateEmptyDenseArray<Unit>(n), Model<int>{std::vector<int>(n, 0), std::vector<char>(n, 0)});
  Same(CreateConstDenseArray<Unit>(n, kUnit), Model<int>{std::vector<int>(n, 0), std::vector<char>(n, 1)});
  auto d = CreateFullDenseArray({1, 2, 3});
  Same(d, Model<int>{{1, 2, 3}, {1, 1, 1}});
}
SX_ENTRY(dense_text) {  // sx: bound=3_texts_of_one_byte
  std::vector<std::string> s;
  std::vector<OptionalValue<Text>> v;
  int n = sx_pick("n", 0, 3);
  for (int i = 0; i < n; ++i) { s.push_back(std::string(1, sx<char>("c"))); v.push_back(sx_pick("p", 0, 1) ? OptionalValue<Text>(Text(s[i])) : OptionalValue<Text>()); }
  DenseArrayBuilder<Text> b(n);
  for (int i = n - 1; i >= 0; --i) b.Set(i, v[i]);
  auto a = std::move(b).Build();
  std::vector<std::optional<std::string>> o;
  for (int i = 0; i < n; ++i) o.push_back(v[i].present ? std::optional<std::string>(s[i]) : std::nullopt);
  auto a2 = CreateDenseArray<Text>(o.begin(), o.end());
  auto check = [&](const DenseArray<Text>& x, int from, int k) {
    sx_assert(x.size() == k);
    for (int i = 0; i < k; ++i) { auto e = x[i]; sx_assert(e.present == v[from + i].present); sx_assert(!e.present || e.value == absl::string_view(s[from + i])); }
  };
  check(a, 0, n); check(a2, 0, n);
  sx_assert(ArraysAreEquivalent(a, a2));
  int o1 = sx_pick("o", 0, n), c1 = sx_pick("c1", 0, n - o1);
  auto sl = a2.Slice(o1, c1);
  check(sl, o1, c1);
  check(sl.MakeOwned(), o1, c1);
  check(sl.MakeUnowned().MakeOwned(), o1, c1);
}
