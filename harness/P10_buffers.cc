// Buffers: immutable typed blocks, their builders, slices and copies
// (memory/simple_buffer.h, strings_buffer.h/.cc, void_buffer.h, raw_buffer_factory.h/.cc).
// SX-SRCS: arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc arolla/util/preallocated_buffers.cc
// SX-FLAGS: -I$VERIF/harness/stub_protobuf
#include <algorithm>
#include <cstring>
#include <optional>
#include <string>
#include <vector>

#include "sx.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/raw_buffer_factory.h"

#ifdef SX_THOROUGH
constexpr int kSteps = 3, kArenaSteps = 6;
#else
constexpr int kSteps = 2, kArenaSteps = 4;
#endif
namespace {
using namespace arolla;
template <class B, class M>
void Same(const B& b, const M& m) {
  sx_assert(b.size() == (int64_t)m.size());
  sx_assert(b.empty() == m.empty());
  for (size_t i = 0; i < m.size(); ++i) sx_assert(b[i] == m[i]);
  size_t n = 0;
  for (auto v : b) { sx_assert(v == m[n]); ++n; }
  sx_assert(n == m.size());
  if (!m.empty()) { sx_assert(b.front() == m.front()); sx_assert(b.back() == m.back()); }
}
// arena or heap, as a symbolic choice
struct Factory {
  std::optional<UnsafeArenaBufferFactory> arena;
  RawBufferFactory* f;
  bool on_heap;
  explicit Factory(int64_t page) {
    on_heap = sx_pick("heap", 0, 1);
    if (on_heap) f = GetHeapBufferFactory();
    else { arena.emplace(page); f = &*arena; }
  }
};
}  // namespace

// Builder: positions in any order, shrinking, inserters.
SX_ENTRY(simple_builder) {  // sx: shards=2 bound=2_operations_(3_in_thorough)_on_4_elements
  Factory fac(sx_shard(2) ? 24 : 256);
  using B = Buffer<int64_t>;
  B::Builder b(4, fac.f);
  std::vector<int64_t> m(4, 0);
  for (int i = 0; i < 4; ++i) { m[i] = sx<int64_t>("x"); b.Set(i, m[i]); }
  for (int k = 0; k < kSteps; ++k) {
    switch (sx_pick("op", 0, 4)) {
      case 0: { int i = sx_pick("i", 0, 3); int64_t v = sx<int64_t>("v"); b.Set(i, v); m[i] = v; break; }
      case 1: { int i = sx_pick("i", 0, 3), j = sx_pick("j", 0, 3); b.Copy(i, j); m[j] = m[i]; break; }
      case 2: { int i = sx_pick("i", 0, 3), n = sx_pick("n", 0, 4 - i); int64_t v = sx<int64_t>("v"); b.SetNConst(i, n, v); for (int q = 0; q < n; ++q) m[i + q] = v; break; }
      case 3: { int i = sx_pick("i", 0, 3), n = sx_pick("n", 0, 4 - i); int64_t v = sx<int64_t>("v"), w = v; b.SetN(i, n, [&] { int64_t r = w; w = (int64_t)((uint64_t)w + 1); return r; }); for (int q = 0; q < n; ++q) m[i + q] = (int64_t)((uint64_t)v + q); break; }
      case 4: { int i = sx_pick("i", 0, 3); auto ins = b.GetInserter(i); int64_t v = sx<int64_t>("v"); ins.Add(v); m[i] = v; if (i < 3) ins.SkipN(1); if (i < 2) { ins.Add(v); m[i + 2] = v; } break; }
    }
  }
  int size = sx_pick("size", 0, 4);
  m.resize(size);
  if (size == 4 && sx_pick("all", 0, 1)) { Same(std::move(b).Build(), m); return; }
  B r = std::move(b).Build(size);
  Same(r, m);
  sx_assert(r.is_owner() == (fac.on_heap || size == 0));
}
SX_ENTRY(simple_inserter_build) {
  Buffer<int>::Builder b(4);
  int at = sx_pick("at", 0, 3), n = sx_pick("n", 0, 4 - at);
  std::vector<int> m(at, 0);
  for (int i = 0; i < at; ++i) b.Set(i, 0);
  auto ins = b.GetInserter(at);
  for (int i = 0; i < n; ++i) { int v = sx<int>("v"); ins.Add(v); m.push_back(v); }
  Same(std::move(b).Build(ins), m);
}
// Builds that shrink by more than the slack reallocate and keep the prefix.
SX_ENTRY(simple_shrink) {  // sx: bound=400_elements
  Factory fac(sx_pick("page", 0, 1) ? 8192 : 64);
  Buffer<int64_t>::Builder b(400, fac.f);
  int n = sx_pick("n", 0, 5);
  if (n > 2) n = n == 3 ? 271 : n == 4 ? 272 : 400;
  std::vector<int64_t> m;
  int at = std::max(0, n - 3);
  b.SetNConst(0, 400, 7);
  for (int i = at; i < n; ++i) { m.push_back(sx<int64_t>("v")); b.Set(i, m.back()); }
  auto r = std::move(b).Build(n);
  sx_assert(r.size() == n);
  for (int i = at; i < n; ++i) sx_assert(r[i] == m[i - at]);
  for (int i = 0; i < at; ++i) sx_assert(r[i] == 7);
}
// Slices and copies: contents, ownership, life time.
SX_ENTRY(simple_slices) {  // sx: shards=2 leak bound=3_operations_on_4_elements
  std::vector<int> m;
  int n = sx_pick("n", 0, 4);
  for (int i = 0; i < n; ++i) m.push_back(sx<int>("x"));
  std::optional<std::vector<int>> outside;
  Buffer<int> b;
  bool owned = sx_shard(2);
  if (owned) b = sx_pick("how", 0, 1) ? Buffer<int>::Create(m.begin(), m.end()) : Buffer<int>::Create(std::vector<int>(m));
  else { outside = m; b = Buffer<int>(nullptr, *outside); }
  for (int k = 0; k < 3; ++k) {
    sx_assert(b.is_owner() == (owned || m.empty()));
    switch (sx_pick("op", 0, 4)) {
      case 0: { int o = sx_pick("o", 0, m.size()), c = sx_pick("c", 0, m.size() - o); Buffer<int> t = b; b = t.Slice(o, c); m = std::vector<int>(m.begin() + o, m.begin() + o + c); break; }
      case 1: { int o = sx_pick("o", 0, m.size()); b = std::move(b).Slice(o); m.erase(m.begin(), m.begin() + o); break; }
      case 2: { b = b.DeepCopy(); owned = true; if (outside) for (auto& x : *outside) x = ~x; if (outside) outside.reset(); break; }
      case 3: { Buffer<int> keep = b; Buffer<int> s = b.ShallowCopy(); Same(s, m); sx_assert(!s.is_owner() || m.empty()); sx_assert(s == keep); break; }
      case 4: { Buffer<int> c = b; sx_assert(c == b && !(c != b)); b = Buffer<int>(); b = std::move(c); break; }
    }
    if (m.empty()) owned = owned || !outside;
    Same(b, m);
  }
}
SX_ENTRY(simple_equality) {
  std::vector<int> x, y;
  int n = sx_pick("n", 0, 3), k = sx_pick("k", 0, 3);
  for (int i = 0; i < n; ++i) x.push_back(sx<int>("x"));
  for (int i = 0; i < k; ++i) y.push_back(sx<int>("y"));
  auto a = Buffer<int>::Create(x.begin(), x.end()), b = Buffer<int>::Create(y.begin(), y.end());
  sx_assert((a == b) == (x == y)); sx_assert((a != b) == (x != y)); sx_assert((a == y) == (x == y)); sx_assert((y == a) == (x == y));
  if (x == y) sx_reach("equal");
}
SX_ENTRY(simple_reshuffle) {  // sx: bound=4_new_and_3_old_elements,_2_copies_(3_in_thorough)
  std::vector<int> old;
  for (int i = 0; i < 3; ++i) old.push_back(sx<int>("x"));
  auto b = Buffer<int>::Create(old.begin(), old.end());
  bool def = sx_pick("default", 0, 1);
  int d = sx<int>("d");
  Buffer<int>::ReshuffleBuilder rb(4, b, OptionalValue<int>(def, d));
  std::vector<std::optional<int>> m(4);
  if (def) for (auto& x : m) x = d;
  for (int k = 0; k < kSteps; ++k) {
    int o = sx_pick("old", 0, 2);
    if (sx_pick("range", 0, 1)) { int f = sx_pick("from", 0, 4), t = sx_pick("to", f, 4); rb.CopyValueToRange(f, t, o); for (int i = f; i < t; ++i) m[i] = old[o]; }
    else { int i = sx_pick("new", 0, 3); rb.CopyValue(i, o); m[i] = old[o]; }
  }
  int size = sx_pick("size", 0, 4);
  auto r = size == 4 ? std::move(rb).Build() : std::move(rb).Build(size);
  sx_assert(r.size() == size);
  for (int i = 0; i < size; ++i) if (m[i]) sx_assert(r[i] == *m[i]);
}
SX_ENTRY(uninitialized_and_bool) {
  int n = sx_pick("n", 0, 5);
  auto i = Buffer<int>::CreateUninitialized(n); sx_assert(i.size() == n);
  for (int k = 0; k < n; ++k) sx_assert(i[k] == 0);
  // every byte of a bool buffer is a valid bool even where nothing was set
  Buffer<bool>::Builder bb(n + 1);
  int at = sx_pick("at", 0, n); bool v = sx<bool>("v"); bb.Set(at, v);
  auto b = std::move(bb).Build();
  for (int k = 0; k <= n; ++k) sx_assert(b[k] == (k == at ? v : false));
  auto s = Buffer<Text>::CreateUninitialized(n); sx_assert(s.size() == n);
  for (int k = 0; k < n; ++k) sx_assert(s[k].empty());
}
SX_ENTRY(uninitialized_big) {  // sx: bound=sizes_around_the_preallocated_16_KB
  int n = sx_pick("n", 4094, 4098);
  auto i = Buffer<int>::CreateUninitialized(n); sx_assert(i.size() == n);
  auto s = Buffer<Text>::CreateUninitialized(n / 4); sx_assert(s.size() == n / 4);
  for (int k = 0; k < n / 4; k += 1) sx_assert(s[k].empty());
}
SX_ENTRY(void_buffer) {
  int64_t n = sx_range<int64_t>("n", 0, 5);
  VoidBuffer b(n);
  sx_assert(b.size() == n && b.empty() == (n == 0) && b.is_owner());
  int64_t c = sx_range<int64_t>("c", 0, n);
  sx_assert(b.Slice(n - c, c).size() == c); sx_assert(b.ShallowCopy() == b && b.DeepCopy() == b && !(b != b)); sx_assert((VoidBuffer(c) == b) == (c == n));
  VoidBuffer::Builder bl(n); bl.SetNConst(0, n, {}); sx_assert(std::move(bl).Build().size() == n);
  VoidBuffer::Builder b2(n); sx_assert(std::move(b2).Build(c).size() == c);
  VoidBuffer::Builder b3(n); auto ins = b3.GetInserter(); ins.SkipN(c); if (c < n) ins.Add({}); sx_assert(std::move(b3).Build(ins).size() == c + (c < n));
}

// ---- strings
namespace {
std::string Str(int maxlen = 2) {
  std::string s(sx_pick("len", 0, maxlen), 0);
  for (auto& c : s) c = sx<char>("c");
  return s;
}
}  // namespace
SX_ENTRY(strings_builder) {  // sx: shards=3 bound=2_operations_on_3_strings_of_up_to_2_bytes
  int64_t initial = sx_pick("initial", 0, 2);  // how soon the characters must be reallocated
  Factory fac(sx_shard(3) ? 512 : 64);
  Buffer<Text>::Builder b(3, sx_shard(3) == 2 ? 48 : initial, fac.f);
  std::vector<std::string> m(3);
  for (int k = 0; k < 2; ++k) {
    switch (sx_pick("op", 0, 4)) {
      case 0: { int i = sx_pick("i", 0, 2); auto v = Str(); b.Set(i, v); m[i] = v; break; }
      case 1: { int i = sx_pick("i", 0, 2), j = sx_pick("j", 0, 2); b.Copy(i, j); m[j] = m[i]; break; }
      case 2: { int i = sx_pick("i", 0, 2), n = sx_pick("n", 0, 3 - i); auto v = Str(1); b.SetNConst(i, n, v); for (int q = 0; q < n; ++q) m[i + q] = v; break; }
      case 3: { int i = sx_pick("i", 0, 2), n = sx_pick("n", 0, 3 - i); std::string v = Str(1), w; b.SetN(i, n, [&]() -> absl::string_view { w += v; return w; }); std::string u; for (int q = 0; q < n; ++q) { u += v; m[i + q] = u; } break; }
      case 4: { int i = sx_pick("i", 0, 2); auto ins = b.GetInserter(i); auto v = Str(1); ins.Add(v); m[i] = v; if (i < 2) ins.SkipN(1); if (i < 1) { ins.Add(v); m[i + 2] = v; } break; }
    }
  }
  int size = sx_pick("size", 0, 3);
  m.resize(size);
  auto r = std::move(b).Build(size);
  Same(r, m);
}
SX_ENTRY(strings_growth) {  // sx: bound=strings_of_up_to_70_bytes
  Buffer<Text>::Builder b(2, sx_pick("initial", 0, 1));
  int la = sx_pick("la", 0, 3), lb = sx_pick("lb", 0, 3);
  const int len[] = {0, 1, 33, 70};
  std::string x(len[la], 'x'), y(len[lb], 'y');
  if (la) x[len[la] - 1] = sx<char>("c");
  if (lb) y[0] = sx<char>("d");
  b.Set(1, x); b.Set(0, y);
  Same(std::move(b).Build(2), std::vector<std::string>{y, x});
}
SX_ENTRY(strings_slices) {  // sx: shards=4 leak bound=3_operations_on_up_to_3_strings_of_up_to_2_bytes
  int first = sx_shard(4) / 2;  // shards 2, 3 start with a slice
  std::vector<std::string> m;
#ifdef SX_THOROUGH
  int n = sx_pick("n", 1, 3);
#else
  int n = sx_pick("n", 1, first ? 3 : 2);
#endif
  for (int i = 0; i < n; ++i) m.push_back(Str(i == 1 ? 2 : 1));
  Buffer<Text> src = Buffer<Text>::Create(m.begin(), m.end());
  Buffer<Text> b = sx_shard(4) & 1 ? src : src.ShallowCopy();
  for (int k = 0; k < 3; ++k) {
    int op = k ? sx_pick("op", 0, 4) : first ? 0 : sx_pick("op", 1, 4);
    switch (op) {
      case 0: { int o = sx_pick("o", 0, m.size()), c = sx_pick("c", 0, m.size() - o); Buffer<Text> t = b; b = t.Slice(o, c); m = std::vector<std::string>(m.begin() + o, m.begin() + o + c); break; }
      case 1: { int o = sx_pick("o", 0, m.size()); b = std::move(b).Slice(o); m.erase(m.begin(), m.begin() + o); break; }
      case 2: { b = b.DeepCopy(); sx_assert(b.is_owner()); src = Buffer<Text>(); break; }
      case 3: { Buffer<Text> keep = b; Buffer<Text> s = b.ShallowCopy(); Same(s, m); sx_assert(s == keep && keep == s); break; }
      case 4: { // reshuffle: reverse order, with a hole
        bool def = sx_pick("default", 0, 1); std::string d = Str(1);
        if (m.empty()) break;
        Buffer<Text>::ReshuffleBuilder rb(m.size() + 1, b, OptionalValue<absl::string_view>(def, d));
        int hole = sx_pick("hole", 0, m.size());
        std::vector<std::string> r;
        for (int i = 0; i <= (int)m.size(); ++i) {
          if (i == hole) { r.push_back(def ? d : std::string()); continue; }
          int from = (int)m.size() - 1 - (i > hole ? i - 1 : i);
          if (i == 0) rb.CopyValueToRange(0, 1, from); else rb.CopyValue(i, from);
          r.push_back(m[from]);
        }
        auto t = std::move(rb).Build();
        Same(t, r);
        b = t.DeepCopy(); m = r; m.size() > 3 ? (void)0 : (void)0;
        break;
      }
    }
    Same(b, m);
  }
}
SX_ENTRY(strings_equality) {
  std::vector<std::string> x, y;
  int n = sx_pick("n", 0, 2), k = sx_pick("k", 0, 2);
  for (int i = 0; i < n; ++i) x.push_back(Str());
  for (int i = 0; i < k; ++i) y.push_back(Str());
  auto a = Buffer<Text>::Create(x.begin(), x.end()), b = Buffer<Text>::Create(y.begin(), y.end());
  sx_assert((a == b) == (x == y)); sx_assert((a != b) == !(x == y));
  if (n == 2 && k == 2) { auto c = a.Slice(1), d = b.Slice(1); sx_assert((c == d) == (x[1] == y[1])); }
}

// ---- the arena: live blocks never overlap, are aligned, keep their contents, and stay inside allocated memory.
SX_ENTRY(arena) {  // sx: shards=7 bound=4_operations_(6_in_thorough),_pages_of_32_bytes,_7_sizes
  UnsafeArenaBufferFactory a(32);
  struct Blk { char* p; int n; char first, last; };
  std::vector<Blk> live;
  const int sizes[] = {0, 1, 8, 9, 16, 24, 40};
  char tag = sx<char>("tag");
  auto fill = [&](Blk& b) { b.first = b.last = tag++; if (b.n) { memset(b.p, 0, b.n); b.p[0] = b.p[b.n - 1] = b.first; } };
  auto check = [&] {
    for (size_t i = 0; i < live.size(); ++i) {
      auto& b = live[i];
      if (!b.n) continue;
      sx_assert(((uintptr_t)b.p & 7) == 0);
      sx_assert(b.p[0] == b.first);
      sx_assert(b.p[b.n - 1] == b.last);
      for (size_t j = 0; j < i; ++j) if (live[j].n) sx_assert(b.p + b.n <= live[j].p || live[j].p + live[j].n <= b.p);
    }
  };
  for (int k = 0; k < kArenaSteps; ++k) {
    int op = k == 0 ? 0 : sx_pick("op", 0, 2);
    if (op == 0) {
      Blk b; b.n = sizes[k == 0 ? (int)sx_shard(7) : (int)sx_pick("size", 0, 6)];
      auto [buf, p] = a.CreateRawBuffer(b.n);
      sx_assert(buf == nullptr);
      b.p = (char*)p; fill(b); live.push_back(b);
    } else if (op == 1) {
      if (live.empty()) return;
      // only the last two blocks: the last one may be resized in place
      int i = (int)live.size() - 1 - (live.size() > 1 ? sx_pick("which", 0, 1) : 0);
      int n = sizes[sx_pick("size", 0, 6)];
      Blk o = live[i];
      auto [buf, p] = a.ReallocRawBuffer(nullptr, o.p, o.n, n);
      Blk b; b.p = (char*)p; b.n = n;
      if (n && o.n) { sx_assert(b.p[0] == o.first); if (o.n > 1 && n >= o.n) sx_assert(b.p[o.n - 1] == o.last); }
      fill(b); live[i] = b;
    } else {
      a.Reset(); live.clear(); sx_reach("reset");
    }
    check();
  }
}
SX_ENTRY(heap_realloc) {  // sx: leak
  int n = sx_pick("n", 0, 3), k = sx_pick("k", 0, 3);
  auto [buf, p] = GetHeapBufferFactory()->CreateRawBuffer(n);
  sx_assert((buf == nullptr) == (n == 0));
  std::string m(n, 0);
  for (int i = 0; i < n; ++i) ((char*)p)[i] = m[i] = sx<char>("c");
  auto [b2, q] = GetHeapBufferFactory()->ReallocRawBuffer(std::move(buf), p, n, k);
  for (int i = 0; i < std::min(n, k); ++i) sx_assert(((char*)q)[i] == m[i]);
  for (int i = 0; i < k; ++i) ((char*)q)[i] = 1;
  sx_assert((b2 == nullptr) == (k == 0));
}
SX_ENTRY(protobuf_arena) {  // sx: leak
  google::protobuf::Arena arena;
  ProtobufArenaBufferFactory f(arena);
  int n = sx_pick("n", 0, 3), k = sx_pick("k", 0, 3);
  auto [b1, p] = f.CreateRawBuffer(n);
  auto [b0, other] = f.CreateRawBuffer(2);
  ((char*)other)[0] = 11; ((char*)other)[1] = 12;
  std::string m(n, 0);
  for (int i = 0; i < n; ++i) ((char*)p)[i] = m[i] = sx<char>("c");
  auto [b2, q] = f.ReallocRawBuffer(std::move(b1), p, n, k);
  sx_assert(b2 == nullptr);
  for (int i = 0; i < std::min(n, k); ++i) sx_assert(((char*)q)[i] == m[i]);
  for (int i = 0; i < k; ++i) ((char*)q)[i] = 1;
  sx_assert(((char*)other)[0] == 11 && ((char*)other)[1] == 12);
}
