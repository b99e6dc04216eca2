// Input loaders and slot listeners put together from others: which names they know and what they load and store.
// SX-SRCS: arolla/io/input_loader.cc arolla/io/slot_listener.cc arolla/io/wildcard_input_loader.cc arolla/io/struct_io.cc arolla/io/typed_refs_input_loader.cc arolla/io/string_slot_listener.cc arolla/util/string.cc arolla/util/preallocated_buffers.cc arolla/dense_array/edge.cc arolla/dense_array/qtype/types.cc arolla/memory/frame.cc arolla/qtype/qtype.cc arolla/qtype/base_types.cc arolla/qtype/optional_qtype.cc arolla/qtype/typed_slot.cc arolla/qtype/typed_ref.cc arolla/util/fingerprint.cc arolla/util/text.cc arolla/util/bytes.cc arolla/util/status.cc arolla/util/demangle.cc arolla/util/class_info.cc arolla/util/init_arolla.cc arolla/util/init_arolla_internal.cc arolla/memory/optional_value.cc arolla/dense_array/bitmap.cc arolla/dense_array/dense_array.cc arolla/memory/strings_buffer.cc arolla/memory/raw_buffer_factory.cc
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <vector>

#include "sx.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/io/accessors_input_loader.h"
#include "arolla/io/accessors_slot_listener.h"
#include "arolla/io/chain_slot_listener.h"
#include "arolla/io/delegating_input_loader.h"
#include "arolla/io/delegating_slot_listener.h"
#include "arolla/io/inplace_slot_builder.h"
#include "arolla/io/input_loader.h"
#include "arolla/io/slot_listener.h"
#include "arolla/io/span_input_loader.h"
#include "arolla/io/string_slot_listener.h"
#include "arolla/io/struct_io.h"
#include "arolla/io/tuple_input_loader.h"
#include "arolla/io/typed_refs_input_loader.h"
#include "arolla/io/wildcard_input_loader.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/util/string.h"

namespace {
using namespace arolla;
using OptInt = OptionalValue<int>;
using Slots = absl::flat_hash_map<std::string, TypedSlot>;

struct In {
  int a = 0;
  OptInt b;
  std::map<std::string, int> m;
  const In* sub = nullptr;
};
struct Val {
  QTypePtr type;
  std::function<OptInt(const In&)> get;
  bool fails = false;
};
using Loader = std::unique_ptr<InputLoader<In>>;
// What a loader is expected to be.
struct Built {
  Loader loader;
  std::function<std::optional<Val>(const std::string&)> find;
  std::vector<std::string> names;
};
bool Cut(std::string& s, const std::string& prefix) {
  if (s.size() < prefix.size() || s.compare(0, prefix.size(), prefix) != 0) return false;
  s = s.substr(prefix.size());
  return true;
}
struct Keep {
  std::vector<Loader> loaders;
};
Built Base(int k) {
  Built r;
  if (k == 0) {
    r.loader = *CreateAccessorsInputLoader<In>("x", [](const In& i) { return i.a; }, "y", [](const In& i, OptInt* o) { *o = i.b; });
    r.find = [](const std::string& n) -> std::optional<Val> {
      if (n == "x") return Val{GetQType<int>(), [](const In& i) { return OptInt(i.a); }};
      if (n == "y") return Val{GetQType<OptInt>(), [](const In& i) { return i.b; }};
      return std::nullopt;
    };
    r.names = {"x", "y"};
  } else if (k == 1) {  // another "x", and of another type
    r.loader = *CreateAccessorsInputLoader<In>("z", [](const In& i, RawBufferFactory*) { return i.b.present; }, "x", [](const In& i, RawBufferFactory*, OptInt* o) { *o = OptInt(i.a ^ 1); });
    r.find = [](const std::string& n) -> std::optional<Val> {
      if (n == "x") return Val{GetQType<OptInt>(), [](const In& i) { return OptInt(i.a ^ 1); }};
      if (n == "z") return Val{GetQType<bool>(), [](const In& i) { return OptInt(i.b.present); }};
      return std::nullopt;
    };
    r.names = {"z", "x"};
  } else {  // any key; "e" fails
    auto f = [](const In& i, const std::string& key) -> absl::StatusOr<OptInt> {
      if (key == "e") return absl::InternalError("e");
      auto it = i.m.find(key);
      return it == i.m.end() ? OptInt() : OptInt(it->second);
    };
    r.loader = *WildcardInputLoader<In>::Build(f, absl::ParsedFormat<'s'>("w%sw"));
    r.find = [](const std::string& n) -> std::optional<Val> {
      if (n.size() < 2 || n[0] != 'w' || n.back() != 'w') return std::nullopt;
      std::string key = n.substr(1, n.size() - 2);
      return Val{GetQType<OptInt>(), [key](const In& i) { return i.m.count(key) ? OptInt(i.m.at(key)) : OptInt(); }, key == "e"};
    };
    r.names = {"w*w"};
  }
  return r;
}
Built Build(int depth, Keep& keep) {
  int kind = sx_pick("kind", 0, depth == 0 ? 2 : 8);
  if (kind <= 2) return Base(kind);
  Built r;
  if (kind == 3) {
    auto names = std::vector<std::vector<std::string>>{{"x"}, {"wkw", "y", "p/x"}, {}}[sx_pick("allowed", 0, 2)];
    Built c = Build(depth - 1, keep);
    auto f = c.find;
    if (sx_pick("by_list", 0, 1)) r.loader = MakeFilteringInputLoader(std::move(c.loader), names);
    else r.loader = MakeFilteringInputLoader(std::move(c.loader), [names](absl::string_view s) { return std::count(names.begin(), names.end(), s) > 0; });
    r.find = [f, names](const std::string& n) { return std::count(names.begin(), names.end(), n) ? f(n) : std::nullopt; };
    for (auto& n : c.names) if (std::count(names.begin(), names.end(), n)) r.names.push_back(n);
  } else if (kind == 4) {
    std::string prefix = sx_pick("prefix", 0, 1) ? "p/" : "";
    Built c = Build(depth - 1, keep);
    auto f = c.find;
    if (sx_pick("copy", 0, 1)) r.loader = *CreateDelegatingInputLoaderWithCopyAllowed<In>(std::move(c.loader), [](const In& i) -> In { return *i.sub; }, prefix);
    else r.loader = *CreateDelegatingInputLoader<In>(std::move(c.loader), [](const In& i) -> const In& { return *i.sub; }, prefix);
    r.find = [f, prefix](const std::string& n) -> std::optional<Val> {
      std::string s = n;
      if (!Cut(s, prefix)) return std::nullopt;
      auto v = f(s);
      if (v) v->get = [g = v->get](const In& i) { return g(*i.sub); };
      return v;
    };
    for (auto& n : c.names) r.names.push_back(prefix + n);
  } else if (kind == 5) {
    Built c = Build(depth - 1, keep), d = Build(0, keep);
    if (sx_pick("swapped", 0, 1)) std::swap(c, d);
    auto f = c.find, g = d.find;
    r.loader = *ChainInputLoader<In>::Build(std::move(c.loader), std::move(d.loader));
    r.find = [f, g](const std::string& n) {
      auto v = f(n);
      return v ? v : g(n);
    };
    r.names = c.names;
    r.names.insert(r.names.end(), d.names.begin(), d.names.end());
  } else if (kind == 6 || kind == 7) {
    Built c = Build(depth - 1, keep);
    r.find = c.find;
    r.names = c.names;
    if (kind == 6) {
      keep.loaders.push_back(std::move(c.loader));
      r.loader = MakeNotOwningInputLoader<In>(keep.loaders.back().get());
    } else {
      r.loader = MakeSharedOwningInputLoader<In>(std::shared_ptr<const InputLoader<In>>(std::move(c.loader)));
    }
  } else {  // "k:..." with k = 0: the message, 1: its child, 2: unknown
    auto factory = [](absl::string_view key) -> absl::StatusOr<Loader> {
      if (key == "2") return absl::NotFoundError("2");
      std::string k(key);
      if (key == "1") return CreateDelegatingInputLoader<In>(std::move(Base(0).loader), [](const In& i) -> const In& { return *i.sub; }, "1:");
      return CreateAccessorsInputLoader<In>(k + ":x", [](const In& i) { return i.a; }, k + ":y", [](const In& i, OptInt* o) { *o = i.b; });
    };
    auto key = [](absl::string_view n) -> std::optional<std::string> {
      if (n.size() < 2 || n[1] != ':') return std::nullopt;
      return std::string(n.substr(0, 1));
    };
    r.loader = *CreateDynamicDelegatingInputLoader<In>(factory, key, {"k:*"});
    r.find = [](const std::string& n) -> std::optional<Val> {
      if (n.size() != 3 || n[1] != ':' || n[0] == '2' || (n[2] != 'x' && n[2] != 'y')) return std::nullopt;
      bool sub = n[0] == '1', x = n[2] == 'x';
      return Val{x ? (QTypePtr)GetQType<int>() : (QTypePtr)GetQType<OptInt>(), [sub, x](const In& i) {
                   const In& j = sub ? *i.sub : i;
                   return x ? OptInt(j.a) : j.b;
                 }};
    };
    r.names = {"k:*"};
  }
  return r;
}
const std::vector<std::string> kPool = {"x", "wkw", "y", "p/x", "z", "wew", "ww", "p/wkw", "1:x", "0:y", "0:x", "p/p/y", "2:x", "w", "", "q"};

OptInt GetSlot(ConstFramePtr f, TypedSlot s) {
  if (s.GetType() == GetQType<int>()) return f.Get(s.UnsafeToSlot<int>());
  if (s.GetType() == GetQType<bool>()) return int(f.Get(s.UnsafeToSlot<bool>()));
  return f.Get(s.UnsafeToSlot<OptInt>());
}
bool Same(const OptInt& a, const OptInt& b) { return (a.present == b.present) & (!a.present | (a.value == b.value)); }
struct Inputs {
  In in, sub, subsub;
  Inputs() {
    in.a = sx<int>("a");
    in.b = OptInt{sx<bool>("has_b"), sx<int>("b")};
    in.m["k"] = sx<int>("mk");
    sub.a = sx<int>("sub.a");
    sub.b = OptInt{sx<bool>("sub.has_b"), sx<int>("sub.b")};
    sub.m[""] = sx<int>("sub.m");
    subsub.b = OptInt{sx<bool>("subsub.has_b"), sx<int>("subsub.b")};
    subsub.m["k"] = 77;
    in.sub = &sub;
    sub.sub = &subsub;
    subsub.sub = &subsub;
  }
};
void CheckLoader(Built& b) {
  std::vector<std::string> known;
  for (auto& n : kPool) {
    auto v = b.find(n);
    sx_assert(b.loader->GetQTypeOf(n) == (v ? v->type : nullptr));
    if (v) known.push_back(n);
  }
  sx_assert(b.loader->SuggestAvailableNames() == b.names);
  // two names, or one and one that is unknown, or of another type
  known.push_back("no such name");
  int i = sx_pick("first", 0, (int)known.size() - 1), j = sx_pick("second", i, (int)known.size() - 1);
  bool partial = sx_pick("partial", 0, 1);
  FrameLayout::Builder lb;
  Slots slots;
  std::map<std::string, TypedSlot> all;
  bool ok = true, runs = true;
  for (int k : {i, j}) {
    auto v = b.find(known[k]);
    if (all.count(known[k])) continue;
    bool wrong = v && i == j && sx_pick("wrong type", 0, 1);
    TypedSlot s = AddSlot(!v ? GetQType<float>() : wrong ? (v->type == GetQType<int>() ? (QTypePtr)GetQType<OptInt>() : GetQType<int>()) : v->type, &lb);
    slots.emplace(known[k], s);
    all.emplace(known[k], s);
    ok &= !wrong & (v.has_value() | partial);
    if (v) runs &= !v->fails;
  }
  TypedSlot other = AddSlot(GetQType<int>(), &lb);
  FrameLayout layout = std::move(lb).Build();
  auto bound = partial ? b.loader->PartialBind(&slots) : b.loader->Bind(slots);
  sx_assert(bound.ok() == ok);
  if (!ok) {
    sx_reach("rejected");
    return;
  }
  if (partial) {
    for (auto& [n, s] : all) sx_assert(slots.contains(n) == !b.find(n).has_value());
  }
  Inputs data;
  MemoryAllocation alloc(&layout);
  alloc.frame().Set(other.UnsafeToSlot<int>(), 4242);
  b.loader.reset();  // what is bound lives on its own
  auto& fn = *bound;
  bool kept = true;
  absl::Status st = fn(data.in, alloc.frame());
  sx_assert(st.ok() == runs);
  if (!runs) {
    sx_reach("failed to load");
    return;
  }
  for (auto& [n, s] : all) {
    auto v = b.find(n);
    if (v) kept &= Same(GetSlot(alloc.frame(), s), v->get(data.in));
    else kept &= alloc.frame().Get(s.UnsafeToSlot<float>()) == 0;
  }
  kept &= alloc.frame().Get(other.UnsafeToSlot<int>()) == 4242;
  sx_assert(kept);
  sx_reach("loaded");
}

struct Out {
  int x = -1, x2 = -1;
  OptInt y;
  bool z = false;
  std::vector<std::string> order;
  Out* sub = nullptr;
};
using Listener = std::unique_ptr<SlotListener<Out>>;
struct Heard {
  Listener listener;
  std::function<std::vector<int>(const std::string&)> find;  // 0: x, 1: y, 2: x2, 3: z; +10: of the child
  std::vector<std::string> names;
};
Heard LBase(int k) {
  Heard r;
  if (k == 0) {
    r.listener = *CreateAccessorsSlotListener<Out>("x", [](int v, Out* o) { o->x = v; }, "y", [](const OptInt& v, Out* o) { o->y = v; });
    r.find = [](const std::string& n) { return n == "x" ? std::vector<int>{0} : n == "y" ? std::vector<int>{1} : std::vector<int>{}; };
    r.names = {"x", "y"};
  } else {
    r.listener = *CreateAccessorsSlotListener<Out>("z", [](bool v, Out* o) { o->z = v; }, "x", [](const int& v, Out* o) { o->x2 = v; });
    r.find = [](const std::string& n) { return n == "x" ? std::vector<int>{2} : n == "z" ? std::vector<int>{3} : std::vector<int>{}; };
    r.names = {"z", "x"};
  }
  return r;
}
Heard LBuild(int depth, std::vector<Listener>& keep) {
  int kind = sx_pick("kind", 0, depth == 0 ? 1 : 5);
  if (kind <= 1) return LBase(kind);
  Heard r;
  Heard c = LBuild(depth - 1, keep);
  if (kind == 2) {
    std::string prefix = sx_pick("prefix", 0, 1) ? "p/" : "";
    r.listener = *CreateDelegatingSlotListener<Out>(std::move(c.listener), [](Out* o) -> Out* { return o->sub; }, prefix);
    r.find = [f = c.find, prefix](const std::string& n) {
      std::string s = n;
      std::vector<int> v;
      if (Cut(s, prefix)) v = f(s);
      for (int& x : v) x += 10;
      return v;
    };
    for (auto& n : c.names) r.names.push_back(prefix + n);
  } else if (kind == 3) {
    Heard d = LBuild(0, keep);
    if (sx_pick("swapped", 0, 1)) std::swap(c, d);
    r.listener = *ChainSlotListener<Out>::Build(std::move(c.listener), std::move(d.listener));
    r.find = [f = c.find, g = d.find](const std::string& n) {
      auto v = f(n), w = g(n);
      v.insert(v.end(), w.begin(), w.end());
      return v;
    };
    r.names = c.names;
    r.names.insert(r.names.end(), d.names.begin(), d.names.end());
  } else {
    r.find = c.find;
    r.names = c.names;
    if (kind == 4) {
      keep.push_back(std::move(c.listener));
      r.listener = MakeNotOwningSlotListener<Out>(keep.back().get());
    } else {
      r.listener = MakeSharedOwningSlotListener<Out>(std::shared_ptr<const SlotListener<Out>>(std::move(c.listener)));
    }
  }
  return r;
}
const std::vector<std::string> kOutPool = {"x", "y", "z", "p/x", "p/y", "p/z", "p/p/x", "", "q"};
QTypePtr OutType(int what) { return what % 10 == 1 ? (QTypePtr)GetQType<OptInt>() : what % 10 == 3 ? (QTypePtr)GetQType<bool>() : GetQType<int>(); }
}  // namespace

SX_ENTRY(loaders) { // sx: shards=9 timeout=200 bound=compositions_of_depth_2_(filter,_prefix,_chain,_wrappers,_dynamic),_two_of_16_names,_every_input_value
  Keep keep;
  // the outermost kind is the shard
  int kind = sx_shard(9);
  Built b;
  sx_assume(true);
  b = [&] {
    int k = sx_pick("outer", 0, 8);
    if (k != kind) sx_end();
    if (k <= 2) return Base(k);
    return Build(1, keep);
  }();
  if (kind >= 3) {
    Built inner = std::move(b);
    Built r;
    // wrap once more, in the way of the shard
    if (kind == 3) {
      std::vector<std::string> names = {"x", "wew", "0:y"};
      r.find = [f = inner.find, names](const std::string& n) { return std::count(names.begin(), names.end(), n) ? f(n) : std::nullopt; };
      for (auto& n : inner.names) if (std::count(names.begin(), names.end(), n)) r.names.push_back(n);
      r.loader = MakeFilteringInputLoader(std::move(inner.loader), names);
    } else if (kind == 4) {
      r.find = [f = inner.find](const std::string& n) -> std::optional<Val> {
        std::string s = n;
        if (!Cut(s, "p/")) return std::nullopt;
        auto v = f(s);
        if (v) v->get = [g = v->get](const In& i) { return g(*i.sub); };
        return v;
      };
      for (auto& n : inner.names) r.names.push_back("p/" + n);
      r.loader = *CreateDelegatingInputLoader<In>(std::move(inner.loader), [](const In& i) -> const In& { return *i.sub; }, "p/");
    } else if (kind == 5 || kind == 6) {
      Built d = Base(sx_pick("other", 0, 2));
      if (kind == 6) std::swap(inner, d);
      auto f = inner.find, g = d.find;
      r.find = [f, g](const std::string& n) {
        auto v = f(n);
        return v ? v : g(n);
      };
      r.names = inner.names;
      r.names.insert(r.names.end(), d.names.begin(), d.names.end());
      r.loader = *ChainInputLoader<In>::Build(std::move(inner.loader), std::move(d.loader));
    } else if (kind == 7) {
      Built d = Base(sx_pick("second", 0, 2)), e = Base(sx_pick("third", 0, 2));
      std::vector<std::function<std::optional<Val>(const std::string&)>> fs = {inner.find, d.find, e.find};
      r.find = [fs](const std::string& n) -> std::optional<Val> {
        for (auto& f : fs) if (auto v = f(n)) return v;
        return std::nullopt;
      };
      for (auto* x : {&inner, &d, &e}) r.names.insert(r.names.end(), x->names.begin(), x->names.end());
      std::vector<Loader> ls;
      ls.push_back(std::move(inner.loader));
      ls.push_back(std::move(d.loader));
      ls.push_back(std::move(e.loader));
      r.loader = *ChainInputLoader<In>::Build(std::move(ls));
    } else {
      r = std::move(inner);
    }
    b = std::move(r);
  }
  CheckLoader(b);
}
SX_ENTRY(invoke) { // sx: bound=chains_of_3_loaders_with_a_function_of_their_own
  std::vector<Loader> ls;
  std::vector<std::string> names;
  for (int i = 0; i < 3; ++i) {
    names.push_back(std::string(1, 'a' + i));
    ls.push_back(*CreateAccessorsInputLoader<In>(names[i], [i](const In& x) { return x.a ^ i; }));
  }
  auto calls = std::make_shared<std::vector<int>>();
  auto loader = *ChainInputLoader<In>::Build(std::move(ls), [calls](absl::Span<const BoundInputLoader<In>> bound, const In& in, FramePtr frame, RawBufferFactory* f) -> absl::Status {
    calls->push_back(bound.size());
    return ChainInputLoader<In>::InvokeBoundLoaders(bound, in, frame, f);
  });
  FrameLayout::Builder lb;
  Slots slots;
  int bits = sx_pick("asked", 0, 7), n = 0;
  std::vector<TypedSlot> s;
  for (int i = 0; i < 3; ++i) {
    s.push_back(AddSlot(GetQType<int>(), &lb));
    if (bits >> i & 1) { slots.emplace(names[i], s[i]); ++n; }
  }
  FrameLayout layout = std::move(lb).Build();
  auto bound = *loader->Bind(slots);
  MemoryAllocation alloc(&layout);
  In in;
  in.a = sx<int>("a");
  sx_assert(bound(in, alloc.frame()).ok());
  bool ok = true;
  for (int i = 0; i < 3; ++i) ok &= alloc.frame().Get(s[i].UnsafeToSlot<int>()) == (bits >> i & 1 ? in.a ^ i : 0);
  sx_assert(ok);
  sx_assert(n > 1 ? *calls == std::vector<int>{n} : calls->empty());
}
SX_ENTRY(wildcard_keys) { // sx: bound=every_name_of_up_to_5_characters_of_two,_four_formats
  static const char* kPre[] = {"", "a", "ab", "a"};
  static const char* kSuf[] = {"", "", "b", "a"};
  int k = sx_pick("format", 0, 3);
  auto fmt = k == 0 ? absl::ParsedFormat<'s'>("%s") : k == 1 ? absl::ParsedFormat<'s'>("a%s") : k == 2 ? absl::ParsedFormat<'s'>("ab%sb") : absl::ParsedFormat<'s'>("a%sa");
  int n = sx_pick("length", 0, 5);
  std::string name;
  for (int i = 0; i < n; ++i) name += sx_range<char>("char", 'a', 'b');
  auto got = input_loader_impl::MakeNameToKeyFn(fmt)(name);
  size_t p = strlen(kPre[k]), s = strlen(kSuf[k]);
  bool ok = name.size() >= p + s;
  if (ok) {
    for (size_t i = 0; i < p; ++i) ok &= name[i] == kPre[k][i];
    for (size_t i = 0; i < s; ++i) ok &= name[name.size() - s + i] == kSuf[k][i];
  }
  sx_assert(got.has_value() == ok);
  if (got.has_value()) {
    sx_assert(got->size() == name.size() - p - s);
    bool same = true;
    for (size_t i = 0; i < got->size(); ++i) same &= (*got)[i] == name[p + i];
    sx_assert(same);
    sx_reach("a key");
  }
}
SX_ENTRY(wildcard_callback) { // sx: bound=three_keys_of_different_types
  absl::flat_hash_map<std::string, QTypePtr> types = {{"i", GetQType<int>()}, {"o", GetQType<OptInt>()}, {"bad", GetQType<int>()}};
  auto calls = std::make_shared<std::vector<std::string>>();
  auto accessor = [calls](const In& in, const std::string& key, WildcardInputLoaderCallback cb) -> absl::Status {
    calls->push_back(key);
    if (key == "i") return cb(in.a);
    if (key == "o") { OptInt v = in.b; return cb(TypedRef::FromValue(v)); }
    return cb(in.b);  // not the type that was promised
  };
  auto loader = *WildcardInputLoader<In>::BuildFromCallbackAccessorFn(accessor, types, absl::ParsedFormat<'s'>("<%s>"));
  sx_assert((loader->SuggestAvailableNames() == std::vector<std::string>{"<bad>", "<i>", "<o>"}));
  sx_assert(loader->GetQTypeOf("<i>") == GetQType<int>() && loader->GetQTypeOf("<o>") == GetQType<OptInt>() && !loader->GetQTypeOf("i") && !loader->GetQTypeOf("<x>"));
  int bits = sx_pick("asked", 0, 7);
  FrameLayout::Builder lb;
  Slots slots;
  TypedSlot i = AddSlot(GetQType<int>(), &lb), o = AddSlot(GetQType<OptInt>(), &lb), b = AddSlot(GetQType<int>(), &lb);
  if (bits & 1) slots.emplace("<i>", i);
  if (bits & 2) slots.emplace("<o>", o);
  if (bits & 4) slots.emplace("<bad>", b);
  FrameLayout layout = std::move(lb).Build();
  auto bound = loader->Bind(slots);
  sx_assert(bound.ok());
  Inputs data;
  MemoryAllocation alloc(&layout);
  bool ok = (*bound)(data.in, alloc.frame()).ok();
  sx_assert(ok == !(bits & 4));
  if (!ok) return;
  sx_assert(alloc.frame().Get(i.UnsafeToSlot<int>()) == (bits & 1 ? data.in.a : 0));
  sx_assert(Same(alloc.frame().Get(o.UnsafeToSlot<OptInt>()), bits & 2 ? data.in.b : OptInt()));
  sx_assert((int)calls->size() == (bits & 1) + (bits >> 1 & 1));
}
SX_ENTRY(duplicates) { // sx: bound=3_names_of_2
  static const char* kNames[] = {"u", "v"};
  int i = sx_pick("i", 0, 1), j = sx_pick("j", 0, 1), k = sx_pick("k", 0, 1);
  auto f = [](const In& in) { return in.a; };
  auto g = [](int v, Out* o) { o->x = v; };
  bool two = sx_pick("two", 0, 1);
  if (two) {
    sx_assert(CreateAccessorsInputLoader<In>(kNames[i], f, kNames[j], f).ok() == (i != j));
    sx_assert(CreateAccessorsSlotListener<Out>(kNames[i], g, kNames[j], g).ok() == (i != j));
  } else {
    sx_assert(!CreateAccessorsInputLoader<In>(kNames[i], f, kNames[j], f, kNames[k], f).ok());
    sx_assert(CreateAccessorsInputLoader<In>("first", f, kNames[j], f, kNames[k], f).ok() == (j != k));
  }
}
SX_ENTRY(qtypes) { // sx: bound=every_subset_of_names_known_and_unknown
  auto b = Base(0);
  std::vector<std::string> names;
  bool known = true;
  for (auto& n : {"x", "y", "xx", "nothing"}) if (sx_pick("asked", 0, 1)) { names.push_back(n); known &= n[1] == 0; }
  auto r = GetInputLoaderQTypes(*b.loader, names);
  sx_assert(r.ok() == known);
  if (!r.ok()) {
    std::string m(r.status().message());
    for (auto& n : names) if (n.size() > 1) sx_assert(m.find(n) != std::string::npos);
    bool typo = std::count(names.begin(), names.end(), "xx");
    sx_assert((m.find("did you mean: x") != std::string::npos) == typo);
    return;
  }
  sx_assert(r->size() == names.size());
  for (auto& n : names) sx_assert(r->at(n) == b.loader->GetQTypeOf(n));
}
SX_ENTRY(listeners) { // sx: shards=6 timeout=200 bound=compositions_of_depth_2_(prefix,_chain,_wrappers),_every_pair_of_names,_every_value
  std::vector<Listener> keep;
  int kind = sx_pick("outer", 0, 5);
  if (kind != sx_shard(6)) sx_end();
  Heard b = kind <= 1 ? LBase(kind) : LBuild(1, keep);
  if (kind >= 2) {
    Heard r;
    if (kind == 2) {
      r.find = [f = b.find](const std::string& n) {
        std::string s = n;
        std::vector<int> v;
        if (Cut(s, "p/")) v = f(s);
        for (int& x : v) x += 10;
        return v;
      };
      for (auto& n : b.names) r.names.push_back("p/" + n);
      r.listener = *CreateDelegatingSlotListener<Out>(std::move(b.listener), [](Out* o) -> Out* { return o->sub; }, "p/");
    } else if (kind == 3 || kind == 4) {
      Heard d = LBuild(kind == 4 ? 1 : 0, keep);
      r.find = [f = b.find, g = d.find](const std::string& n) {
        auto v = f(n), w = g(n);
        v.insert(v.end(), w.begin(), w.end());
        return v;
      };
      r.names = b.names;
      r.names.insert(r.names.end(), d.names.begin(), d.names.end());
      std::vector<Listener> ls;
      ls.push_back(std::move(b.listener));
      ls.push_back(std::move(d.listener));
      r.listener = *ChainSlotListener<Out>::Build(std::move(ls));
    } else {
      r = std::move(b);
    }
    b = std::move(r);
  }
  std::vector<std::string> known;
  for (auto& n : kOutPool) {
    auto v = b.find(n);
    sx_assert(b.listener->GetQTypeOf(n) == (v.empty() ? nullptr : OutType(v[0])));
    if (!v.empty()) known.push_back(n);
  }
  sx_assert(b.listener->SuggestAvailableNames() == b.names);
  known.push_back("no such name");
  int i = sx_pick("first", 0, (int)known.size() - 1), j = sx_pick("second", i, (int)known.size() - 1);
  bool partial = sx_pick("partial", 0, 1);
  FrameLayout::Builder lb;
  Slots slots;
  bool ok = true;
  std::set<std::string> used;
  for (int k : {i, j}) {
    auto v = b.find(known[k]);
    if (used.count(known[k])) continue;
    used.insert(known[k]);
    bool wrong = !v.empty() && i == j && sx_pick("wrong type", 0, 1);
    slots.emplace(known[k], AddSlot(v.empty() || wrong ? GetQType<float>() : OutType(v[0]), &lb));
    ok &= !wrong & (!v.empty() | partial);
  }
  FrameLayout layout = std::move(lb).Build();
  std::optional<BoundSlotListener<Out>> bound;
  if (partial) {
    auto r = b.listener->PartialBind(slots);
    sx_assert(r.ok() == ok);
    if (!ok) return;
    sx_assert(r->has_value() == !b.find(known[i]).empty());
    if (r->has_value()) bound = std::move(**r);
  } else {
    auto r = b.listener->Bind(slots);
    sx_assert(r.ok() == ok);
    if (!ok) { sx_reach("rejected"); return; }
    bound = std::move(*r);
  }
  b.listener.reset();
  MemoryAllocation alloc(&layout);
  Out out, sub, subsub;
  out.sub = &sub;
  sub.sub = &subsub;
  subsub.sub = &subsub;
  int wx[30] = {}, wz[30] = {};
  OptInt wy[30];
  bool written[30] = {};
  for (auto& [n, s] : slots) {
    if (b.find(n).empty()) continue;
    int x = sx<int>("x");
    bool p = sx<bool>("p");
    if (s.GetType() == GetQType<int>()) alloc.frame().Set(s.UnsafeToSlot<int>(), x);
    else if (s.GetType() == GetQType<bool>()) alloc.frame().Set(s.UnsafeToSlot<bool>(), p);
    else alloc.frame().Set(s.UnsafeToSlot<OptInt>(), OptInt{p, x});
    for (int w : b.find(n)) { sx_assert(w < 30); if (written[w]) return; written[w] = true; wx[w] = x; wz[w] = p; wy[w] = OptInt{p, x}; }
  }
  if (bound) sx_assert((*bound)(alloc.frame(), &out).ok());
  bool good = true;
  Out* os[] = {&out, &sub, &subsub};
  for (int d = 0; d < 3; ++d) {
    good &= os[d]->x == (written[d * 10] ? wx[d * 10] : -1);
    good &= Same(os[d]->y, written[d * 10 + 1] ? wy[d * 10 + 1] : OptInt());
    good &= os[d]->x2 == (written[d * 10 + 2] ? wx[d * 10 + 2] : -1);
    good &= os[d]->z == (written[d * 10 + 3] ? (bool)wz[d * 10 + 3] : false);
  }
  sx_assert(good);
  sx_reach("stored");
}
SX_ENTRY(spans) { // sx: bound=up_to_3_names,_every_subset,_spans_of_up_to_4_elements
  int n = sx_pick("names", 0, 3), m = sx_pick("given", 0, 4), bits = sx_pick("asked", 0, (1 << n) - 1);
  bool opt = sx_pick("optional", 0, 1), refs = sx_pick("refs", 0, 1);
  std::vector<std::string> names;
  std::vector<std::pair<std::string, QTypePtr>> args;
  QTypePtr t = opt ? (QTypePtr)GetQType<OptInt>() : GetQType<int>();
  for (int i = 0; i < n; ++i) { names.push_back(std::string(1, 'c' - i)); args.push_back({names[i], t}); }
  FrameLayout::Builder lb;
  Slots slots;
  std::vector<TypedSlot> s;
  for (int i = 0; i < n; ++i) {
    s.push_back(AddSlot(t, &lb));
    if (bits >> i & 1) slots.emplace(names[i], s[i]);
  }
  FrameLayout layout = std::move(lb).Build();
  MemoryAllocation alloc(&layout);
  std::vector<std::optional<int>> ov;
  std::vector<int> iv;
  std::vector<OptInt> av;
  for (int i = 0; i < m; ++i) {
    int v = sx<int>("v");
    bool p = opt ? sx_pick("present", 0, 1) : true;
    ov.push_back(p ? std::optional<int>(v) : std::nullopt);
    iv.push_back(v);
    av.push_back(p ? OptInt(v) : OptInt());
  }
  absl::Status st;
  std::vector<std::string> suggested;
  if (refs) {
    auto l = CreateTypedRefsInputLoader(args);
    suggested = l->SuggestAvailableNames();
    std::vector<TypedRef> in;
    for (int i = 0; i < m; ++i) in.push_back(opt ? TypedRef::FromValue(av[i]) : TypedRef::FromValue(iv[i]));
    auto b = l->Bind(slots);
    sx_assert(b.ok());
    st = (*b)(in, alloc.frame());
  } else if (opt) {
    auto l = SpanInputLoader<std::optional<int>>::Create(names);
    suggested = l->SuggestAvailableNames();
    for (auto& x : names) sx_assert(l->GetQTypeOf(x) == t);
    auto b = l->Bind(slots);
    sx_assert(b.ok());
    st = (*b)(ov, alloc.frame());
  } else {
    auto l = SpanInputLoader<int>::Create(names);
    suggested = l->SuggestAvailableNames();
    auto b = l->Bind(slots);
    sx_assert(b.ok());
    st = (*b)(iv, alloc.frame());
  }
  sx_assert(suggested == names);
  sx_assert(st.ok() == (n == m || bits == 0));
  if (!st.ok()) { sx_reach("count"); return; }
  bool good = true;
  for (int i = 0; i < n; ++i) good &= Same(GetSlot(alloc.frame(), s[i]), bits >> i & 1 ? av[i] : opt ? OptInt() : OptInt(0));
  sx_assert(good);
}
SX_ENTRY(wrong_refs) { // sx: bound=one_reference_of_another_type
  auto l = CreateTypedRefsInputLoader({{"a", GetQType<int>()}});
  FrameLayout::Builder lb;
  TypedSlot s = AddSlot(GetQType<int>(), &lb);
  FrameLayout layout = std::move(lb).Build();
  MemoryAllocation alloc(&layout);
  auto b = l->Bind({{"a", s}});
  sx_assert(b.ok());
  int i = sx<int>("i");
  OptInt o = i;
  std::vector<TypedRef> in = {sx_pick("good", 0, 1) ? TypedRef::FromValue(i) : TypedRef::FromValue(o)};
  bool ok = (*b)(in, alloc.frame()).ok();
  sx_assert(ok == (in[0].GetType() == GetQType<int>()));
  sx_assert(alloc.frame().Get(s.UnsafeToSlot<int>()) == (ok ? i : 0));
}
SX_ENTRY(tuples) { // sx: bound=tuples_of_3,_up_to_4_names,_every_subset_of_them
  int n = sx_pick("names", 0, 4), bits = sx_pick("asked", 0, 7);
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) names.push_back(std::string(1, 'z' - i));
  auto l = TupleInputLoader<std::tuple<int, OptInt, bool>>::Create(names);
  sx_assert(l.ok() == (n == 3));
  if (n != 3) return;
  FrameLayout::Builder lb;
  TypedSlot s[] = {AddSlot(GetQType<int>(), &lb), AddSlot(GetQType<OptInt>(), &lb), AddSlot(GetQType<bool>(), &lb)};
  FrameLayout layout = std::move(lb).Build();
  MemoryAllocation alloc(&layout);
  Slots slots;
  for (int i = 0; i < 3; ++i) if (bits >> i & 1) slots.emplace(names[i], s[i]);
  auto b = (*l)->Bind(slots);
  sx_assert(b.ok() == (bits == 0 || bits == 7));
  if (bits != 7) return;
  std::tuple<int, OptInt, bool> v(sx<int>("a"), OptInt{sx<bool>("p"), sx<int>("b")}, sx<bool>("c"));
  sx_assert((*b)(v, alloc.frame()).ok());
  sx_assert((GetSlot(alloc.frame(), s[0]).value == std::get<0>(v)) & Same(GetSlot(alloc.frame(), s[1]), std::get<1>(v)) & (GetSlot(alloc.frame(), s[2]).value == std::get<2>(v)));
}

namespace {
struct Rec {
  bool t = false;
  int i = 0;
  float f = 0;
  int64_t l = 0;
  bool t2 = false;
  double d = 0;
  uint64_t u = 0;
  OptInt oi;
  OptionalValue<float> of;
  OptionalValue<int64_t> ol;
  Bytes s;
  OptionalValue<bool> ob;
};
template <class F>
void EachField(F f) {
  f("t", &Rec::t);
  f("i", &Rec::i);
  f("f", &Rec::f);
  f("l", &Rec::l);
  f("t2", &Rec::t2);
  f("d", &Rec::d);
  f("u", &Rec::u);
  f("oi", &Rec::oi);
  f("of", &Rec::of);
  f("ol", &Rec::ol);
  f("s", &Rec::s);
  f("ob", &Rec::ob);
}
template <class T>
T Symbolic() {
  if constexpr (std::is_same_v<T, Bytes>) return Bytes(std::string(3, sx<char>("c")));
  else if constexpr (std::is_same_v<T, float>) return std::bit_cast<float>(sx<int>("f"));
  else if constexpr (std::is_same_v<T, double>) return std::bit_cast<double>(sx<int64_t>("d"));
  else if constexpr (requires { typename T::value_type; }) return T{sx<bool>("p"), Symbolic<typename T::value_type>()};
  else return sx<T>("v");
}
template <class T>
bool SameBits(const T& a, const T& b) {
  if constexpr (std::is_same_v<T, Bytes>) {
    bool r = a.size() == b.size();
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) r &= a[i] == b[i];
    return r;
  } else if constexpr (std::is_same_v<T, float>) return std::bit_cast<int>(a) == std::bit_cast<int>(b);
  else if constexpr (std::is_same_v<T, double>) return std::bit_cast<int64_t>(a) == std::bit_cast<int64_t>(b);
  else if constexpr (requires { a.present; }) return (a.present == b.present) & SameBits(a.value, b.value);
  else return a == b;
}
}  // namespace
SX_ENTRY(structs) { // sx: shards=2 bound=12_fields_of_all_types,_one_or_two_or_all_of_them,_both_directions,_every_value
  bool store = sx_shard(2);
  static Rec base;
  Slots all;
  EachField([&](const char* n, auto m) {
    using T = std::decay_t<decltype(base.*m)>;
    all.emplace(n, TypedSlot::UnsafeFromOffset(GetQType<T>(), (const char*)&(base.*m) - (const char*)&base));
  });
  int i = sx_pick("one", 0, 12), j = sx_pick("other", 0, 12);
  if (j < i) sx_end();
  bool everything = i == 12;
  FrameLayout::Builder lb;
  Slots slots;
  std::vector<TypedSlot> s;
  int k = 0;
  AddSlot(GetQType<bool>(), &lb);
  std::vector<bool> asked;
  EachField([&](const char* n, auto m) {
    using T = std::decay_t<decltype(base.*m)>;
    s.push_back(AddSlot(GetQType<T>(), &lb));
    asked.push_back(everything || k == i || k == j);
    if (asked.back()) slots.emplace(n, s.back());
    ++k;
  });
  FrameLayout layout = std::move(lb).Build();
  MemoryAllocation alloc(&layout);
  Rec rec, old;
  k = 0;
  bool good = true;
  if (!store) {
    auto l = StructInputLoader<Rec>::Create(all);
    sx_assert(l.ok());
    auto b = (*l)->Bind(slots);
    sx_assert(b.ok());
    EachField([&](const char* n, auto m) {
      using T = std::decay_t<decltype(base.*m)>;
      sx_assert((*l)->GetQTypeOf(n) == GetQType<T>());
      rec.*m = Symbolic<T>();
    });
    auto names = (*l)->SuggestAvailableNames();
    sx_assert(names.size() == 12 && std::set<std::string>(names.begin(), names.end()).size() == 12);
    sx_assert((*b)(rec, alloc.frame()).ok());
    EachField([&](const char* n, auto m) {
      using T = std::decay_t<decltype(base.*m)>;
      good &= SameBits(alloc.frame().Get(s[k].UnsafeToSlot<T>()), asked[k] ? rec.*m : T());
      ++k;
    });
    sx_reach("loaded");
  } else {
    auto l = StructSlotListener<Rec>::Create(all);
    sx_assert(l.ok());
    auto b = (*l)->Bind(slots);
    sx_assert(b.ok());
    std::tuple<> dummy;
    EachField([&](const char* n, auto m) {
      using T = std::decay_t<decltype(base.*m)>;
      sx_assert((*l)->GetQTypeOf(n) == GetQType<T>());
      T v = Symbolic<T>();
      alloc.frame().Set(s[k].UnsafeToSlot<T>(), v);
      old.*m = asked[k] ? v : T();
      ++k;
    });
    sx_assert((*b)(alloc.frame(), &rec).ok());
    EachField([&](const char* n, auto m) { good &= SameBits(rec.*m, old.*m); });
    sx_reach("stored");
  }
  sx_assert(good);
}
SX_ENTRY(struct_bounds) { // sx: bound=fields_of_3_types_at_every_offset
  struct P { char c[16]; };
  int off = sx_pick("offset", 0, 20), t = sx_pick("type", 0, 2);
  QTypePtr type = t == 0 ? (QTypePtr)GetQType<bool>() : t == 1 ? (QTypePtr)GetQType<int64_t>() : GetQType<OptionalValue<int64_t>>();
  size_t size = t == 0 ? 1 : t == 1 ? 8 : 16;
  Slots slots = {{"f", TypedSlot::UnsafeFromOffset(type, off)}, {"g", TypedSlot::UnsafeFromOffset(GetQType<bool>(), 0)}};
  sx_assert(StructInputLoader<P>::Create(slots).ok() == (off + size <= 16));
  sx_assert(StructSlotListener<P>::Create(slots).ok() == (off + size <= 16));
}
SX_ENTRY(inplace) { // sx: bound=a_struct_with_a_struct_inside
  struct Pair { int a; OptInt b; };
  struct Nest { double d; Pair p; Pair q; };
  InplaceSlotBuilder<Nest> b;
  sx_assert(AROLLA_ADD_INPLACE_SLOT_FIELD(b, d, "d").ok());
  sx_assert(AROLLA_ADD_INPLACE_SLOT_FIELD(b, q.b, "qb").ok());
  bool dup = sx_pick("duplicate", 0, 1);
  sx_assert(AROLLA_ADD_INPLACE_SLOT_FIELD(b, p.a, dup ? "d" : "pa").ok() == !dup);
  FrameLayout::Builder lb;
  if (sx_pick("first", 0, 1)) lb.AddSlot<bool>();
  auto slot = lb.AddSlot<Nest>();
  auto slots = b.OutputSlots(slot);
  sx_assert(slots.size() == (dup ? 2u : 3u));
  sx_assert(RegisterUnsafeSlotsMap(slots, &lb).ok());
  FrameLayout layout = std::move(lb).Build();
  MemoryAllocation alloc(&layout);
  Nest v;
  v.d = 2.5;
  v.p = {sx<int>("pa"), {true, 1}};
  v.q = {2, {sx<bool>("p"), sx<int>("qb")}};
  alloc.frame().Set(slot, v);
  sx_assert(alloc.frame().Get(slots.at("d").UnsafeToSlot<double>()) == 2.5);
  sx_assert(slots.at("d").GetType() == GetQType<double>() && slots.at("qb").GetType() == GetQType<OptInt>());
  sx_assert(Same(alloc.frame().Get(slots.at("qb").UnsafeToSlot<OptInt>()), v.q.b));
  if (!dup) sx_assert(alloc.frame().Get(slots.at("pa").UnsafeToSlot<int>()) == v.p.a);
}
SX_ENTRY(strings) { // sx: bound=arrays_of_up_to_3_strings
  bool array = sx_pick("array", 0, 1);
  FrameLayout::Builder lb;
  if (!array) {
    auto l = *BytesSlotListener("s");
    TypedSlot s = AddSlot(l->GetQTypeOf("s"), &lb);
    FrameLayout layout = std::move(lb).Build();
    MemoryAllocation alloc(&layout);
    OptionalValue<Bytes> v{(bool)sx_pick("present", 0, 1), Bytes(std::string(2, sx<char>("c")))};
    alloc.frame().Set(s.UnsafeToSlot<OptionalValue<Bytes>>(), v);
    std::string out = "old";
    sx_assert((*l->Bind({{"s", s}}))(alloc.frame(), &out).ok());
    sx_assert(out.size() == (v.present ? 2 : 0));
    if (v.present) sx_assert((out[0] == v.value[0]) & (out[1] == v.value[1]));
    return;
  }
  auto l = *BytesArraySlotListener("s");
  TypedSlot s = AddSlot(l->GetQTypeOf("s"), &lb);
  FrameLayout layout = std::move(lb).Build();
  MemoryAllocation alloc(&layout);
  int n = sx_pick("n", 0, 3);
  std::vector<std::string> want;
  DenseArrayBuilder<Bytes> b(n);
  for (int i = 0; i < n; ++i) {
    bool p = sx_pick("present", 0, 1);
    std::string v(i + 1, sx<char>("c"));
    if (p) b.Set(i, v);
    want.push_back(p ? v : "");
  }
  alloc.frame().Set(s.UnsafeToSlot<DenseArray<Bytes>>(), std::move(b).Build());
  std::vector<std::string> out = {"old", "old"};
  sx_assert((*l->Bind({{"s", s}}))(alloc.frame(), &out).ok());
  sx_assert(out.size() == want.size());
  bool good = true;
  for (int i = 0; i < n; ++i) {
    sx_assert(out[i].size() == want[i].size());
    for (size_t k = 0; k < want[i].size(); ++k) good &= out[i][k] == want[i][k];
  }
  sx_assert(good);
}
// Damerau-Levenshtein distance of at most 1, by trying every edit.
SX_ENTRY(typos) { // sx: shards=6 bound=strings_of_up_to_5_characters_each,_every_value_of_3
  int n = sx_shard(6), m = sx_pick("m", 0, 5);
  std::string a, b;
  for (int i = 0; i < n; ++i) a += sx_range<char>("a", 'a', 'c');
  for (int i = 0; i < m; ++i) b += sx_range<char>("b", 'a', 'c');
  auto equal = [&](auto x, int xn, auto y, int yn) {
    if (xn != yn) return false;
    bool r = true;
    for (int i = 0; i < xn; ++i) r &= x(i) == y(i);
    return r;
  };
  auto A = [&](int i) { return a[i]; };
  auto B = [&](int i) { return b[i]; };
  bool want = equal(A, n, B, m);
  for (int k = 0; k < n; ++k) want |= equal([&](int i) { return a[i < k ? i : i + 1]; }, n - 1, B, m);
  for (int k = 0; k < m; ++k) want |= equal(A, n, [&](int i) { return b[i < k ? i : i + 1]; }, m - 1);
  if (n == m) {
    for (int k = 0; k < n; ++k) want |= equal([&](int i) { return i == k ? b[k] : a[i]; }, n, B, m);
    for (int k = 0; k + 1 < n; ++k) want |= equal([&](int i) { return i == k ? a[k + 1] : i == k + 1 ? a[k] : a[i]; }, n, B, m);
  }
  bool got = IsWithinOneTypo(a, b);
  sx_assert(got == want);
}
SX_ENTRY(truncated) { // sx: bound=strings_of_up_to_9_characters,_limits_of_4_to_10
  int n = sx_pick("n", 0, 9), m = sx_pick("limit", 4, 10);
  std::string a;
  for (int i = 0; i < n; ++i) a += sx<char>("a");
  std::string r = Truncate(a, m);
  sx_assert((int)r.size() == std::min(n, m));
  bool ok = true;
  for (int i = 0; i < (int)r.size(); ++i) ok &= r[i] == (n > m && i >= m - 3 ? '.' : a[i]);
  sx_assert(ok);
}
SX_ENTRY(identifiers) { // sx: bound=strings_of_up_to_5_characters,_every_byte
  int n = sx_pick("n", 0, 5);
  std::string a;
  for (int i = 0; i < n; ++i) a += sx<char>("a");
  auto alpha = [](char c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | (c == '_'); };
  auto digit = [](char c) { return (c >= '0') & (c <= '9'); };
  bool one = n > 0, chain = n > 0;
  for (int i = 0; i < n; ++i) {
    one &= alpha(a[i]) | (i > 0 ? digit(a[i]) : false);
    bool first = i == 0 ? true : a[i - 1] == '.';
    chain &= alpha(a[i]) | ((!first) & digit(a[i])) | ((!first) & (a[i] == '.') & (i + 1 < n));
  }
  sx_assert(IsIdentifier(a) == one);
  sx_assert(IsQualifiedIdentifier(a) == chain);
}
