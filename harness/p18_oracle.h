// Protopaths interpreted over pk::Msg, from the description of the language in protopath.py (Protopath.parse).
#pragma once
#include <cctype>
#include <string_view>

#include "p18_msg.h"

namespace p18 {
using pk::Msg;
struct Seg {
  enum Kind { kField, kAll, kAllKeys, kAllValues, kIndex, kKey, kWild, kRaw, kExt, kBatch } kind;
  std::string name;
  int index = 0;
  std::string key;
  bool multi() const { return kind == kAll || kind == kAllKeys || kind == kAllValues || kind == kBatch; }
};
struct Path {
  std::string text;
  std::vector<Seg> segs;
  bool size = false;
  bool multi() const {
    bool m = false;
    for (size_t i = 0; i + (size ? 1 : 0) < segs.size(); ++i) m |= segs[i].multi();
    return m;
  }
};
inline Seg ParseSeg(std::string s) {
  Seg r{Seg::kField, s};
  auto ends = [&](std::string_view e) { return s.size() >= e.size() && std::string_view(s).substr(s.size() - e.size()) == e; };
  auto cut = [&](size_t n) { return s.substr(0, s.size() - n); };
  if (s.rfind("Ext::pk.", 0) == 0) { r.kind = Seg::kExt; r.name = s.substr(8); return r; }
  if (s.rfind("&::", 0) == 0) { r.kind = Seg::kRaw; r.name = s.substr(3); return r; }
  if (s == "[:]") { r.kind = Seg::kBatch; r.name = ""; return r; }
  if (ends("[:]")) { r.kind = Seg::kAll; r.name = cut(3); return r; }
  if (ends("[:]@key")) { r.kind = Seg::kAllKeys; r.name = cut(7); return r; }
  if (ends("[:]@value")) { r.kind = Seg::kAllValues; r.name = cut(9); return r; }
  if (ends("[*]")) { r.kind = Seg::kWild; r.name = cut(3); return r; }
  if (ends("]")) {
    size_t b = s.find('[');
    r.name = s.substr(0, b);
    if (s[b + 1] == '"' || s[b + 1] == '\'') { r.kind = Seg::kKey; r.key = s.substr(b + 2, s.size() - b - 4); return r; }
    r.kind = Seg::kIndex;
    r.index = s[b + 1] - '0';
  }
  return r;
}
// the alternative spelling `m[:]/@key` is not used here
inline Path Parse(std::string t, std::string_view wild = "") {
  Path p{t};
  size_t i = 0;
  while (i <= t.size()) {
    size_t j = t.find('/', i);
    if (j == std::string::npos) j = t.size();
    std::string s = t.substr(i, j - i);
    if (s.rfind("count(", 0) == 0) { p.size = true; s = s.substr(6, s.size() - 7); }
    p.segs.push_back(ParseSeg(s));
    if (p.segs.back().kind == Seg::kWild) { p.segs.back().kind = Seg::kKey; p.segs.back().key = std::string(wild); }
    i = j + 1;
  }
  return p;
}

// Values of every type as one number.
inline int64_t Code(std::string_view s) { return (int64_t)s.size() * 1000 + (s.empty() ? 0 : s[0]); }
template <class T>
int64_t Code(const T& v) requires std::is_arithmetic_v<T> { return (int64_t)v; }
struct Item {
  bool present;
  int64_t value;
};

// The message a segment leads to; nullptr: missing.
inline const Msg* Step(const Msg& m, const Seg& s) {
  switch (s.kind) {
    case Seg::kField: return m.has_inner() ? &m.inner() : nullptr;
    case Seg::kIndex: return s.index < m.ri().size() ? &m.ri(s.index) : nullptr;
    case Seg::kKey: return m.mi().count(s.key) ? &m.mi().at(s.key) : nullptr;
    // "Some implementations may decide to avoid verifying presence for intermediate accesses": the default message has nothing set
    case Seg::kExt: return &m.GetExtension(pk::emsg);
    default: sx_assert(false); return nullptr;
  }
}
inline Item Read(const Msg& m, const Seg& s) {
  switch (s.kind) {
    case Seg::kField:
      if (s.name == "x") return {m.has_x(), m.x()};
      if (s.name == "y") return {true, m.y()};
      if (s.name == "u") return {m.has_u(), (int64_t)m.u()};
      if (s.name == "str") return {m.has_str(), Code(m.str())};
      break;
    case Seg::kIndex: return s.index < m.rx().size() ? Item{true, m.rx(s.index)} : Item{false, 0};
    case Seg::kKey: return m.mx().count(s.key) ? Item{true, m.mx().at(s.key)} : Item{false, 0};
    case Seg::kExt: return {m.HasExtension(pk::ext), m.GetExtension(pk::ext)};
    default: break;
  }
  sx_assert(false);
  return {};
}
inline std::vector<std::string> SortedKeys(auto& map) {
  std::vector<std::string> k;
  for (auto& [key, _] : map) {
    size_t i = 0;
    while (i < k.size() && k[i] < key) ++i;
    k.insert(k.begin() + i, key);
  }
  return k;
}
inline int Size(const Msg& m, const Seg& s) { return s.name == "rx" ? m.rx().size() : s.name == "ri" ? m.ri().size() : s.name == "mx" ? m.mx().size() : m.mi().size(); }

// Everything the path selects below the message, in order. `tail`: no [:] remains.
inline void ReadAll(const Msg& m, const Path& p, size_t i, std::vector<Item>& out) {
  const Seg& s = p.segs[i];
  bool last = i + 1 == p.segs.size();
  bool tail = true;
  for (size_t j = i; j < p.segs.size() - (p.size ? 1 : 0); ++j) tail &= !p.segs[j].multi();
  if (last && p.size) { out.push_back({true, Size(m, s)}); return; }
  if (s.kind == Seg::kAllKeys) {
    for (auto& k : s.name == "mx" ? SortedKeys(m.mx()) : SortedKeys(m.mi())) out.push_back({true, Code(k)});
  } else if (s.kind == Seg::kAllValues) {
    if (last) for (auto& k : SortedKeys(m.mx())) out.push_back({true, m.mx().at(k)});
    else for (auto& k : SortedKeys(m.mi())) ReadAll(m.mi().at(k), p, i + 1, out);
  } else if (s.kind == Seg::kAll) {
    if (last) for (int v : m.rx()) out.push_back({true, v});
    else for (auto& c : m.ri()) ReadAll(c, p, i + 1, out);
  } else if (s.kind == Seg::kRaw) {
    out.push_back(p.segs[i + 1].name == "x" ? Item{m.raw.has_x(), m.raw.x()} : Item{true, m.raw.z});
  } else if (last) {
    out.push_back(Read(m, s));
  } else if (const Msg* c = Step(m, s)) {
    ReadAll(*c, p, i + 1, out);
  } else if (tail) {
    out.push_back({p.size, 0});  // the size of what is missing is 0
  }
}

// Assigns: what each value of `in` (in the order ReadAll gives) becomes; returns false if a value has no place.
inline void Assign(Msg& m, const Path& p, size_t i, const std::vector<Item>& in, size_t& pos) {
  const Seg& s = p.segs[i];
  bool last = i + 1 == p.segs.size();
  bool tail = true;
  for (size_t j = i; j < p.segs.size() - (p.size ? 1 : 0); ++j) tail &= !p.segs[j].multi();
  if (!tail) {  // nothing is created on the way to the last [:]
    if (s.kind == Seg::kAll) for (auto& c : *m.mutable_ri()) Assign(c, p, i + 1, in, pos);
    else if (s.kind == Seg::kAllValues) for (auto& k : SortedKeys(m.mi())) Assign(m.mutable_mi()->at(k), p, i + 1, in, pos);
    else if (s.kind == Seg::kField) { if (m.has_inner()) Assign(*m.mutable_inner(), p, i + 1, in, pos); }
    else if (s.kind == Seg::kIndex) { if (s.index < m.ri().size()) Assign(*m.mutable_ri(s.index), p, i + 1, in, pos); }
    else sx_assert(false);
    return;
  }
  if (last || s.kind == Seg::kRaw) {
    Item it = in[pos++];
    sx_concretize(it.present);
    if (!it.present) return;
    int64_t v = it.value;
    if (p.size) {
      auto& r = *m.mutable_ri();
      while (r.size() > v) r.erase(r.end() - 1, r.end());
      while (r.size() < v) r.Add();
      return;
    }
    switch (s.kind) {
      case Seg::kField:
        if (s.name == "x") m.set_x((int)v);
        else if (s.name == "y") m.set_y(v);
        else if (s.name == "u") m.set_u((uint32_t)v);
        else m.set_str(v == 0 ? "" : std::string(v / 1000, (char)(v % 1000)));
        break;
      case Seg::kIndex: if (s.index < m.rx().size()) m.set_rx(s.index, (int)v); break;
      case Seg::kKey: (*m.mutable_mx())[s.key] = (int)v; break;
      case Seg::kExt: m.SetExtension(pk::ext, (int)v); break;
      case Seg::kRaw: if (p.segs[i + 1].name == "x") m.raw.set_x((int)v); else m.raw.z = (int)v; break;
      default: sx_assert(false);
    }
    return;
  }
  bool present = in[pos].present;
  sx_concretize(present);
  if (!present) { ++pos; return; }
  switch (s.kind) {
    case Seg::kField: return Assign(*m.mutable_inner(), p, i + 1, in, pos);
    case Seg::kKey: return Assign((*m.mutable_mi())[s.key], p, i + 1, in, pos);
    case Seg::kExt: return Assign(*m.MutableExtension(pk::emsg), p, i + 1, in, pos);
    case Seg::kIndex:
      if (s.index < m.ri().size()) return Assign(*m.mutable_ri(s.index), p, i + 1, in, pos);
      ++pos;
      return;
    default: sx_assert(false);
  }
}

// Paths that begin with the slice of the input itself.
inline void ReadAll(const pk::Batch& b, const Path& p, size_t, std::vector<Item>& out) {
  if (p.size && p.segs.size() == 1) { out.push_back({true, b.size()}); return; }
  for (auto& m : b) ReadAll(m, p, 1, out);
}
inline void Assign(pk::Batch& b, const Path& p, size_t, const std::vector<Item>& in, size_t& pos) {
  for (auto& m : b) Assign(m, p, 1, in, pos);
}

// Equality of everything a message holds.
inline bool Equal(const Msg& a, const Msg& b) {
  bool r = (a.has_x() == b.has_x()) & (a.x() == b.x()) & (a.y() == b.y()) & (a.has_u() == b.has_u()) & (a.u() == b.u()) & (a.has_str() == b.has_str()) &
           (a.HasExtension(pk::ext) == b.HasExtension(pk::ext)) & (a.GetExtension(pk::ext) == b.GetExtension(pk::ext)) & (a.raw.has_x() == b.raw.has_x()) & (a.raw.x() == b.raw.x()) &
           (a.raw.z == b.raw.z) & (a.has_inner() == b.has_inner()) & (a.HasExtension(pk::emsg) == b.HasExtension(pk::emsg)) & (a.rx().size() == b.rx().size()) &
           (a.ri().size() == b.ri().size()) & (a.mx().size() == b.mx().size()) & (a.mi().size() == b.mi().size()) & (a.str() == b.str());
  if (a.has_inner() && b.has_inner()) r &= Equal(a.inner(), b.inner());
  if (a.HasExtension(pk::emsg) && b.HasExtension(pk::emsg)) r &= Equal(a.GetExtension(pk::emsg), b.GetExtension(pk::emsg));
  for (int i = 0; i < a.rx().size() && i < b.rx().size(); ++i) r &= a.rx(i) == b.rx(i);
  for (int i = 0; i < a.ri().size() && i < b.ri().size(); ++i) r &= Equal(a.ri(i), b.ri(i));
  for (auto& [k, v] : a.mx()) r &= b.mx().count(k) ? b.mx().at(k) == v : false;
  for (auto& [k, v] : a.mi()) r &= b.mi().count(k) ? Equal(b.mi().at(k), v) : false;
  return r;
}

// Fills what the paths look at: presence, sizes and values are the solver's.
using Tails = std::vector<std::pair<const Path*, size_t>>;
inline int g_max_size = 2;
inline bool g_concrete_presence = false;
inline int g_uniform = -1;  // 0, 1: every size and presence alike
inline int Pick(const char* n, int lo, int hi) { return g_uniform >= 0 ? std::min(hi, g_uniform) : sx_pick(n, lo, hi); }
inline bool Has(const char* n) { return g_concrete_presence ? (bool)Pick(n, 0, 1) : sx<bool>(n); }
inline void Fill(Msg& m, const Tails& tails);
inline void FillMap(Msg& m, bool msgs, const Tails& sub) {
  static const std::vector<std::vector<const char*>> kKeys = {{}, {"k"}, {"l", "k"}, {"l"}};
  for (const char* k : kKeys[Pick("keys", 0, g_max_size > 1 ? 3 : 1)]) {
    if (msgs) Fill((*m.mutable_mi())[k], sub);
    else (*m.mutable_mx())[k] = sx<int>("value");
  }
}
inline void Fill(Msg& m, const Tails& tails) {
  std::vector<std::pair<std::string, Tails>> groups;
  for (auto [p, i] : tails) {
    const Seg& s = p->segs[i];
    std::string f = s.kind == Seg::kExt ? "Ext " + s.name : s.kind == Seg::kRaw ? "raw" : s.name;
    size_t g = 0;
    while (g < groups.size() && groups[g].first != f) ++g;
    if (g == groups.size()) groups.push_back({f, {}});
    if (i + 1 < p->segs.size()) groups[g].second.push_back({p, i + 1});
  }
  for (auto& [f, sub] : groups) {
    if (f == "x") { if (bool h = Has("has_x")) m.set_x(sx<int>("x")); }
    else if (f == "y") m.set_y(sx<int64_t>("y"));
    else if (f == "u") { if (Has("has_u")) m.set_u(sx<uint32_t>("u")); }
    else if (f == "str") { int k = Pick("str", 0, 2); if (k) m.set_str(k == 1 ? "" : "cc"); }
    else if (f == "raw") { if (Has("has_raw_x")) m.raw.set_x(sx<int>("raw.x")); m.raw.z = sx<int>("raw.z"); }
    else if (f == "Ext ext") { if (Has("has_ext")) m.SetExtension(pk::ext, sx<int>("ext")); }
    else if (f == "Ext emsg") { if (Pick("has_emsg", 0, 1)) Fill(*m.MutableExtension(pk::emsg), sub); }
    else if (f == "inner") { if (Pick("has_inner", 0, 1)) Fill(*m.mutable_inner(), sub); }
    else if (f == "rx") { int n = Pick("size_rx", 0, g_max_size); for (int i = 0; i < n; ++i) m.mutable_rx()->Add(sx<int>("rx")); }
    else if (f == "ri") { int n = Pick("size_ri", 0, g_max_size); for (int i = 0; i < n; ++i) Fill(*m.mutable_ri()->Add(), sub); }
    else if (f == "mx") FillMap(m, false, sub);
    else if (f == "mi") FillMap(m, true, sub);
    else sx_assert(false);
  }
}
inline bool Equal(const pk::Batch& a, const pk::Batch& b) {
  bool r = a.size() == b.size();
  for (int i = 0; i < a.size() && i < b.size(); ++i) r &= Equal(a[i], b[i]);
  return r;
}
template <class M>
M Filled(const Path& p) {
  M m;
  if constexpr (std::is_same_v<M, Msg>) Fill(m, {{&p, 0}});
  else {
    int n = sx_pick("size", 0, g_max_size);
    for (int i = 0; i < n; ++i) {
      auto* c = m.Add();
      if (p.segs.size() > 1) Fill(*c, {{&p, 1}});
    }
  }
  return m;
}
}  // namespace p18
