#pragma once
#include "absl/sx/base.h"
#include "absl/sx/strings.h"
#include "absl/sx/misc.h"
#include <map>
#include <set>
#include <deque>
#include <array>
#include <list>
#include <unordered_map>
#include <unordered_set>
#include <numeric>
namespace absl {
// --- hashing
class HashState {
 public:
  uint64_t v = 0x9E3779B97F4A7C15ull;
  static HashState Create(HashState* h) { return *h; }
  void mix(uint64_t x) { v = (v ^ x) * 0x9ddfea08eb382d69ull; v ^= v >> 29; }
  static HashState combine(HashState h) { return h; }
  template <class T, class... R> static HashState combine(HashState h, const T& t, const R&... r) { return combine(AbslDispatch(std::move(h), t), r...); }
  template <class T> static HashState combine_contiguous(HashState h, const T* p, size_t n) { for (size_t i = 0; i < n; i++) h = AbslDispatch(std::move(h), p[i]); return h; }
  template <class It> static HashState combine_unordered(HashState h, It b, It e) { uint64_t s = 0; for (; b != e; ++b) { HashState q; s += AbslDispatch(q, *b).v; } h.mix(s); return h; }
  template <class T> static HashState AbslDispatch(HashState h, const T& t) {
    if constexpr (requires { typename T::absl_container_hash; } && !requires { AbslHashValue(std::move(h), t); }) { h.mix(typename T::absl_container_hash()(t)); return h; }
    else if constexpr (requires { AbslHashValue(std::move(h), t); }) return AbslHashValue(std::move(h), t);
    else if constexpr (std::is_enum_v<T> || std::is_integral_v<T>) { h.mix((uint64_t)t); return h; }
    else if constexpr (std::is_floating_point_v<T>) { uint64_t b = 0; double d = t; if (d != 0) memcpy(&b, &d, 8); h.mix(b); return h; }
    else if constexpr (std::is_pointer_v<T>) { h.mix((uint64_t)t); return h; }
    else if constexpr (std::is_convertible_v<const T&, string_view>) { string_view s = t; for (char c : s) h.mix((unsigned char)c); h.mix(s.size()); return h; }
    else if constexpr (requires { t.get(); t.use_count(); } || requires { t.get(); t.release(); }) { h.mix((uint64_t)t.get()); return h; }
    else if constexpr (requires { t.hash_code(); }) { h.mix(t.hash_code()); return h; }
    else if constexpr (requires { t.has_value(); *t; }) { h.mix(t.has_value()); return t.has_value() ? AbslDispatch(std::move(h), *t) : h; }
    else if constexpr (requires { t.first; t.second; }) return combine(std::move(h), t.first, t.second);
    else if constexpr (requires { t.index(); std::visit([](const auto&) {}, t); }) { h.mix(t.index()); std::visit([&](const auto& x) { h = AbslDispatch(std::move(h), x); }, t); return h; }
    else if constexpr (requires { t.begin(); t.end(); }) { uint64_t n = 0; for (const auto& x : t) { h = AbslDispatch(std::move(h), x); n++; } h.mix(n); return h; }
    else if constexpr (requires { std::tuple_size<T>::value; }) { std::apply([&](const auto&... x) { h = combine(std::move(h), x...); }, t); return h; }
    else if constexpr (requires { t == nullptr; }) { h.mix(0); return h; }
    else { static_assert(sizeof(T) == 0, "no hash"); return h; }
  }
};
template <class T> struct Hash { size_t operator()(const T& t) const { HashState h; return HashState::AbslDispatch(h, t).v; } };
template <class... T> size_t HashOf(const T&... t) { return HashState::combine(HashState(), t...).v; }
template <class T> struct DefaultHash : Hash<T> {};
struct SxStrHash { using is_transparent = void; size_t operator()(string_view s) const { return Hash<string_view>()(s); } };
struct SxStrEq { using is_transparent = void; bool operator()(string_view a, string_view b) const { return a == b; } };
template <class T, class = void> struct SxHE { using H = Hash<T>; struct E { using is_transparent = void; template <class A, class B> bool operator()(const A& a, const B& b) const { return a == b; } }; };
template <> struct SxHE<std::string> { using H = SxStrHash; using E = SxStrEq; };
template <> struct SxHE<string_view> { using H = SxStrHash; using E = SxStrEq; };
template <class T> struct SxHE<T, std::void_t<typename T::absl_container_hash>> { using H = typename T::absl_container_hash; struct E { using is_transparent = void; template <class A, class B> bool operator()(const A& a, const B& b) const { if constexpr (requires { typename T::absl_container_eq; }) return typename T::absl_container_eq()(a, b); else return a == b; } }; };
template <class T> using SxPtr = const void*;
template <class P> struct SxHEPtr { struct H { using is_transparent = void; template <class Q> size_t operator()(const Q& q) const { if constexpr (std::is_pointer_v<Q>) return Hash<const void*>()(q); else return Hash<const void*>()(q.get()); } }; struct E { using is_transparent = void; template <class A, class B> bool operator()(const A& a, const B& b) const { return p(a) == p(b); } template <class Q> static const void* p(const Q& q) { if constexpr (std::is_pointer_v<Q>) return q; else return q.get(); } }; };
template <class T, class D> struct SxHE<std::unique_ptr<T, D>> : SxHEPtr<T> {};
template <class T> struct SxHE<std::shared_ptr<T>> : SxHEPtr<T> {};

// Insertion-ordered chained hash table. Up to 24 elements it is one chain, so symbolic
// keys are compared one by one and never index memory.
template <class Key, class Value, class KeyOf, class H, class E, class VT>
class SxTable {
 protected:
  struct Node { VT v; Node *prev, *next, *chain; size_t hash; template <class... A> Node(A&&... a) : v(std::forward<A>(a)...) {} };
  Node *head_ = nullptr, *tail_ = nullptr; size_t n_ = 0; std::vector<Node*> b_; Node* one_ = nullptr; H h_; E e_;
  template <class K> Node* lookup(const K& k) const {
    if (b_.empty()) { for (Node* p = head_; p; p = p->next) if (e_(KeyOf::key(p->v), k)) return p; return nullptr; }
    size_t h = h_(k); for (Node* p = b_[h % b_.size()]; p; p = p->chain) if (e_(KeyOf::key(p->v), k)) return p; return nullptr;
  }
  void link(Node* p) {
    p->next = nullptr; p->prev = tail_; (tail_ ? tail_->next : head_) = p; tail_ = p; n_++;
    if (b_.empty() ? n_ > 24 : n_ > b_.size() * 2) rehash_(n_ * 4 + 1); else if (!b_.empty()) { p->hash = h_(KeyOf::key(p->v)); Node*& s = b_[p->hash % b_.size()]; p->chain = s; s = p; }
  }
  void rehash_(size_t m) { b_.assign(m, nullptr); for (Node* p = head_; p; p = p->next) { p->hash = h_(KeyOf::key(p->v)); Node*& s = b_[p->hash % m]; p->chain = s; s = p; } }
  void unlink(Node* p) {
    if (!b_.empty()) { Node** s = &b_[p->hash % b_.size()]; while (*s != p) s = &(*s)->chain; *s = p->chain; }
    (p->prev ? p->prev->next : head_) = p->next; (p->next ? p->next->prev : tail_) = p->prev; n_--;
  }
 public:
  using key_type = Key; using value_type = VT; using size_type = size_t; using difference_type = ptrdiff_t; using hasher = H; using key_equal = E; using reference = VT&; using const_reference = const VT&; using pointer = VT*; using const_pointer = const VT*; using allocator_type = std::allocator<VT>;
  template <bool C> struct It {
    using iterator_category = std::forward_iterator_tag; using value_type = VT; using difference_type = ptrdiff_t; using reference = std::conditional_t<C, const VT&, VT&>; using pointer = std::conditional_t<C, const VT*, VT*>;
    Node* p = nullptr; It() {} explicit It(Node* q) : p(q) {} template <bool D> requires (C && !D) It(const It<D>& o) : p(o.p) {}
    reference operator*() const { return p->v; } pointer operator->() const { return &p->v; } It& operator++() { p = p->next; return *this; } It operator++(int) { It t = *this; p = p->next; return t; }
    friend bool operator==(const It& a, const It& b) { return a.p == b.p; }
  };
  using const_iterator = It<true>; using iterator = std::conditional_t<std::is_same_v<Key, VT>, const_iterator, It<false>>; 
  struct node_type { std::optional<std::conditional_t<std::is_same_v<Key, VT>, Key, std::pair<Key, Value>>> v; bool empty() const { return !v; } explicit operator bool() const { return !!v; } auto& value() { return *v; } auto& key() { return v->first; } auto& mapped() { return v->second; } };
  SxTable() {} explicit SxTable(size_t) {}
  SxTable(const SxTable& o) { for (Node* p = o.head_; p; p = p->next) link(new Node(p->v)); }
  SxTable(SxTable&& o) noexcept { swap(o); }
  SxTable& operator=(const SxTable& o) { if (this != &o) { SxTable t(o); swap(t); } return *this; }
  SxTable& operator=(SxTable&& o) noexcept { SxTable t(std::move(o)); swap(t); return *this; }
  SxTable(std::initializer_list<VT> l) { for (auto& x : l) insert(x); }
  template <class I> SxTable(I b, I e) { for (; b != e; ++b) insert(*b); }
  ~SxTable() { clear(); }
  void swap(SxTable& o) noexcept { std::swap(head_, o.head_); std::swap(tail_, o.tail_); std::swap(n_, o.n_); b_.swap(o.b_); }
  void clear() { for (Node* p = head_; p;) { Node* q = p->next; delete p; p = q; } head_ = tail_ = nullptr; n_ = 0; b_.clear(); }
  size_t size() const { return n_; } bool empty() const { return n_ == 0; } void reserve(size_t) {} size_t capacity() const { return n_; } void rehash(size_t) {} size_t bucket_count() const { return n_; } float load_factor() const { return 0.5f; }
  iterator begin() { return iterator(head_); } iterator end() { return iterator(nullptr); } const_iterator begin() const { return const_iterator(head_); } const_iterator end() const { return const_iterator(nullptr); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  template <class K = Key> iterator find(const K& k) { return iterator(lookup(k)); } template <class K = Key> const_iterator find(const K& k) const { return const_iterator(lookup(k)); }
  template <class K = Key> bool contains(const K& k) const { return lookup(k) != nullptr; } template <class K = Key> size_t count(const K& k) const { return lookup(k) ? 1 : 0; }
  std::pair<iterator, bool> insert(const VT& v) { if (Node* p = lookup(KeyOf::key(v))) return {iterator(p), false}; Node* p = new Node(v); link(p); return {iterator(p), true}; }
  std::pair<iterator, bool> insert(VT&& v) { if (Node* p = lookup(KeyOf::key(v))) return {iterator(p), false}; Node* p = new Node(std::move(v)); link(p); return {iterator(p), true}; }
  template <class U> requires (std::is_constructible_v<VT, U&&> && !std::is_same_v<std::remove_cvref_t<U>, VT>) std::pair<iterator, bool> insert(U&& u) { return emplace(std::forward<U>(u)); }
  iterator insert(const_iterator, const VT& v) { return insert(v).first; }
  template <class I> requires requires(I i) { *i; ++i; } void insert(I b, I e) { for (; b != e; ++b) insert(*b); }
  void insert(std::initializer_list<VT> l) { for (auto& x : l) insert(x); }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) { Node* q = new Node(std::forward<A>(a)...); if (Node* p = lookup(KeyOf::key(q->v))) { delete q; return {iterator(p), false}; } link(q); return {iterator(q), true}; }
  template <class... A> iterator emplace_hint(const_iterator, A&&... a) { return emplace(std::forward<A>(a)...).first; }
  iterator erase(const_iterator b, const_iterator e) { auto* p = b.p; while (p != e.p) { auto* q = p->next; unlink(p); delete p; p = q; } return iterator(p); }
  void erase(const_iterator i) { unlink(i.p); delete i.p; } void erase(iterator i) requires (!std::is_same_v<iterator, const_iterator>) { unlink(i.p); delete i.p; }
  template <class K = Key> requires (!std::is_convertible_v<K, iterator> && !std::is_convertible_v<K, const_iterator>) size_t erase(const K& k) { Node* p = lookup(k); if (!p) return 0; unlink(p); delete p; return 1; }
  hasher hash_function() const { return h_; } key_equal key_eq() const { return e_; }
  friend void swap(SxTable& a, SxTable& b) noexcept { a.swap(b); }
};
template <class K, class V> struct SxMapKey { static const K& key(const std::pair<const K, V>& p) { return p.first; } template <class A, class B> static const A& key(const std::pair<A, B>& p) { return p.first; } };
template <class K> struct SxSetKey { template <class T> static const T& key(const T& k) { return k; } };
template <class K, class V, class H = typename SxHE<K>::H, class E = typename SxHE<K>::E, class A = void>
class flat_hash_map : public SxTable<K, V, SxMapKey<K, V>, H, E, std::pair<const K, V>> {
  using B = SxTable<K, V, SxMapKey<K, V>, H, E, std::pair<const K, V>>;
 public:
  using mapped_type = V; using typename B::iterator; using typename B::const_iterator; using B::B; flat_hash_map() {} template <class Q> requires (!std::is_same_v<Q, std::pair<const K, V>> && std::is_same_v<Q, std::pair<K, V>>) flat_hash_map(std::initializer_list<Q> l) { for (auto& x : l) this->emplace(x.first, x.second); }
  template <class Q = K> V& operator[](const Q& k) { if (auto* p = this->lookup(k)) return p->v.second; auto* p = new typename B::Node(std::piecewise_construct, std::forward_as_tuple(k), std::tuple<>()); this->link(p); return p->v.second; }
  V& operator[](K&& k) { if (auto* p = this->lookup(k)) return p->v.second; auto* p = new typename B::Node(std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::tuple<>()); this->link(p); return p->v.second; }
  template <class Q = K> V& at(const Q& k) { auto* p = this->lookup(k); if (!p) ::sx_fail("flat_hash_map::at"); return p->v.second; }
  template <class Q = K> const V& at(const Q& k) const { auto* p = this->lookup(k); if (!p) ::sx_fail("flat_hash_map::at"); return p->v.second; }
  template <class Q = K, class... X> std::pair<iterator, bool> try_emplace(Q&& k, X&&... x) { if (auto* p = this->lookup(k)) return {iterator(p), false}; auto* p = new typename B::Node(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<X>(x)...)); this->link(p); return {iterator(p), true}; }
  template <class Q = K, class X = V> std::pair<iterator, bool> insert_or_assign(Q&& k, X&& x) { if (auto* p = this->lookup(k)) { p->v.second = std::forward<X>(x); return {iterator(p), false}; } return this->emplace(std::forward<Q>(k), std::forward<X>(x)); }
  typename B::node_type extract(const_iterator i) { typename B::node_type n; n.v.emplace(std::move(const_cast<K&>(i.p->v.first)), std::move(i.p->v.second)); this->erase(i); return n; }
  template <class Q> requires (!std::is_convertible_v<Q, const_iterator>) typename B::node_type extract(const Q& q) { auto* p = this->lookup(q); if (!p) return {}; return extract(const_iterator(p)); }
  void merge(flat_hash_map&& o) { merge(o); }
  void merge(flat_hash_map& o) { for (auto it = o.begin(); it != o.end();) { auto c = it++; if (!this->contains(c->first)) { this->emplace(c->first, std::move(c->second)); o.erase(c); } } }
  friend bool operator==(const flat_hash_map& a, const flat_hash_map& b) { if (a.size() != b.size()) return false; for (auto& p : a) { auto it = b.find(p.first); if (it == b.end() || !(it->second == p.second)) return false; } return true; }
};
template <class K, class H = typename SxHE<K>::H, class E = typename SxHE<K>::E, class A = void>
class flat_hash_set : public SxTable<K, K, SxSetKey<K>, H, E, K> {
  using B = SxTable<K, K, SxSetKey<K>, H, E, K>;
 public:
  using B::B; flat_hash_set() {}
  typename B::node_type extract(typename B::const_iterator i) { typename B::node_type n; n.v.emplace(std::move(const_cast<K&>(*i))); this->erase(i); return n; }
  friend bool operator==(const flat_hash_set& a, const flat_hash_set& b) { if (a.size() != b.size()) return false; for (auto& p : a) if (!b.contains(p)) return false; return true; }
};
template <class K, class V, class... R> using node_hash_map = flat_hash_map<K, V, R...>;
template <class K, class... R> using node_hash_set = flat_hash_set<K, R...>;
template <class M, class P> size_t erase_if(M& m, P p) { size_t n = 0; for (auto i = m.begin(); i != m.end();) { auto c = i++; if (p(*c)) { m.erase(c); n++; } } return n; }
template <class K, class V, class C = std::less<>> using btree_map = std::map<K, V, C>;
template <class K, class C = std::less<>> using btree_set = std::set<K, C>;

template <class T, size_t N, class A = std::allocator<T>> class InlinedVector : public std::vector<T> {
 public: using std::vector<T>::vector; InlinedVector() {} InlinedVector(const std::vector<T>& v) : std::vector<T>(v) {}
  template <class I> InlinedVector(I b, I e) requires requires { *b; } : std::vector<T>(b, e) {}
  template <class H> friend H AbslHashValue(H h, const InlinedVector& v) { return H::combine(H::combine_contiguous(std::move(h), v.data(), v.size()), v.size()); }
};
template <class T, size_t N> class InlinedVector<T, N, void>;
template <class T, size_t N = 0, class A = std::allocator<T>> class FixedArray {
 public:
  using value_type = T; using iterator = T*; using const_iterator = const T*; using size_type = size_t; using reference = T&; using const_reference = const T&; using difference_type = ptrdiff_t; using pointer = T*; using const_pointer = const T*;
  explicit FixedArray(size_t n) : n_(n), p_((T*)::operator new(n * sizeof(T))) { for (size_t i = 0; i < n; i++) { if constexpr (std::is_trivially_default_constructible_v<T>) new (p_ + i) T; else new (p_ + i) T(); } }
  FixedArray(size_t n, const T& v) : n_(n), p_((T*)::operator new(n * sizeof(T))) { for (size_t i = 0; i < n; i++) new (p_ + i) T(v); }
  FixedArray(std::initializer_list<T> l) : FixedArray(l.begin(), l.end()) {}
  template <class I> requires requires(I i) { *i; } FixedArray(I b, I e) : n_(std::distance(b, e)), p_((T*)::operator new(n_ * sizeof(T))) { size_t i = 0; for (; b != e; ++b) new (p_ + i++) T(*b); }
  FixedArray(const FixedArray& o) : FixedArray(o.begin(), o.end()) {}
  ~FixedArray() { for (size_t i = 0; i < n_; i++) p_[i].~T(); ::operator delete(p_); }
  size_t size() const { return n_; } bool empty() const { return !n_; } T* data() { return p_; } const T* data() const { return p_; } T* begin() { return p_; } T* end() { return p_ + n_; } const T* begin() const { return p_; } const T* end() const { return p_ + n_; }
  T& operator[](size_t i) { assert(i < n_); return p_[i]; } const T& operator[](size_t i) const { assert(i < n_); return p_[i]; } T& back() { return p_[n_ - 1]; } T& front() { return p_[0]; } void fill(const T& v) { for (auto& x : *this) x = v; }
 private: size_t n_; T* p_;
};
// --- algorithm/container.h
template <class C> void c_sort(C& c) { std::sort(std::begin(c), std::end(c)); }
template <class C, class F> void c_sort(C& c, F f) { std::sort(std::begin(c), std::end(c), f); }
template <class C, class F> void c_stable_sort(C& c, F f) { std::stable_sort(std::begin(c), std::end(c), f); }
template <class C, class T> auto c_find(C& c, const T& t) { return std::find(std::begin(c), std::end(c), t); }
template <class C, class T> auto c_find(const C& c, const T& t) { return std::find(std::begin(c), std::end(c), t); }
template <class C, class F> auto c_find_if(C& c, F f) { return std::find_if(std::begin(c), std::end(c), f); }
template <class C, class F> bool c_any_of(const C& c, F f) { return std::any_of(std::begin(c), std::end(c), f); }
template <class C, class F> bool c_all_of(const C& c, F f) { return std::all_of(std::begin(c), std::end(c), f); }
template <class C, class F> bool c_none_of(const C& c, F f) { return std::none_of(std::begin(c), std::end(c), f); }
template <class C, class T> bool c_contains(const C& c, const T& t) { return std::find(std::begin(c), std::end(c), t) != std::end(c); }
template <class C, class T> bool c_linear_search(const C& c, const T& t) { return c_contains(c, t); }
template <class C, class T> auto c_count(const C& c, const T& t) { return std::count(std::begin(c), std::end(c), t); }
template <class C, class T> T c_accumulate(const C& c, T t) { return std::accumulate(std::begin(c), std::end(c), t); }
template <class C, class T, class F> T c_accumulate(const C& c, T t, F f) { return std::accumulate(std::begin(c), std::end(c), t, f); }
template <class A, class B> bool c_equal(const A& a, const B& b) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
template <class A, class B, class P> bool c_equal(const A& a, const B& b, P p) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b), p); }
template <class C, class O> O c_copy(const C& c, O o) { return std::copy(std::begin(c), std::end(c), o); }
template <class C, class O> O c_move(C&& c, O o) { return std::move(std::begin(c), std::end(c), o); }
template <class C, class O, class F> O c_transform(const C& c, O o, F f) { return std::transform(std::begin(c), std::end(c), o, f); }
template <class A, class B, class O> O c_set_difference(const A& a, const B& b, O o) { return std::set_difference(std::begin(a), std::end(a), std::begin(b), std::end(b), o); }
template <class C> auto c_adjacent_find(C& c) { return std::adjacent_find(std::begin(c), std::end(c)); }
template <class C, class F> auto c_adjacent_find(C& c, F f) { return std::adjacent_find(std::begin(c), std::end(c), f); }
template <class C> bool c_is_sorted(const C& c) { return std::is_sorted(std::begin(c), std::end(c)); }
template <class C> auto c_max_element(C& c) { return std::max_element(std::begin(c), std::end(c)); }
template <class C> auto c_min_element(C& c) { return std::min_element(std::begin(c), std::end(c)); }
template <class C, class T> void c_fill(C& c, const T& t) { std::fill(std::begin(c), std::end(c), t); }
template <class C, class T> void c_iota(C& c, T t) { std::iota(std::begin(c), std::end(c), t); }
template <class C, class F> F c_for_each(C&& c, F f) { return std::for_each(std::begin(c), std::end(c), f); }
template <class C, class T> auto c_lower_bound(C& c, const T& t) { return std::lower_bound(std::begin(c), std::end(c), t); }
template <class C> void c_reverse(C& c) { std::reverse(std::begin(c), std::end(c)); }
template <class C, class T> bool c_binary_search(const C& c, const T& t) { return std::binary_search(std::begin(c), std::end(c), t); }
}  // namespace absl
