#pragma once
#include "absl/sx/base.h"
#include <span>
namespace absl {
template <class C, class T> concept SxSpanOk = requires(C& c) { c.size(); requires std::is_convertible_v<std::remove_pointer_t<decltype(c.data())> (*)[], T (*)[]>; };
template <class T>
class Span {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using pointer = T*; using const_pointer = const T*; using reference = T&; using const_reference = const T&;
  using iterator = T*; using const_iterator = const T*; using reverse_iterator = std::reverse_iterator<iterator>; using const_reverse_iterator = std::reverse_iterator<const_iterator>; using size_type = size_t; using difference_type = ptrdiff_t;
  using absl_internal_is_view = std::true_type;
  static constexpr size_t npos = ~(size_t)0;
  constexpr Span() : p_(nullptr), n_(0) {}
  constexpr Span(T* p, size_t n) : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template <class C> requires (!std::is_same_v<std::remove_cvref_t<C>, Span> && std::is_const_v<T> && SxSpanOk<const C, T>) constexpr Span(const C& c) : p_(c.data()), n_(c.size()) {}
  template <class C> requires (!std::is_same_v<std::remove_cvref_t<C>, Span> && !std::is_const_v<T> && SxSpanOk<C, T>) constexpr explicit Span(C& c) : p_(c.data()), n_(c.size()) {}
  template <class U> requires (std::is_same_v<const U, T> && !std::is_same_v<U, T>) constexpr Span(Span<U> s) : p_(s.data()), n_(s.size()) {}
  template <class V = T> requires (std::is_const_v<V>) constexpr Span(std::initializer_list<value_type> l) : p_(l.begin()), n_(l.size()) {}
  constexpr T* data() const { return p_; } constexpr size_t size() const { return n_; } constexpr size_t length() const { return n_; } constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { assert(i < n_); return p_[i]; }
  constexpr T& at(size_t i) const { assert(i < n_); return p_[i]; }
  constexpr T& front() const { assert(n_); return p_[0]; } constexpr T& back() const { assert(n_); return p_[n_ - 1]; }
  constexpr T* begin() const { return p_; } constexpr T* end() const { return p_ + n_; } constexpr const T* cbegin() const { return p_; } constexpr const T* cend() const { return p_ + n_; }
  reverse_iterator rbegin() const { return reverse_iterator(end()); } reverse_iterator rend() const { return reverse_iterator(begin()); }
  constexpr void remove_prefix(size_t n) { assert(n <= n_); p_ += n; n_ -= n; } constexpr void remove_suffix(size_t n) { assert(n <= n_); n_ -= n; }
  constexpr Span subspan(size_t pos = 0, size_t len = npos) const { assert(pos <= n_); return Span(p_ + pos, std::min(n_ - pos, len)); }
  constexpr Span first(size_t n) const { assert(n <= n_); return Span(p_, n); } constexpr Span last(size_t n) const { assert(n <= n_); return Span(p_ + n_ - n, n); }
  operator std::span<T>() const { return std::span<T>(p_, n_); }
 private:
  T* p_; size_t n_;
};
template <class T> bool SxSpanEq(Span<const T> a, Span<const T> b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template <class T, class U> requires std::is_same_v<std::remove_const_t<T>, std::remove_const_t<U>> bool operator==(Span<T> a, Span<U> b) { return SxSpanEq<std::remove_const_t<T>>(a, b); }
template <class T, class C> requires (std::is_convertible_v<const C&, Span<const T>> && !std::is_convertible_v<const C&, Span<T>>) bool operator==(Span<T> a, const C& b) { return SxSpanEq<std::remove_const_t<T>>(a, b); }
template <class T, class C> requires (std::is_const_v<T> && std::is_convertible_v<const C&, Span<T>> && !std::is_same_v<C, Span<T>> && !std::is_same_v<C, Span<std::remove_const_t<T>>>) bool operator==(Span<T> a, const C& b) { return SxSpanEq<std::remove_const_t<T>>(a, b); }
template <class T, class U> requires std::is_same_v<std::remove_const_t<T>, std::remove_const_t<U>> bool operator<(Span<T> a, Span<U> b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
template <class T> constexpr Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <class T> Span<T> MakeSpan(T* b, T* e) { return Span<T>(b, e - b); }
template <class C> constexpr auto MakeSpan(C& c) { return Span<std::remove_pointer_t<decltype(c.data())>>(c.data(), c.size()); }
template <class T, size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template <class T> constexpr Span<const T> MakeConstSpan(T* p, size_t n) { return Span<const T>(p, n); }
template <class T> Span<const T> MakeConstSpan(T* b, T* e) { return Span<const T>(b, e - b); }
template <class C> requires requires(const C& c) { c.data(); } constexpr auto MakeConstSpan(const C& c) { return Span<const std::remove_const_t<std::remove_pointer_t<decltype(c.data())>>>(c.data(), c.size()); }
template <class T> constexpr Span<const T> MakeConstSpan(std::initializer_list<T> l) { return Span<const T>(l.begin(), l.size()); }
template <class T, size_t N> constexpr Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }
}  // namespace absl
