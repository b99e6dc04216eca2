// Stand-in for protobuf's RepeatedPtrField: the operations the code under test uses, with protobuf's meaning.
#pragma once
#include <vector>
namespace google::protobuf {
template <class T>
class RepeatedPtrField {
 public:
  using value_type = T;
  int size() const { return (int)v_.size(); }
  bool empty() const { return v_.empty(); }
  T* Add() { v_.emplace_back(); return &v_.back(); }
  void Reserve(int n) { v_.reserve(n); }
  auto begin() { return v_.begin(); }
  auto end() { return v_.end(); }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  template <class It>
  auto erase(It b, It e) { return v_.erase(b, e); }
  const T& at(int i) const { return v_.at(i); }
  T& at(int i) { return v_.at(i); }
  const T& operator[](int i) const { return v_.at(i); }
  T& operator[](int i) { return v_.at(i); }

 private:
  std::vector<T> v_;
};
}  // namespace google::protobuf
