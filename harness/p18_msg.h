// A message type with protobuf's generated API, and an interpreter of protopaths over it written from
// the description of the path language in protopath.py.
#pragma once
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "sx.h"
#include "google/protobuf/repeated_ptr_field.h"

namespace pk {
template <class T>
class RepeatedField {
 public:
  int size() const { return (int)v_.size(); }
  void Add(T x) { v_.push_back(x); }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  const T& Get(int i) const { return v_.at(i); }
  void Set(int i, T x) { v_.at(i) = x; }
  const T& operator[](int i) const { return v_.at(i); }

 private:
  std::vector<T> v_;
};
// no order is promised: iterates in the order of insertion
template <class T>
class Map {
 public:
  using key_type = std::string;
  using value_type = std::pair<std::string, T>;
  int size() const { return (int)v_.size(); }
  size_t count(std::string_view k) const { return Find(k) != v_.size(); }
  const T& at(std::string_view k) const { return v_.at(Find(k)).second; }
  T& at(std::string_view k) { return v_.at(Find(k)).second; }
  T& operator[](std::string_view k) {
    size_t i = Find(k);
    if (i == v_.size()) v_.emplace_back(std::string(k), T());
    return v_[i].second;
  }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }

 private:
  size_t Find(std::string_view k) const {
    size_t i = 0;
    while (i < v_.size() && v_[i].first != k) ++i;
    return i;
  }
  std::vector<std::pair<std::string, T>> v_;
};
struct ExtInt {} inline constexpr ext;
struct ExtMsg {} inline constexpr emsg;
// a plain structure reached with &::
struct Raw {
  int x() const { return x_; }
  bool has_x() const { return has_x_; }
  void set_x(int v) { x_ = v; has_x_ = true; }
  void clear_x() { has_x_ = false; x_ = 0; }
  int z = 0;
  int x_ = 0;
  bool has_x_ = false;
};
class Msg {
 public:
  Msg() = default;
  Msg(const Msg& o) { *this = o; }
  Msg& operator=(const Msg& o) {
    x_ = o.x_; y_ = o.y_; u_ = o.u_; str_ = o.str_; ext_ = o.ext_; has_x_ = o.has_x_; has_u_ = o.has_u_; has_str_ = o.has_str_; has_ext_ = o.has_ext_;
    rx_ = o.rx_; ri_ = o.ri_; mx_ = o.mx_; mi_ = o.mi_; raw = o.raw;
    inner_ = o.inner_ ? std::make_unique<Msg>(*o.inner_) : nullptr;
    emsg_ = o.emsg_ ? std::make_unique<Msg>(*o.emsg_) : nullptr;
    return *this;
  }
  static const Msg& Default() { static const Msg* m = new Msg; return *m; }
  // optional int32 x
  bool has_x() const { return has_x_; }
  int x() const { return x_; }
  void set_x(int v) { x_ = v; has_x_ = true; }
  void clear_x() { x_ = 0; has_x_ = false; }
  // int64 y of proto3: no presence
  int64_t y() const { return y_; }
  void set_y(int64_t v) { y_ = v; }
  void clear_y() { y_ = 0; }
  // optional uint32 u
  bool has_u() const { return has_u_; }
  uint32_t u() const { return u_; }
  void set_u(uint32_t v) { u_ = v; has_u_ = true; }
  void clear_u() { u_ = 0; has_u_ = false; }
  // optional string str
  bool has_str() const { return has_str_; }
  const std::string& str() const { return str_; }
  void set_str(std::string v) { str_ = std::move(v); has_str_ = true; }
  void clear_str() { str_.clear(); has_str_ = false; }
  // optional Msg inner
  bool has_inner() const { return inner_ != nullptr; }
  const Msg& inner() const { return inner_ ? *inner_ : Default(); }
  Msg* mutable_inner() { if (!inner_) inner_ = std::make_unique<Msg>(); return inner_.get(); }
  void clear_inner() { inner_ = nullptr; }
  // repeated int32 rx
  const RepeatedField<int>& rx() const { return rx_; }
  int rx(int i) const { return rx_.Get(i); }
  void set_rx(int i, int v) { rx_.Set(i, v); }
  RepeatedField<int>* mutable_rx() { return &rx_; }
  // repeated Msg ri
  const google::protobuf::RepeatedPtrField<Msg>& ri() const { return ri_; }
  const Msg& ri(int i) const { return ri_.at(i); }
  Msg* mutable_ri(int i) { return &ri_.at(i); }
  google::protobuf::RepeatedPtrField<Msg>* mutable_ri() { return &ri_; }
  // map<string, int32> mx, map<string, Msg> mi
  const Map<int>& mx() const { return mx_; }
  Map<int>* mutable_mx() { return &mx_; }
  const Map<Msg>& mi() const { return mi_; }
  Map<Msg>* mutable_mi() { return &mi_; }
  // extensions
  bool HasExtension(ExtInt) const { return has_ext_; }
  int GetExtension(ExtInt) const { return ext_; }
  void SetExtension(ExtInt, int v) { ext_ = v; has_ext_ = true; }
  bool HasExtension(ExtMsg) const { return emsg_ != nullptr; }
  const Msg& GetExtension(ExtMsg) const { return emsg_ ? *emsg_ : Default(); }
  Msg* MutableExtension(ExtMsg) { if (!emsg_) emsg_ = std::make_unique<Msg>(); return emsg_.get(); }
  Raw raw;

 private:
  int x_ = 0, ext_ = 0;
  int64_t y_ = 0;
  uint32_t u_ = 0;
  std::string str_;
  bool has_x_ = false, has_u_ = false, has_str_ = false, has_ext_ = false;
  std::unique_ptr<Msg> inner_, emsg_;
  RepeatedField<int> rx_;
  google::protobuf::RepeatedPtrField<Msg> ri_;
  Map<int> mx_;
  Map<Msg> mi_;
};
// the container `[:]` goes over
class Batch : public google::protobuf::RepeatedPtrField<Msg> {};
}  // namespace pk
