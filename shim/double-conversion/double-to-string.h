// Stand-in for the double-conversion library (a dependency): shortest round-tripping
// decimal, found by increasing precision. Works on concrete values only.
#pragma once
#include "absl/sx/strings.h"
#define DC_NON_INCLUDED_UTILS
namespace double_conversion {
class StringBuilder { public: StringBuilder(char* b, int n) : b_(b), n_(n) {} char* Finalize() { b_[p_] = 0; return b_; } void AddString(const std::string& s) { for (char c : s) if (p_ + 1 < n_) b_[p_++] = c; } void AddCharacter(char c) { AddString(std::string(1, c)); } int position() const { return p_; } void Reset() { p_ = 0; } private: char* b_; int n_, p_ = 0; };
class DoubleToStringConverter {
 public:
  enum Flags { NO_FLAGS = 0, EMIT_POSITIVE_EXPONENT_SIGN = 1, EMIT_TRAILING_DECIMAL_POINT = 2, EMIT_TRAILING_ZERO_AFTER_POINT = 4, UNIQUE_ZERO = 8 };
  enum DtoaMode { SHORTEST, SHORTEST_SINGLE, FIXED, PRECISION };
  static const int kBase10MaximalLength = 17;
  template <class... A> DoubleToStringConverter(int flags, const char* inf, const char* nan, A...) : f_(flags), inf_(inf), nan_(nan) {}
  bool ToShortest(double v, StringBuilder* b) const { return go(v, b, false); }
  bool ToShortestSingle(float v, StringBuilder* b) const { return go(v, b, true); }
  bool ToFixed(double v, int, StringBuilder* b) const { return go(v, b, false); }
 private:
  bool go(double v, StringBuilder* b, bool single) const {
    if (v != v) { b->AddString(nan_); return true; }
    if (v - v != 0) { b->AddString((v < 0 ? "-" : "") + inf_); return true; }
    uint64_t bits; memcpy(&bits, &v, 8);
    if (sx_engine() && sx_is_symbolic(bits)) { b->AddString("?"); return true; }
    if (v == 0 && (f_ & UNIQUE_ZERO)) v = 0;
    std::string s;
    for (int p = 1; p <= 17; p++) { s.clear(); absl::sx::AppendG(&s, v, p); double r = 0; absl::SimpleAtod(s, &r); if (single ? (float)r == (float)v : r == v) break; }
    if ((f_ & EMIT_TRAILING_DECIMAL_POINT) && s.find_first_of(".e") == std::string::npos) { s += "."; if (f_ & EMIT_TRAILING_ZERO_AFTER_POINT) s += "0"; }
    b->AddString(s); return true;
  }
  int f_; std::string inf_, nan_;
};
}
