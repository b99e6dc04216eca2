// stand-in for ICU's UnicodeString: only the number of code points of a UTF-8 string
#pragma once
#include "unicode/uversion.h"
#include <string>
#include <string_view>
#include "unicode/utf8.h"
U_NAMESPACE_BEGIN
class UnicodeString {
 public:
  static UnicodeString fromUTF8(std::string_view s) { UnicodeString r; for (int32_t i = 0; i < (int32_t)s.size();) { UChar32 c; U8_NEXT(s.data(), i, (int32_t)s.size(), c); (void)c; ++r.n_; } return r; }
  int32_t countChar32() const { return n_; }
 private:
  int32_t n_ = 0;
};
U_NAMESPACE_END
