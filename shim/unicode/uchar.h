#pragma once
#include "unicode/umachine.h"
// White_Space property of Unicode
inline UBool u_isUWhiteSpace(UChar32 c) {
  return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000;
}
