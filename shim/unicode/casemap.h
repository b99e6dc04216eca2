// stand-in: only ASCII letters change case
#pragma once
#include "unicode/uversion.h"
#include <string>
#include <string_view>
#include "unicode/errorcode.h"
#include "unicode/stringoptions.h"
U_NAMESPACE_BEGIN
class Edits;
class ByteSink { public: virtual ~ByteSink() = default; virtual void Append(const char* p, int32_t n) = 0; };
template <class S> class StringByteSink : public ByteSink { public: explicit StringByteSink(S* s) : s_(s) {} void Append(const char* p, int32_t n) override { s_->append(p, n); } private: S* s_; };
class CaseMap {
 public:
  static void utf8ToLower(const char*, uint32_t, std::string_view s, ByteSink& k, Edits*, ErrorCode&) { for (char c : s) { if (c >= 'A' && c <= 'Z') c += 32; k.Append(&c, 1); } }
  static void utf8ToUpper(const char*, uint32_t, std::string_view s, ByteSink& k, Edits*, ErrorCode&) { for (char c : s) { if (c >= 'a' && c <= 'z') c -= 32; k.Append(&c, 1); } }
};
U_NAMESPACE_END
