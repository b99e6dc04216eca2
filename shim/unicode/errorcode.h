#pragma once
#include "unicode/uversion.h"
U_NAMESPACE_BEGIN
class ErrorCode { public: bool isFailure() const { return false; } const char* errorName() const { return ""; } };
U_NAMESPACE_END
