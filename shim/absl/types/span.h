#pragma once
#include "absl/sx/span.h"
