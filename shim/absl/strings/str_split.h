#pragma once
#include "absl/sx/strings.h"
