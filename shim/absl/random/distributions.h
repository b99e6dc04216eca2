#pragma once
#include "absl/sx/misc.h"
