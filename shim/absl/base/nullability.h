#pragma once
#include "absl/sx/base.h"
