#pragma once
#include "absl/sx/status.h"
