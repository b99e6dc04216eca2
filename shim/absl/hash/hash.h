#pragma once
#include "absl/sx/containers.h"
