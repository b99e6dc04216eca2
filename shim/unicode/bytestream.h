#pragma once
#include "unicode/casemap.h"
