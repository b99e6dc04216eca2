#pragma once
#define U_FOLD_CASE_DEFAULT 0
