#pragma once
#include <cstdlib>
void se_native_assert(const char *w);
#define eigen_assert(x) do { if (!(x)) se_native_assert(#x); } while (false)
