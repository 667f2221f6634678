#pragma once
#include "h.h"
struct Script { std::vector<real_double> dt; int nan_at = 0, contort = 99, steps = 0; std::vector<double> seen, tested; };
extern Script SC;
