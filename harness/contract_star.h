#pragma once
struct Star { int settle = 0, nan_at = 0, tests = 0, steps = 0; };
extern Star STAR;
