#pragma once
extern double mix_p, mix_r1, mix_r2; extern int mix_calls;
