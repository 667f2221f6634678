// Contract of solve_multi (proved in c24_mixture): the pressure and the two densities of the state it is given, here those
// that the harness set up.
#include "gpr.h"
#include "contract_mixture.h"
double mix_p, mix_r1, mix_r2; int mix_calls;
Vec3 solve_multi(VecVr Q, Par &MP) { Vec3 r; r << mix_p, mix_r1, mix_r2; mix_calls++; return r; }
