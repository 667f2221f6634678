#pragma once
// the last system handed to the nonlinear solver: the function, the first guess, the tolerance, and the point returned
struct Solved { int calls = 0; VecFunc F; Vec x0, x; double tol = 0; };
extern Solved solved;
