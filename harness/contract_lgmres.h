#pragma once
extern std::function<Vec(VecFunc, Vecr, double)> linear_solver; // product with the matrix, right-hand side, tolerance -> step
