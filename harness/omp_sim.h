// Simulated OpenMP threads: how many, and in which order they run.
#pragma once
#include <vector>
#include <algorithm>
extern int omp_threads_, omp_id_, omp_order_;
struct Threads { Threads(int n, int order) { omp_threads_ = n; omp_order_ = order; } ~Threads() { omp_threads_ = 1; omp_order_ = 0; } };
