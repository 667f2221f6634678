#pragma once
#include <string>
#include <vector>
struct Calls { int n = 0; std::vector<std::string> wrong; };
extern Calls CALLS;
