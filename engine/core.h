#pragma once
#include <string>
#include <vector>
namespace se {
struct PoisonUse {};
struct AssertFail { std::string what; };
enum ObKind { OB_EQ, OB_GE, OB_GT, OB_TRUE, OB_NE };
struct Obl { ObKind kind; uint32_t a, b; std::string name; bool val; };
extern int max_depth; extern bool truncated;
int signs(uint32_t);
int const_sign(uint32_t);
bool const_value(uint32_t, real_double &);
void canon_key(uint32_t, std::string &, int &);
void try_subst(uint32_t);
Sym simp(const Sym &);
void assume_sign(const Sym &d, int mask);
void add_obl(Obl o);
void note(const std::string &);
}
