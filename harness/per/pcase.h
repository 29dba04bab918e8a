#pragma once
#include <string>
#include <utility>
#include <vector>
struct PP { double x[3], v[3], m, h, u; int id; };
struct POut { long id; int type; double x[3], v[3], m, h, u; };
struct PCase { int n; std::vector<std::pair<std::string, std::string>> par; std::vector<PP> p; std::vector<int> owner; std::vector<double> dt; };
struct PRes { std::vector<std::vector<POut>> up; }; // what this rank holds after every update
typedef void (*per_entry_t)(int, const PCase *, PRes *);
