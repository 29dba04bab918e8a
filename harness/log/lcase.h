// Shared between main.cc and rank.cc of the logging check.
#pragma once
#include <ostream>
#include <string>
#include <vector>
enum LKind { ONE, RANK, EVERY, FATAL, ASSERT, CONT, SETRANK, ADD, ENABLE, DISABLE, INIT, GUARD, POP };
struct LOp {
  LKind k;
  int sev = 1;              // 0 trace 1 info 2 warn 3 error
  int a = 0, b = 0;
  std::string text;
  std::vector<std::string> list;
  std::vector<std::pair<long, long>> stamp; // by rank
};
struct LCase { int n = 1; std::vector<LOp> p; };
struct LOut { std::ostream * sink[2]; std::streambuf * err; std::vector<std::string> fatal; std::vector<int> passed, line; };
using log_entry_t = void (*)(int rank, const LCase *, LOut *);
