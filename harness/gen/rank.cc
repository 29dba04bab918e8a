// A generator as a library: its main function, called with a parameter file.
#include <algorithm>
#include <array>
#include <boost/algorithm/string.hpp>
#include <cassert>
#include <cmath>
#include <iostream>
#include <math.h>
#include <random>
#include <sstream>
#include <tuple>
#include <mpi.h>
#define main gen_main
#include GENERATOR
#undef main
extern "C" __attribute__((visibility("default"))) int
gen_entry(const char * par) {
  char * argv[] = {(char *)"generator", (char *)par, nullptr};
  return gen_main(2, argv);
}
