// The same lives with the real MPI and the real HDF5.
#include "rank.cc"
#include <fstream>
#include <sstream>
#include <cstring>
using std::string; using std::vector;
#include "lifebuf.h"
int main(int argc, char ** argv) {
  MPI_Init(&argc, &argv);
  int r; MPI_Comm_rank(MPI_COMM_WORLD, &r);
  Buf b;
  { std::ifstream f(argv[1], std::ios::binary); std::stringstream s; s << f.rdbuf(); b.s = s.str(); }
  Life L = getlife(b);
  LRes q;
  io_entry(r, &L, &q);
  MPI_Barrier(MPI_COMM_WORLD);
  Buf o; put(o, q);
  { std::ofstream f(string(argv[2]) + "." + std::to_string(r), std::ios::binary); f.write(o.s.data(), o.s.size()); }
  MPI_Finalize();
}
