// A driver as a library: its main task, called once per rank.
#include <array>
#include <cmath>
#include <mpi.h>
#include DRIVER
extern "C" __attribute__((visibility("default"))) void
drv_entry(int rank, const char * parfile) { flecsi::execution::mpi_init_task(parfile); }
