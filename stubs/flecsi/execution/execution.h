#pragma once
// Stand-in for the FleCSI runtime: a registered task is called directly.
namespace flecsi {
namespace execution {
struct context_t {
  static context_t & instance() { static context_t c; return c; }
  int initialize(int, char **) { return 0; }
};
} // namespace execution
} // namespace flecsi
#define flecsi_register_task(...)
#define flecsi_register_mpi_task(...)
#define flecsi_execute_mpi_task(task, nspace, ...) nspace::task(__VA_ARGS__)
