#include "c09.hpp"
int main(int argc, char **argv) {
  vm::Session s(argc, argv);
  Kokkos::initialize();
  int rc;
  {
    vh::Harness h(argc, argv, vm::Session::suffix());
    vm::section(h, "grid-1", 50, 800, history<Grid<double, 1>, 1>);
    vm::section(h, "grid-2", 50, 800, history<Grid<double, 2>, 2>);
    vm::section(h, "global-1", 15, 300, globalField<Grid<int, 1>, 1>);
    vm::section(h, "global-2", 25, 400, globalField<Grid<double, 2>, 2>);
    vm::section(h, "buffers-1", 30, 600, buffersAndReductions<1>);
    vm::section(h, "buffers-2", 40, 800, buffersAndReductions<2>);
    part2(h);
    h.require("exchange", 20); h.require("exchange-all", 20); h.require("accumulate", 20); h.require("global-fields", 20); h.require("buffers", 50); h.require("reductions", 50);
    rc = h.finish();
  }
  Kokkos::finalize();
  MPI_Finalize();
  return rc;
}
