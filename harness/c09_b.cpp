#include "c09.hpp"
void part3(vh::Harness &h);
void part2(vh::Harness &h) {
  vm::section(h, "grid-3", 15, 150, history<Grid<long, 3>, 3>);
  vm::section(h, "field-2", 20, 300, history<Field<double, 2>, 2>);
  vm::section(h, "field-3", 10, 100, globalField<Field<double, 3>, 3>);
  vm::section(h, "fortran-2", 20, 300, history<Grid<float, 2, GridNoArgCheck, SingleArrayGridStorageFortran>, 2>);
  vm::section(h, "buffers-3", 10, 150, buffersAndReductions<3>);
  part3(h);
}
