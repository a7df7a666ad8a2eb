#include "c09.hpp"
// every element type the library maps to an MPI type
void part3(vh::Harness &h) {
  vm::section(h, "type-schar", 8, 100, history<Grid<signed char, 1>, 1>);
  vm::section(h, "type-short", 8, 100, history<Grid<short, 1>, 1>);
  vm::section(h, "type-int", 8, 100, history<Grid<int, 1>, 1>);
  vm::section(h, "type-long", 8, 100, history<Grid<long, 1>, 1>);
  vm::section(h, "type-uchar", 8, 100, history<Grid<unsigned char, 1>, 1>);
  vm::section(h, "type-ushort", 8, 100, history<Grid<unsigned short, 1>, 1>);
  vm::section(h, "type-uint", 8, 100, history<Grid<unsigned int, 1>, 1>);
  vm::section(h, "type-ulong", 8, 100, history<Grid<unsigned long, 1>, 1>);
  vm::section(h, "type-float", 8, 100, history<Grid<float, 1>, 1>);
  vm::section(h, "type-ldouble", 8, 100, history<Grid<long double, 1>, 1>);
}
