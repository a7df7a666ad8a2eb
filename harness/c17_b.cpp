#include "c17.hpp"
template<class T, size_t R> using CG = Grid<T, R>;
template<class T, size_t R> using FG = Grid<T, R, GridNoArgCheck, SingleArrayGridStorageFortran>;
template<class T, size_t R> using LG = Grid<T, R, GridNoArgCheck, LazyArrayGridStorage>;
void part2(vh::Harness &h) {
  vm::section(h, "stream-3i", 20, 300, streams<CG<int, 3>, CG<int, 3>, 3>);
  vm::section(h, "stream-lazy", 12, 200, streams<LG<double, 2>, CG<double, 2>, 2>);
  vm::section(h, "stream-fortran", 20, 300, streams<FG<double, 2>, CG<double, 2>, 2>);
  vm::section(h, "stream-fortran-3", 12, 200, streams<CG<float, 3>, FG<float, 3>, 3>);
}
