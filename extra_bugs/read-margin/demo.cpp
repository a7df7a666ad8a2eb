#include "diagnostic/hdfdiagnostic.hpp"
#include "grid/grid.hpp"
using namespace schnek;
int main(int c, char **v) {
  MPI_Init(&c, &v);
  typedef Grid<double, 1> G; typedef Array<int, 1> I;
  GridContainer<G> w; w.grid.resize(I(0), I(9)); w.global_min = w.local_min = I(0); w.global_max = w.local_max = I(9);
  for (int i = 0; i < 10; ++i) w.grid(i) = i;
  { HdfOStream o("f.h5"); o.setBlockName("E"); o.writeGrid(w); o.close(); }
  GridContainer<G> r; r.grid.resize(I(0), I(12)); r.grid = -1.0; r.global_min = r.local_min = I(0); r.global_max = r.local_max = I(9);
  { HdfIStream i("f.h5"); i.setBlockName("E"); i.readGrid(r); i.close(); }
  int bad = 0;
  for (int i = 0; i < 13; ++i) bad |= r.grid(i) != (i < 10 ? i : -1);
  MPI_Finalize();
  return bad;
}
