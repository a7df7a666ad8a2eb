#include "grid/mpisubdivision.hpp"
#include "grid/grid.hpp"
#include <cstdio>
#include <cmath>
using namespace schnek;
int main(int c, char **v) {
  MPI_Init(&c, &v);
  typedef Grid<double, 1> G; typedef Array<int, 1> I;
  int any = 0;
  {
  MPICartSubdivision<G> s; s.init(I(10), I(29), 1);       // the global indices start at 10
  Range<double, 1> all(Array<double, 1>(0.0), Array<double, 1>(20.0));
  Range<double, 1> e = s.getInnerExtent(all);
  double lo = s.getInnerLo()[0] - 10, hi = s.getInnerHi()[0] - 9;
  int bad = std::fabs(e.getLo()[0] - lo) > 1e-9 || std::fabs(e.getHi()[0] - hi) > 1e-9;
  if (bad) printf("process %d: %g %g instead of %g %g\n", s.procnum(), e.getLo()[0], e.getHi()[0], lo, hi);
  MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  }
  MPI_Finalize();
  return any;
}
