#include "grid/mpisubdivision.hpp"
#include "grid/grid.hpp"
#include <cstdio>
using namespace schnek;
int main(int c, char **v) {
  MPI_Init(&c, &v);
  typedef Grid<double, 1> G; typedef Array<int, 1> I;
  int any = 0;
  {
  MPICartSubdivision<G> s; s.init(I(0), I(29), 1);
  G g(s.getLo(), s.getHi()); g = 0.0;
  // a deposit of 1 in each process' upper ghost cell belongs to the first inner cell of the next process
  g(g.getHi(0)) = 1 + s.procnum();
  s.accumulate(g, 0);
  int n = s.procCount(), prev = (s.procnum() + n - 1) % n;
  double got = g(s.getInnerLo()[0]); int bad = got != 1 + prev;
  if (bad) printf("process %d: %g instead of %d\n", s.procnum(), got, 1 + prev);
  MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  }
  MPI_Finalize();
  return any;
}
