#include "grid/mpisubdivision.hpp"
#include "grid/grid.hpp"
#include <cstdio>
#include <vector>
using namespace schnek;
int main(int c, char **v) {
  MPI_Init(&c, &v);
  typedef Grid<double, 1> G; typedef Array<int, 1> I;
  int any = 0;
  for (int hi = 10; hi < 40; ++hi) {
    MPICartSubdivision<G> s; s.init(I(0), I(hi), 1);
    std::vector<int> own(hi + 1, 0), all(hi + 1, 0);
    for (int i = s.getInnerLo()[0]; i <= s.getInnerHi()[0]; ++i) own[i] = 1;
    MPI_Allreduce(own.data(), all.data(), hi + 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    for (int k : all) if (k != 1) any = 1;
  }
  MPI_Finalize();
  return any;
}
