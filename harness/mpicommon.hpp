// Shared pieces of the harnesses that run as several MPI processes.
#ifndef VH_MPICOMMON_HPP
#define VH_MPICOMMON_HPP
#include "gridcommon.hpp"
#include <mpi.h>

namespace vm {
inline int rank() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
inline int size() { int r; MPI_Comm_size(MPI_COMM_WORLD, &r); return r; }

// Cases are drawn identically in every process. A case that fails anywhere fails everywhere, so that all processes
// leave a section together; an exception in one process would leave the others waiting, so it ends the run.
template<class F> struct Together {
  F f;
  void operator()(vh::Case &c) const {
    try { f(c); }
    catch (std::exception &e) {
      c.fail("unexpected-exception", std::string(typeid(e).name()) + ": " + e.what());
      c.h.finish();
      MPI_Abort(MPI_COMM_WORLD, 10);
    }
    int mine = c.failed, any = 0;
    MPI_Allreduce(&mine, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if (any) c.failed = true;
  }
};
inline bool anyFailed(vh::Case &c) { int mine = c.failed, any = 0; MPI_Allreduce(&mine, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); return any; }
template<class F> void section(vh::Harness &h, const std::string &name, long q, long t, F f) { h.section(name, q, t, Together<F>{f}); }

struct Session {
  Session(int &argc, char **&argv) { MPI_Init(&argc, &argv); MPI_Comm_set_errhandler(MPI_COMM_WORLD, MPI_ERRORS_ARE_FATAL); }
  static std::string suffix() { return ".r" + std::to_string(rank()); }
};

// every process' box
template<size_t R> std::vector<vg::Box<R>> gather(const vg::Box<R> &b) {
  std::vector<vg::Box<R>> all(size());
  MPI_Allgather((void *)&b, 2 * R, MPI_LONG, all.data(), 2 * R, MPI_LONG, MPI_COMM_WORLD);
  return all;
}
template<class T> std::vector<int> gatherInt(T v) { int x = int(v); std::vector<int> all(size()); MPI_Allgather(&x, 1, MPI_INT, all.data(), 1, MPI_INT, MPI_COMM_WORLD); return all; }
template<size_t R, class RG> vg::Box<R> boxOf(const RG &g) { vg::Box<R> b; for (size_t d = 0; d < R; ++d) { b.lo[d] = g.getLo()[d]; b.hi[d] = g.getHi()[d]; } return b; }
} // namespace vm
#endif
