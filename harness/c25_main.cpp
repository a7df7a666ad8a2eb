#include "c25_impl.hpp"
extern template void whole<3>(vh::Case &);
std::vector<Ends *> outputs;
std::vector<Reads *> inputs;
// blocks of a hierarchy outlive it: they must not take part in the next simulation
void cleanUp() {
  DiagnosticManager &m = DiagnosticManager::instance();
  for (auto *k : outputs) { if (auto *i = dynamic_cast<IntervalDiagnostic *>(k)) m.removeIntervalDiagnostic(i); if (auto *d = dynamic_cast<DeltaTimeDiagnostic *>(k)) m.removeDeltaTimeDiagnostic(d); }
  outputs.clear(); inputs.clear();
}
int main(int argc, char **argv) {
  vm::Session s(argc, argv);
  int rc;
  {
    vh::Harness h(argc, argv, vm::Session::suffix());
    vm::section(h, "rank1", 40, 600, whole<1>);
    vm::section(h, "rank2", 40, 500, whole<2>);
    vm::section(h, "rank3", 15, 150, whole<3>);
    h.require("outputs", vm::rank() == 0 ? 100 : 0); h.require("restarts", 20);
    for (int i = 0; i < 5; ++i) h.require("rule:" + std::to_string(i), 20);
    rc = h.finish();
  }
  MPI_Finalize();
  return rc;
}
