// C08: an MPI subdivision splits the global domain between the processes without gaps or overlaps.
#include "mpicommon.hpp"
#include "grid/field.hpp"
#include "grid/mpisubdivision.hpp"
using namespace vg;
using namespace schnek;

// smallest sum of pieces/extent over all ways to cut n pieces from dimension d on
template<size_t R> double bestSplit(long n, size_t d, const double *w, long first) {
  if (d + 1 == R) return double(n * (d == 0 ? first : 1)) / w[d];
  double b = 1e300;
  for (long f = 1; f <= n; ++f) if (n % f == 0) b = std::min(b, double(f * (d == 0 ? first : 1)) / w[d] + bestSplit<R>(n / f, d + 1, w, first));
  return b;
}
template<class G, size_t R> void geometry(vh::Case &c) {
  vh::Rng &r = c.rng;
  const int np = vm::size();
  int delta = r.range(0, 3);
  Box<R> glob;
  bool big = r.chance(1, 8); int longest = r.chance(1, 3) ? r.range(0, int(R) - 1) : -1;
  for (size_t d = 0; d < R; ++d) {
    long n = np + 2 + (longest >= 0 ? (int(d) == longest ? r.range(100, 2000) : 0) : r.chance(1, 4) ? 0 : big ? r.range(0, R == 1 ? 3000000 : R == 2 ? 70000 : 90) : r.range(0, R == 1 ? 300 : 60));
    glob.lo[d] = r.chance(1, 2) ? 0 : r.range(-200, 200);
    glob.hi[d] = glob.lo[d] + n - 1;
  }
  c.desc << np << " processes, rank=" << R << " global " << glob.str() << " delta=" << delta;
  Array<int, R> lo = arr<R>(glob.lo), hi = arr<R>(glob.hi);
  if (r.chance(1, 4)) {      // one that is never used, in memory that held something else
    typedef MPICartSubdivision<G> S;
    alignas(S) static unsigned char mem[sizeof(S)]; std::memset(mem, 0x5a, sizeof mem);
    S *s = new (mem) S; s->~S(); c.count("unused-subdivisions");
  }
  MPICartSubdivision<G> sub;
  DomainSubdivision<G> &base = sub;
  bool zero = true; for (size_t d = 0; d < R; ++d) zero &= glob.lo[d] == 0;
  int route = r.range(0, 3);
  if (route == 0) base.init(Range<int, R>(lo, hi), delta);
  else if (route == 1 && zero) { Array<int, R> n(hi); for (size_t d = 0; d < R; ++d) n[d] += 1; base.init(n, delta); }
  else if (route == 2) { sub.init(Array<int, R>(0), Array<int, R>(np + 5), 1); sub.init(lo, hi, delta); }
  else base.init(lo, hi, delta);

  Box<R> in = vm::boxOf<R>(sub.getInnerDomain()), full = vm::boxOf<R>(sub.getDomain()), g = vm::boxOf<R>(sub.getGlobalDomain());
  c.ok(g == glob, "global-domain", g.str());
  c.ok(sub.getDelta() == delta, "delta", "");
  for (size_t d = 0; d < R; ++d) {
    c.check(full.lo[d] == in.lo[d] - delta && full.hi[d] == in.hi[d] + delta, "ghost-width", [&](std::ostream &o) { o << "inner " << in.str() << " local " << full.str(); });
    c.ok(sub.getLo()[d] == full.lo[d] && sub.getHi()[d] == full.hi[d] && sub.getInnerLo()[d] == in.lo[d] && sub.getInnerHi()[d] == in.hi[d], "limits", "");
    c.check(in.lo[d] >= glob.lo[d] && in.hi[d] <= glob.hi[d] && in.lo[d] <= in.hi[d], "inside", [&](std::ostream &o) { o << "inner " << in.str() << " of global " << glob.str(); });
    c.ok(sub.isBoundLo(d) == (in.lo[d] == glob.lo[d]), "bound-lo", "");
    c.ok(sub.isBoundHi(d) == (in.hi[d] == glob.hi[d]), "bound-hi", "");
  }
  // disjoint and covering
  std::vector<Box<R>> all = vm::gather<R>(in);
  double cells = 0;
  for (int p = 0; p < np; ++p) {
    double n = 1;
    for (size_t d = 0; d < R; ++d) n *= double(all[p].hi[d] - all[p].lo[d] + 1);
    cells += n;
    for (int q = 0; q < p; ++q) {
      bool apart = false;
      for (size_t d = 0; d < R; ++d) apart |= all[p].hi[d] < all[q].lo[d] || all[q].hi[d] < all[p].lo[d];
      c.check(apart, "overlap", [&](std::ostream &o) { o << "processes " << p << " and " << q << ": " << all[p].str() << " and " << all[q].str(); });
    }
  }
  double want = 1;
  for (size_t d = 0; d < R; ++d) want *= double(glob.hi[d] - glob.lo[d] + 1);
  c.check(cells == want, "cover", [&](std::ostream &o) { o << cells << " of " << want << " cells are owned"; });
  // every process has exactly one neighbour box to either side (or itself) in every dimension, equal in the other dimensions
  const Box<R> &me = in;
  for (size_t d = 0; d < R; ++d)
    for (int s = -1; s <= 1; s += 2) {
      long edge = s > 0 ? (me.hi[d] == glob.hi[d] ? glob.lo[d] : me.hi[d] + 1) : (me.lo[d] == glob.lo[d] ? glob.hi[d] : me.lo[d] - 1);
      int found = 0;
      for (auto &b : all) { bool same = b.lo[d] <= edge && edge <= b.hi[d]; for (size_t k = 0; k < R; ++k) if (k != d) same &= b.lo[k] == me.lo[k] && b.hi[k] == me.hi[k]; found += same; }
      c.check(found == 1, "neighbour", [&](std::ostream &o) { o << "dim " << d << " side " << s << " of " << me.str(); });
    }
  // balance
  for (size_t d = 0; d < R; ++d) {
    long a = 1L << 60, b = 0;
    for (auto &x : all) { a = std::min(a, x.hi[d] - x.lo[d]); b = std::max(b, x.hi[d] - x.lo[d]); }
    c.check(b - a <= 2, "balance", [&](std::ostream &o) { o << "dim " << d << " extents " << a + 1 << ".." << b + 1; });
  }
  // the pieces are cut as the extents suggest
  {
    double w[R], sum = 0; long p = 2, least = 1L << 60; while (p < np && np % p) ++p; if (np == 1) p = 1;
    for (size_t d = 0; d < R; ++d) {
      std::set<long> cuts; for (auto &x : all) cuts.insert(x.lo[d]);
      w[d] = double(glob.hi[d] - glob.lo[d]); least = std::min(least, glob.hi[d] - glob.lo[d]); sum += double(cuts.size()) / w[d];
    }
    double opt = bestSplit<R>(np / p, 0, w, p);
    c.check(sum <= opt * (1 + 3. / double(least)), "lopsided", [&](std::ostream &o) { o << "sum of pieces/extent " << sum << ", possible " << opt << ", a piece is " << in.str(); });
  }
  // identities
  int ranks = 0, masters = 0, ids = 0;
  std::vector<int> num = vm::gatherInt(sub.procnum()), mas = vm::gatherInt(sub.master()), uid = vm::gatherInt(sub.getUniqueId());
  std::set<int> sn(num.begin(), num.end()), su(uid.begin(), uid.end());
  for (int p = 0; p < np; ++p) { masters += mas[p]; ranks += num[p] >= 0 && num[p] < np; ids += uid[p] >= 0 && uid[p] < np; c.ok(bool(mas[p]) == (num[p] == 0), "master-rank", ""); }
  c.ok(sub.procCount() == np, "proc-count", "");
  c.ok(masters == 1, "one-master", std::to_string(masters));
  c.ok(ranks == np && int(sn.size()) == np, "proc-numbers", "");
  c.ok(ids == np && int(su.size()) == np, "unique-ids", "");
  // physical extents
  Array<double, R> pl, ph;
  for (size_t d = 0; d < R; ++d) { pl[d] = r.chance(1, 3) ? 0.0 : r.real(-5, 5); ph[d] = pl[d] + r.real(0.1, 10); }
  bool fromZero = r.chance(1, 3);
  if (fromZero) { pl = Array<double, R>(0.0); for (size_t d = 0; d < R; ++d) ph[d] = r.real(0.1, 10); }
  Range<double, R> ext = fromZero ? sub.getInnerExtent(ph) : sub.getInnerExtent(Range<double, R>(pl, ph));
  for (size_t d = 0; d < R; ++d) {
    double n = double(glob.hi[d] - glob.lo[d] + 1), L = ph[d] - pl[d];
    double a = pl[d] + L * double(in.lo[d] - glob.lo[d]) / n, b = pl[d] + L * double(in.hi[d] + 1 - glob.lo[d]) / n;
    c.check(std::fabs(ext.getLo()[d] - a) < 1e-9 && std::fabs(ext.getHi()[d] - b) < 1e-9, "inner-extent", [&](std::ostream &o) {
      o << "dim " << d << ": " << ext.getLo()[d] << ".." << ext.getHi()[d] << ", expected " << a << ".." << b; });
  }
  c.count("geometries");
  c.count("split:" + std::to_string(np) + "/" + std::to_string(R));
}

int main(int argc, char **argv) {
  vm::Session s(argc, argv);
  Kokkos::initialize();
  int rc;
  {
    vh::Harness h(argc, argv, vm::Session::suffix());
    vm::section(h, "grid-1", 60, 1500, geometry<Grid<double, 1>, 1>);
    vm::section(h, "grid-2", 80, 2000, geometry<Grid<double, 2>, 2>);
    vm::section(h, "field-2", 30, 500, geometry<Field<double, 2>, 2>);
    vm::section(h, "grid-3", 60, 1500, geometry<Grid<int, 3>, 3>);
    vm::section(h, "grid-4", 30, 500, geometry<Grid<float, 4>, 4>);
    h.require("geometries", 200);
    rc = h.finish();
  }
  Kokkos::finalize();
  MPI_Finalize();
  return rc;
}
