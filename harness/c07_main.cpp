// C07: ghost-cell exchange and accumulation of serial (single process) subdivisions against a periodic model.
#include "gridcommon.hpp"
#include "grid/field.hpp"
#include "grid/domainsubdivision.hpp"
using namespace vg;
using namespace schnek;

// index of the inner cell a cell stands for in dimension d
static long wrap(long p, long lo, long hi) { long n = hi - lo + 1; return lo + ((p - lo) % n + n) % n; }

template<class T> T value(vh::Rng &r) { return T(r.range(-1000, 1000)); }

template<class G, size_t R> struct Exchange {
  typedef typename G::value_type T;
  vh::Case &c;
  vh::Rng &r;
  Box<R> in, full;
  int delta;
  SerialSubdivision<G> sub;
  std::vector<T> model;
  Exchange(vh::Case &c_) : c(c_), r(c_.rng) {}

  void setup(int minInner) {
    delta = r.range(0, R <= 2 ? 4 : 2);
    if (r.chance(1, 15)) { delta = r.range(5, R == 1 ? 40 : R == 2 ? 12 : R == 3 ? 6 : 5); if (R > 3) delta = 2; c.count("wide-ghosts"); }
    in = randomBox<R>(r, R <= 2 ? 300 : 120);
    for (size_t d = 0; d < R; ++d) {
      long need = std::max<long>(1, long(minInner) * delta);
      if (in.hi[d] - in.lo[d] + 1 < need) in.hi[d] = in.lo[d] + need - 1 + (r.chance(1, 3) ? r.range(0, 3) : 0);
    }
    if (r.chance(1, 15)) { size_t d = r.range(0, int(R) - 1); in.hi[d] = in.lo[d] + r.range(30, R <= 2 ? 600 : 90); c.count("long-domain"); }
    full = in;
    for (size_t d = 0; d < R; ++d) { full.lo[d] -= delta; full.hi[d] += delta; }
    c.desc << "rank=" << R << " inner " << in.str() << " delta=" << delta;
    Array<int, R> lo = arr<R>(full.lo), hi = arr<R>(full.hi);
    DomainSubdivision<G> &base = sub;
    switch (r.range(0, 3)) {
      case 0: base.init(lo, hi, delta); break;
      case 1: base.init(Range<int, R>(lo, hi), delta); break;
      case 2: sub.init(lo, hi, delta); break;
      default: { Array<int, R> o(lo); for (size_t d = 0; d < R; ++d) o[d] -= 7; sub.init(o, hi, 1); sub.init(lo, hi, delta); }
    }
    geometry();
  }
  void geometry() {
    auto same = [&](const Range<int, R> &g, const Box<R> &b) { for (size_t d = 0; d < R; ++d) if (g.getLo()[d] != b.lo[d] || g.getHi()[d] != b.hi[d]) return false; return true; };
    c.ok(same(sub.getDomain(), full), "domain", "");
    c.ok(same(sub.getInnerDomain(), in), "inner-domain", "");
    c.ok(same(sub.getGlobalDomain(), in), "global-domain", "the global domain of a serial subdivision is its inner domain");
    c.ok(sub.getDelta() == delta, "delta", "");
    c.ok(sub.master() && sub.procnum() == 0 && sub.procCount() == 1 && sub.getUniqueId() == 0, "process", "");
    Array<double, R> pl, ph;
    for (size_t d = 0; d < R; ++d) {
      c.ok(sub.getLo()[d] == full.lo[d] && sub.getHi()[d] == full.hi[d] && sub.getInnerLo()[d] == in.lo[d] && sub.getInnerHi()[d] == in.hi[d], "limits", "");
      c.ok(sub.isBoundLo(d) && sub.isBoundHi(d), "bounds", "");
      pl[d] = r.real(-5, 5); ph[d] = pl[d] + r.real(0.1, 10);
    }
    Range<double, R> ext = sub.getInnerExtent(Range<double, R>(pl, ph));
    for (size_t d = 0; d < R; ++d)
      c.check(std::fabs(ext.getLo()[d] - pl[d]) < 1e-9 && std::fabs(ext.getHi()[d] - ph[d]) < 1e-9, "inner-extent", [&](std::ostream &o) {
        o << "dim " << d << ": " << ext.getLo()[d] << ".." << ext.getHi()[d] << " for the whole extent " << pl[d] << ".." << ph[d]; });
    c.count("geometries");
  }
  long off(const long *p) const { return offC<R>(full, p); }
  void fill(G &g) { model.assign(full.size(), T()); each<R>(full, [&](const long *p) { T v = value<T>(r); model[off(p)] = v; g.get(arr<R>(p)) = v; }); }
  void compare(G &g, const char *key) {
    each<R>(full, [&](const long *p) {
      T v = g.get(arr<R>(p)), w = model[off(p)];
      c.check(v == w, key, [&](std::ostream &o) { o << "at " << pos<R>(p) << ": " << v << ", expected " << w; });
    });
  }
  void modelExchange(size_t d) {
    std::vector<T> old = model;
    each<R>(full, [&](const long *p) {
      long q[R]; std::copy(p, p + R, q);
      q[d] = wrap(p[d], in.lo[d], in.hi[d]);
      model[off(p)] = old[off(q)];
    });
  }
  // each cell of a column becomes the sum of everything that stands for the same inner cell
  void modelAccumulate(size_t d) {
    std::vector<T> old = model, sum(model.size(), T());
    each<R>(full, [&](const long *p) { long q[R]; std::copy(p, p + R, q); q[d] = wrap(p[d], in.lo[d], in.hi[d]); sum[off(q)] += old[off(p)]; });
    each<R>(full, [&](const long *p) { long q[R]; std::copy(p, p + R, q); q[d] = wrap(p[d], in.lo[d], in.hi[d]); model[off(p)] = sum[off(q)]; });
  }
};

template<class G, size_t R> G makeGrid(const Box<R> &full, const Box<R> &in, int delta, vh::Rng &r) {
  if constexpr (std::is_base_of<Grid<typename G::value_type, R>, G>::value && !std::is_same<Grid<typename G::value_type, R>, G>::value) {
    Array<bool, R> st; for (size_t d = 0; d < R; ++d) st[d] = r.chance(1, 2);
    return G(arr<R>(in.lo), arr<R>(in.hi), Range<double, R>(Array<double, R>(0.0), Array<double, R>(1.0)), st, delta);
  } else return G(arr<R>(full.lo), arr<R>(full.hi));
}

template<class G, size_t R> void history(vh::Case &c) {
  Exchange<G, R> e(c);
  bool withAcc = c.rng.chance(2, 3);
  e.setup(withAcc ? 2 : 1);
  G g = makeGrid<G, R>(e.full, e.in, e.delta, c.rng);
  e.fill(g);
  int n = c.rng.range(1, 4);
  DomainSubdivision<G> &base = e.sub;
  for (int s = 0; s < n; ++s) {
    size_t d = c.rng.range(0, int(R) - 1);
    switch (c.rng.range(0, withAcc ? 5 : 2)) {
      case 0: c.desc << " exchange(" << d << ")"; e.sub.exchange(g, d); e.modelExchange(d); e.compare(g, "exchange"); c.count("exchange"); break;
      case 1: {
        c.desc << " exchange(all)";
        if (c.rng.chance(1, 2)) e.sub.exchange(g); else base.exchange(g);
        for (size_t k = 0; k < R; ++k) e.modelExchange(k);
        e.compare(g, "exchange-all");
        // independent statement: every cell now holds the value of its periodic image
        each<R>(e.full, [&](const long *p) {
          long q[R]; for (size_t k = 0; k < R; ++k) q[k] = wrap(p[k], e.in.lo[k], e.in.hi[k]);
          c.check(g.get(arr<R>(p)) == g.get(arr<R>(q)), "periodic-image", [&](std::ostream &o) { o << pos<R>(p) << " vs " << pos<R>(q); });
        });
        c.count("exchange-all"); break;
      }
      case 2: c.desc << " refill"; e.fill(g); break;
      case 3: case 4: c.desc << " accumulate(" << d << ")"; base.accumulate(g, d); e.modelAccumulate(d); e.compare(g, "accumulate"); c.count("accumulate"); break;
      default:
        c.desc << " accumulate(all)"; base.accumulate(g);
        for (size_t k = 0; k < R; ++k) e.modelAccumulate(k);
        e.compare(g, "accumulate-all"); c.count("accumulate-all"); break;
    }
  }
}

static void misc(vh::Case &c) {
  vh::Rng &r = c.rng;
  typedef SerialSubdivision<Grid<double, 2>> S;
  S s;
  int a = r.range(1, 20), b = r.range(1, 20), delta = r.range(0, 2);
  s.init(Array<int, 2>(a + 2 * delta, b + 2 * delta), delta);
  c.desc << "size init " << a << "x" << b << " delta " << delta;
  c.ok(s.getLo()[0] == 0 && s.getLo()[1] == 0 && s.getHi()[0] == a + 2 * delta - 1 && s.getHi()[1] == b + 2 * delta - 1, "init-size", "");
  int lo = r.range(-9, 9);
  Grid<double, 2> g(Array<int, 2>(lo, lo), Array<int, 2>(lo + a + 2 * delta, lo + b + 2 * delta));
  S s2; s2.init(g, delta);
  c.ok(s2.getLo()[0] == lo && s2.getHi()[1] == lo + b + 2 * delta && s2.getInnerLo()[1] == lo + delta, "init-grid", "");
  double x = std::ldexp(r.real(-100, 100), r.chance(1, 2) ? 0 : r.range(-900, 900)); int k = r.chance(1, 2) ? r.range(-1000, 1000) : r.range(-1000000000, 1000000000);
  c.ok(s.avgReduce(x) == x && s.sumReduce(x) == x && s.maxReduce(x) == x && s.minReduce(x) == x, "reduce-double", "");
  c.ok(s.avgReduce(k) == k && s.sumReduce(k) == k && s.maxReduce(k) == k && s.minReduce(k) == k, "reduce-int", "");
  // data buffers
  typedef S::BufferType B;
  int n = r.chance(1, 10) ? r.range(1000, 40000) : r.range(0, 40), bl = r.range(0, 3);
  B in(B::IndexType(bl), B::IndexType(bl + n - 1)), out(B::IndexType(r.range(1, 9)));
  std::vector<unsigned char> m(n);
  for (int i = 0; i < n; ++i) in(bl + i) = m[i] = (unsigned char)r.range(0, 255);
  s.exchangeData(r.range(0, 1), r.chance(1, 2) ? 1 : -1, in, out);
  c.ok(out.getDims(0) == n && (n == 0 || out.getLo(0) == 0), "buffer-size", "");
  for (int i = 0; i < n; ++i) c.ok(out(i) == m[i], "buffer-content", "");
  for (int i = 0; i < n; ++i) in(bl + i) = (unsigned char)(m[i] + 1);
  for (int i = 0; i < n; ++i) c.ok(out(i) == m[i], "buffer-independent", "writing the sent buffer later must not change what was received");
  in.resize(B::IndexType(n + 3));
  c.ok(out.getDims(0) == n, "buffer-independent-resize", "");
  c.count("buffers");
}

int main(int argc, char **argv) {
  vg::farthest = 1000000000;
  Kokkos::initialize();
  int rc;
  {
    vh::Harness h(argc, argv);
    h.section("grid-1", 400, 8000, history<Grid<double, 1>, 1>);
    h.section("grid-2", 400, 8000, history<Grid<double, 2>, 2>);
    h.section("grid-3", 250, 4000, history<Grid<int, 3>, 3>);
    h.section("grid-4", 120, 1200, history<Grid<long, 4>, 4>);
    h.section("fortran-2", 200, 3000, history<Grid<double, 2, GridAssertCheck, SingleArrayGridStorageFortran>, 2>);
    h.section("fortran-3", 150, 2000, history<Grid<float, 3, GridNoArgCheck, SingleArrayGridStorageFortran>, 3>);
    h.section("lazy-2", 150, 2000, history<Grid<double, 2, GridNoArgCheck, LazyArrayGridStorage>, 2>);
    h.section("field-1", 200, 3000, history<Field<double, 1>, 1>);
    h.section("field-2", 200, 3000, history<Field<double, 2>, 2>);
    h.section("field-3", 120, 1500, history<Field<double, 3>, 3>);
    h.section("interface", 300, 4000, misc);
    h.require("exchange", 200); h.require("exchange-all", 200); h.require("accumulate", 200); h.require("accumulate-all", 100); h.require("buffers", 100);
    rc = h.finish();
  }
  Kokkos::finalize();
  return rc;
}
