#ifndef C09_HPP
#define C09_HPP
// C09: data exchange between the processes of an MPI subdivision against a model that holds every process' cells.
#include "mpicommon.hpp"
#include "grid/field.hpp"
#include "grid/mpisubdivision.hpp"
using namespace vg;
using namespace schnek;

static long wrap(long p, long lo, long hi) { long n = hi - lo + 1; return lo + ((p - lo) % n + n) % n; }

template<class G, size_t R> struct World {
  typedef typename G::value_type T;
  vh::Case &c;
  vh::Rng &r;
  Box<R> glob;
  int np, delta;
  MPICartSubdivision<G> sub;
  std::vector<Box<R>> in, full;             // of every process
  std::vector<std::vector<T>> model;        // local cells of every process
  World(vh::Case &c_) : c(c_), r(c_.rng), np(vm::size()) {}

  void setup(int minInner) {
    delta = r.range(r.chance(1, 8) ? 0 : 1, R == 1 ? 4 : 2);
    if (R == 1 && r.chance(1, 10)) delta = r.range(5, 40), c.count("wide-ghosts");
    // more ghost cells than a 16 bit number counts
    bool large = R == 2 && np <= 3 && r.chance(1, 40); size_t lng = r.range(0, int(R) - 1);
    if (large) delta = 2, c.count("large-exchange");
    // inner pieces have at least floor((n-2)/processes) cells however the processes are arranged
    for (size_t d = 0; d < R; ++d) {
      long need = np * std::max(1, minInner * delta) + 2;
      long n = need + r.range(0, R == 1 ? 40 : R == 2 ? 7 : 3);
      if (large && d == lng) n = (R == 2 ? 17000 : 1) * np + r.range(0, 50);
      glob.lo[d] = r.chance(1, 2) ? 0 : r.range(-30, 30);
      glob.hi[d] = glob.lo[d] + n - 1;
    }
    c.desc << np << " processes, rank=" << R << " global " << glob.str() << " delta=" << delta;
    c.crumb(c.desc.str());
    sub.init(arr<R>(glob.lo), arr<R>(glob.hi), delta);
    in = vm::gather<R>(vm::boxOf<R>(sub.getInnerDomain()));
    full = vm::gather<R>(vm::boxOf<R>(sub.getDomain()));
    model.resize(np);
  }
  // the process that owns index x in dimension d and is aligned with process p in all others
  int aligned(int p, size_t d, long x) const {
    for (int q = 0; q < np; ++q) {
      bool ok = in[q].lo[d] <= x && x <= in[q].hi[d];
      for (size_t k = 0; k < R && ok; ++k) if (k != d) ok = in[q].lo[k] == in[p].lo[k] && in[q].hi[k] == in[p].hi[k];
      if (ok) return q;
    }
    return -1;
  }
  void fill(G &g, int me) {
    for (int p = 0; p < np; ++p) {
      model[p].resize(full[p].size());
      each<R>(full[p], [&](const long *x) { T v = T(r.range(std::is_same<T, signed char>::value || std::is_same<T, unsigned char>::value ? 0 : 1, 9)); model[p][offC<R>(full[p], x)] = v; if (p == me) g.get(arr<R>(x)) = v; });
    }
  }
  void compare(G &g, int me, const char *key) {
    each<R>(full[me], [&](const long *x) {
      T v = g.get(arr<R>(x)), w = model[me][offC<R>(full[me], x)];
      c.check(v == w, key, [&](std::ostream &o) { o << "process " << me << " inner " << in[me].str() << " at " << pos<R>(x) << ": " << double(v) << ", expected " << double(w); });
    });
  }
  void modelExchange(size_t d) {
    auto old = model;
    for (int p = 0; p < np; ++p)
      each<R>(full[p], [&](const long *x) {
        if (x[d] >= in[p].lo[d] && x[d] <= in[p].hi[d]) return;
        long y[R]; std::copy(x, x + R, y);
        y[d] = wrap(x[d], glob.lo[d], glob.hi[d]);
        int q = aligned(p, d, y[d]);
        if (q < 0) { c.fail("no-neighbour", in[p].str()); throw std::runtime_error("no neighbour"); }
        model[p][offC<R>(full[p], x)] = old[q][offC<R>(full[q], y)];
      });
  }
  void modelAccumulate(size_t d) {
    auto old = model;
    std::vector<std::vector<T>> sum(np);
    for (int p = 0; p < np; ++p) sum[p].assign(full[p].size(), T());
    for (int round = 0; round < 2; ++round)
      for (int p = 0; p < np; ++p)
        each<R>(full[p], [&](const long *x) {
          long y[R]; std::copy(x, x + R, y);
          y[d] = wrap(x[d], glob.lo[d], glob.hi[d]);
          int q = (x[d] >= in[p].lo[d] && x[d] <= in[p].hi[d]) ? p : aligned(p, d, y[d]);
          if (q < 0) { c.fail("no-neighbour", in[p].str()); throw std::runtime_error("no neighbour"); }
          T &s = sum[q][offC<R>(full[q], y)];
          if (round == 0) s = T(s + old[p][offC<R>(full[p], x)]); else model[p][offC<R>(full[p], x)] = s;
        });
  }
};

template<class G, size_t R> G makeGrid(const Box<R> &full, const Box<R> &in, int delta, vh::Rng &r) {
  if constexpr (std::is_base_of<Grid<typename G::value_type, R>, G>::value && !std::is_same<Grid<typename G::value_type, R>, G>::value) {
    Array<bool, R> st; for (size_t d = 0; d < R; ++d) st[d] = r.chance(1, 2);
    return G(arr<R>(in.lo), arr<R>(in.hi), Range<double, R>(Array<double, R>(0.0), Array<double, R>(1.0)), st, delta);
  } else return G(arr<R>(full.lo), arr<R>(full.hi));
}

// staggers the processes so that messages meet in different orders
static void jitter(vh::Rng &r, int me) {
  int who = r.range(0, 15), us = r.range(0, 300);
  if (who == me) usleep(us);
}

template<class G, size_t R> void history(vh::Case &c) {
  World<G, R> w(c);
  bool acc = c.rng.chance(2, 3);
  w.setup(acc ? 2 : 1);
  const int me = vm::rank();
  G g = makeGrid<G, R>(w.full[me], w.in[me], w.delta, c.rng);
  G other = makeGrid<G, R>(w.full[me], w.in[me], w.delta, c.rng);
  w.fill(g, me);
  DomainSubdivision<G> &base = w.sub;
  int n = c.rng.range(1, 4), budget = 2;
  for (int s = 0; s < n; ++s) {
    size_t d = c.rng.range(0, int(R) - 1);
    jitter(c.rng, me);
    switch (c.rng.range(0, acc && budget > 0 ? 5 : 2)) {
      case 0: c.desc << " exchange(" << d << ")"; w.sub.exchange(g, d); w.modelExchange(d); w.compare(g, me, "exchange"); c.count("exchange"); break;
      case 1: c.desc << " exchange(all)"; w.sub.exchange(g); for (size_t k = 0; k < R; ++k) w.modelExchange(k); w.compare(g, me, "exchange-all"); c.count("exchange-all"); break;
      case 2: c.desc << " refill"; other.get(other.getLo()) = typename G::value_type(7); base.exchange(other); w.fill(g, me); budget = 2; break;
      case 3: case 4: c.desc << " accumulate(" << d << ")"; base.accumulate(g, d); w.modelAccumulate(d); w.compare(g, me, "accumulate"); c.count("accumulate"); --budget; break;
      default: c.desc << " accumulate(all)"; base.accumulate(g); for (size_t k = 0; k < R; ++k) w.modelAccumulate(k); w.compare(g, me, "accumulate-all"); c.count("accumulate-all"); budget = 0; break;
    }
    c.crumb(c.desc.str());
  }
}

// a global field: inner cells set from the global position, ghosts filled by one full exchange
template<class G, size_t R> void globalField(vh::Case &c) {
  World<G, R> w(c);
  w.setup(1);
  const int me = vm::rank();
  uint64_t salt = c.rng.next();
  typedef typename G::value_type T;
  auto f = [&](const long *p) { uint64_t h = salt; for (size_t d = 0; d < R; ++d) h = vh::mix(h ^ uint64_t(p[d] + 1000)); return T(h % 10007); };
  G g = makeGrid<G, R>(w.full[me], w.in[me], w.delta, c.rng);
  each<R>(w.full[me], [&](const long *p) { bool inner = true; for (size_t d = 0; d < R; ++d) inner &= p[d] >= w.in[me].lo[d] && p[d] <= w.in[me].hi[d]; g.get(arr<R>(p)) = inner ? f(p) : T(-1); });
  w.sub.exchange(g);
  each<R>(w.full[me], [&](const long *p) {
    long q[R]; for (size_t d = 0; d < R; ++d) q[d] = wrap(p[d], w.glob.lo[d], w.glob.hi[d]);
    T v = g.get(arr<R>(p)), e = f(q);
    c.check(v == e, "global-field", [&](std::ostream &o) { o << "process " << me << " at " << pos<R>(p) << ": " << double(v) << ", expected " << double(e); });
  });
  c.count("global-fields");
}

template<size_t R> void buffersAndReductions(vh::Case &c) {
  typedef Grid<double, R> G;
  World<G, R> w(c);
  w.setup(1);
  const int me = vm::rank(), np = w.np;
  typedef typename MPICartSubdivision<G>::BufferType B;
  B out(typename B::IndexType(c.rng.range(1, 20)));
  B in;
  int rounds = c.rng.range(1, 4);
  for (int s = 0; s < rounds; ++s) {
    size_t d = c.rng.range(0, int(R) - 1);
    int ori = c.rng.chance(1, 2) ? 1 : -1;
    std::vector<std::vector<unsigned char>> data(np);
    for (int p = 0; p < np; ++p) { data[p].resize(c.rng.chance(1, 6) ? 0 : c.rng.range(0, c.rng.chance(1, 5) ? 20000 : 60)); for (auto &b : data[p]) b = (unsigned char)c.rng.range(0, 255); }
    c.desc << " exchangeData(" << d << "," << ori << " sizes";
    for (int p = 0; p < np; ++p) c.desc << " " << data[p].size();
    c.desc << ")";
    c.crumb(c.desc.str());
    in.resize(typename B::IndexType(int(data[me].size())));
    for (size_t i = 0; i < data[me].size(); ++i) in(int(i)) = data[me][i];
    jitter(c.rng, me);
    w.sub.exchangeData(d, ori, in, out);
    // positive: received from the lower neighbour
    long edge = ori > 0 ? w.in[me].lo[d] - 1 : w.in[me].hi[d] + 1;
    int q = w.aligned(me, d, wrap(edge, w.glob.lo[d], w.glob.hi[d]));
    if (!c.ok(q >= 0 && out.getDims(0) == int(data[q].size()), "buffer-size", "")) continue;
    for (size_t i = 0; i < data[q].size(); ++i) c.ok(out(out.getLo(0) + int(i)) == data[q][i], "buffer-content", "");
    for (size_t i = 0; i < data[me].size(); ++i) c.ok(in(int(i)) == data[me][i], "buffer-kept", "");
    c.count("buffers");
  }
  std::vector<double> x(np); std::vector<int> k(np);
  double scale = c.rng.chance(1, 3) ? 1 / 64.0 : std::ldexp(1.0, c.rng.range(-900, 900)); int most = c.rng.chance(1, 3) ? 100 : 1000000000 / np * 2;
  bool neg = c.rng.chance(1, 3), same = c.rng.chance(1, 8);
  for (int p = 0; p < np; ++p) {
    x[p] = double(c.rng.range(-1000000000, 1000000000)) * scale; k[p] = c.rng.range(-most, most);
    if (neg) { x[p] = -std::fabs(x[p]) - 1; k[p] = -std::abs(k[p]) - 1; }
    if (same) { x[p] = x[0]; k[p] = k[0]; }
  }
  double sx = 0; long sk = 0;
  for (int p = 0; p < np; ++p) { sx += x[p]; sk += k[p]; }
  jitter(c.rng, me);
  c.ok(w.sub.sumReduce(x[me]) == sx, "sum-double", "");
  c.ok(std::fabs(w.sub.avgReduce(x[me]) - sx / np) <= 1e-13 * 1e9 * scale, "avg-double", "");
  c.ok(w.sub.maxReduce(x[me]) == *std::max_element(x.begin(), x.end()), "max-double", "");
  c.ok(w.sub.minReduce(x[me]) == *std::min_element(x.begin(), x.end()), "min-double", "");
  c.ok(w.sub.sumReduce(k[me]) == int(sk), "sum-int", "");
  int av = w.sub.avgReduce(k[me]);
  c.ok(std::fabs(double(av) - double(sk) / np) < 1.0, "avg-int", std::to_string(av));
  c.ok(w.sub.maxReduce(k[me]) == *std::max_element(k.begin(), k.end()), "max-int", "");
  c.ok(w.sub.minReduce(k[me]) == *std::min_element(k.begin(), k.end()), "min-int", "");
  c.count("reductions");
}

void part2(vh::Harness &h);
#endif
