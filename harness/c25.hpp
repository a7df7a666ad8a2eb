// C25: a whole simulation - setup file, subdivision, fields filled from formulas, steps with exchange, accumulation and
// reductions, HDF5 output and restart from it - gives on any number of processes what one global periodic array gives.
#include "mpicommon.hpp"
#include "variables.hpp"
#include "parser.hpp"
#include "functions.hpp"
#include "variables/function_expression.hpp"
#include "variables/dependencies.hpp"
#include "grid/field.hpp"
#include "grid/iteration/range-iteration.hpp"
#include "grid/mpisubdivision.hpp"
#include "grid/domainsubdivision.hpp"
#include "tools/fieldtools.hpp"
#include "diagnostic/hdfdiagnostic.hpp"
#include "util/databuffer.hpp"
#include <hdf5.h>
#include <sys/stat.h>
using namespace vg;
using namespace schnek;

inline long wrapTo(long p, long n) { return ((p % n) + n) % n; }

// what is known to every process before the simulation starts
template<size_t R> struct Plan {
  long n[R]; long lo[R]; double L[R], L0[R]; bool stA[R], stB[R];
  int ghost = 1; bool serial = false, early = false, filler = false, restart = false;
  double c1 = 0, c2 = 0;
  Box<R> glob() const { Box<R> b; for (size_t d = 0; d < R; ++d) { b.lo[d] = lo[d]; b.hi[d] = lo[d] + n[d] - 1; } return b; }
};
template<size_t R> struct Now { static Plan<R> plan; };
template<size_t R> Plan<R> Now<R>::plan;

// particles at odd multiples of an eighth of a cell, so that no position is on the edge of a cell or of a staggered cell
template<size_t R> struct Part { int id; long x[R]; double q; long v[R]; };
inline long cellOf(long x) { return x >= 0 ? x / 8 : -((-x + 7) / 8); }

template<size_t R> class Sim;
template<size_t R> struct Live { static Sim<R> *sim; };
template<size_t R> Sim<R> *Live<R>::sim = nullptr;

template<size_t R> class Sim : public Block {
  public:
    typedef Field<double, R> F;
    Array<double, R> x, L; Array<pParameter, R> px; Array<int, R> N;
    double c1, c2, a0, b0; pParameter pa, pb;
    std::shared_ptr<DomainSubdivision<F>> sub;
    F A, B;
    int filled = 0;
    std::vector<Part<R>> parts;
    Sim() { Live<R>::sim = this; }
    void make() {
      const Plan<R> &p = Now<R>::plan;
      Array<int, R> lo = arr<R>(p.lo), hi; Array<double, R> l0, l1; Array<bool, R> sa, sb;
      for (size_t d = 0; d < R; ++d) { hi[d] = lo[d] + N[d] - 1; l0[d] = p.L0[d]; l1[d] = p.L0[d] + L[d]; sa[d] = p.stA[d]; sb[d] = p.stB[d]; }
      if (p.serial) {      // the given domain of the serial subdivision includes the ghost cells
        sub.reset(new SerialSubdivision<F>());
        Array<int, R> g(p.ghost); sub->init(Array<int, R>(lo - g), Array<int, R>(hi + g), p.ghost);
      } else {
        sub.reset(new MPICartSubdivision<F>());
        bool zero = true; for (size_t d = 0; d < R; ++d) zero = zero && p.lo[d] == 0;
        if (zero) sub->init(N, p.ghost); else sub->init(lo, hi, p.ghost);
      }
      Range<double, R> ext = sub->getInnerExtent(Range<double, R>(l0, l1));
      A.resize(sub->getInnerLo(), sub->getInnerHi(), ext, sa, p.ghost);
      B = F(sub->getInnerDomain(), ext, sb, p.ghost);
      addData("A", A); addData("B", B);
    }
  protected:
    void initParameters(BlockParameters &p) {
      px = p.addArrayParameter("", x, BlockParameters::readonly);
      p.addArrayParameter("N", N, 1); p.addArrayParameter("L", L, 1.0);
      p.addParameter("c1", &c1, 0.5); p.addParameter("c2", &c2, 0.25);
      pa = p.addParameter("A0", &a0, 0.0); pb = p.addParameter("B0", &b0, 0.0);
    }
    void registerData() { if (Now<R>::plan.early) make(); }
    void preInit() { if (!Now<R>::plan.early) make(); }
    void init() {
      if (Now<R>::plan.restart) { A = -9e9; B = -9e9; return; }
      pBlockVariables bv = getVariables();
      pDependencyMap dm(new DependencyMap(bv));
      DependencyUpdater up(dm), up2(dm);
      up.addIndependentArray(px); up2.addIndependentArray(px);
      if (Now<R>::plan.filler) {
        FieldFiller ff;
        up.addDependent(pa); up2.addDependent(pb);
        ff.set(x, up)(A, a0); ff.set(x, up2)(B, b0);
        ff.fillFields();
      } else { fill_field(A, x, a0, up, pa); fill_field(B, x, b0, up2, pb); }
      ++filled;
    }
};
struct Ends { virtual ~Ends() {} virtual void end() = 0; };
extern std::vector<Ends *> outputs;
struct Reads { virtual ~Reads() {} virtual void run() = 0; };
extern std::vector<Reads *> inputs;
template<size_t R, class D> class Out : public HDFGridDiagnostic<Field<double, R>, D>, public Ends {
  public:
    Out() { outputs.push_back(this); }
    void end() { this->close(); }
  protected:
    Array<int, R> getGlobalMin() { return Live<R>::sim->sub->getGlobalDomain().getLo(); }
    Array<int, R> getGlobalMax() { return Live<R>::sim->sub->getGlobalDomain().getHi(); }
};
template<size_t R> class In : public HDFGridReader<Field<double, R>>, public Reads {
  public:
    In() { inputs.push_back(this); }
    void run() { this->execute(); }
  protected:
    Array<int, R> getGlobalMin() { return Live<R>::sim->sub->getGlobalDomain().getLo(); }
    Array<int, R> getGlobalMax() { return Live<R>::sim->sub->getGlobalDomain().getHi(); }
};

inline std::vector<double> readAll(vh::Case &c, const std::string &file, const std::string &set, const std::vector<long> &dims) {
  std::vector<double> v;
  hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (!c.ok(f >= 0, "file-missing", file)) return v;
  hid_t ds = H5Dopen2(f, set.c_str(), H5P_DEFAULT);
  if (c.ok(ds >= 0, "dataset-missing", file + " " + set)) {
    hid_t sp = H5Dget_space(ds);
    int nd = H5Sget_simple_extent_ndims(sp);
    std::vector<hsize_t> have(std::max(1, nd));
    if (nd > 0) H5Sget_simple_extent_dims(sp, have.data(), NULL);
    bool same = nd == int(dims.size());
    size_t n = 1;
    for (size_t i = 0; same && i < dims.size(); ++i) { same = long(have[i]) == dims[i]; n *= dims[i]; }
    if (c.ok(same, "dataset-extent", file)) { v.resize(n); c.ok(H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) >= 0, "dataset-reads", file); }
    H5Sclose(sp); H5Dclose(ds);
  }
  H5Fclose(f);
  return v;
}

// a polynomial in the coordinates, as text and as value
template<size_t R> struct Poly {
  struct Term { double c; int f[2]; };      // factors: -1 none, 0..R-1 coordinates, R the parameter k, R+1 the variable m
  std::vector<Term> t;
  static Poly draw(vh::Rng &r, bool withM) {
    Poly p; int n = r.range(2, 4);
    for (int i = 0; i < n; ++i) { Term q; q.c = r.range(-20, 20) / 10.0; for (int &f : q.f) f = r.range(-1, int(R) + (withM ? 1 : 0)); p.t.push_back(q); }
    Term lin; lin.c = r.range(1, 30) / 10.0; lin.f[0] = r.range(0, int(R) - 1); lin.f[1] = -1; p.t.push_back(lin);
    return p;
  }
  static const char *name(int f) { static const char *ax[] = {"x", "y", "z"}; return f < int(R) ? ax[f] : f == int(R) ? "k" : "m"; }
  std::string text() const {
    std::ostringstream o;
    for (size_t i = 0; i < t.size(); ++i) {
      o << (i ? " + " : "") << "(" << (t[i].c < 0 ? "-" : "");
      char b[32]; snprintf(b, sizeof b, "%.2f", std::fabs(t[i].c)); o << b;
      for (int f : t[i].f) if (f >= 0) o << "*" << name(f);
      o << ")";
    }
    return o.str();
  }
  double at(const double *x, double k, double m) const {
    double s = 0;
    for (auto &q : t) { double v = q.c; for (int f : q.f) if (f >= 0) v *= f < int(R) ? x[f] : f == int(R) ? k : m; s += v; }
    return s;
  }
};

// the same simulation on one global periodic array
template<size_t R> struct Ref {
  const Plan<R> &p; Box<R> g; std::vector<double> A, B; std::vector<Part<R>> parts;
  Ref(const Plan<R> &p_) : p(p_), g(p_.glob()), A(g.size()), B(g.size()) {}
  size_t at(const long *q) const { long w[R]; for (size_t d = 0; d < R; ++d) w[d] = g.lo[d] + wrapTo(q[d] - g.lo[d], p.n[d]); return size_t(offC<R>(g, w)); }
  size_t off(const long *q, size_t d, long by) const { long w[R]; std::copy(q, q + R, w); w[d] += by; return at(w); }
};
template<size_t R, class F> void offsets(F f) {        // all neighbours, corners included
  Box<R> b; for (size_t d = 0; d < R; ++d) { b.lo[d] = -1; b.hi[d] = 1; }
  each<R>(b, f);
}
template<size_t R, class F> void corners(F f) {
  Box<R> b; for (size_t d = 0; d < R; ++d) { b.lo[d] = 0; b.hi[d] = 1; }
  each<R>(b, f);
}
template<size_t R> double weight(const long *o) { double w = 0.9 / 27; for (size_t d = 0; d < R; ++d) w *= 1 + 0.3 * o[d] * double(d + 1); return w * (R == 1 ? 9 : R == 2 ? 3 : 1); }

template<size_t R> void refStep(Ref<R> &s, int rule, int step) {
  const double c1 = s.p.c1, c2 = s.p.c2;
  std::vector<double> A = s.A, B = s.B;
  switch (rule) {
    case 0:
      each<R>(s.g, [&](const long *q) { double v = 0; for (size_t d = 0; d < R; ++d) v += c1 * (B[s.at(q)] - B[s.off(q, d, -1)]); s.A[s.at(q)] = 0.9 * A[s.at(q)] + v / R; });
      each<R>(s.g, [&](const long *q) { double v = 0; for (size_t d = 0; d < R; ++d) v += c2 * (s.A[s.off(q, d, 1)] - s.A[s.at(q)]); s.B[s.at(q)] = 0.9 * B[s.at(q)] + v / R; });
      break;
    case 1:
      each<R>(s.g, [&](const long *q) { double v = 0; offsets<R>([&](const long *o) { long w[R]; for (size_t d = 0; d < R; ++d) w[d] = q[d] + o[d]; v += weight<R>(o) * A[s.at(w)]; }); s.A[s.at(q)] = v; });
      break;
    case 2: {
      std::fill(s.B.begin(), s.B.end(), 0.0);
      each<R>(s.g, [&](const long *q) { offsets<R>([&](const long *o) { long w[R]; for (size_t d = 0; d < R; ++d) w[d] = q[d] + o[d]; s.B[s.at(w)] += weight<R>(o) * A[s.at(q)]; }); });
      break;
    }
    case 3: {
      double sum = 0, mx = A[0], mn = B[0];
      for (double v : A) { sum += v; mx = std::max(mx, v); }
      for (double v : B) mn = std::min(mn, v);
      double n = double(A.size());
      for (size_t i = 0; i < A.size(); ++i) { s.A[i] = A[i] - 0.5 * sum / n + 0.01 * mx; s.B[i] = B[i] - 0.1 * mn + 0.001 * n; }
      break;
    }
    case 5:      // particles move and are deposited on the nearest two points of B in each dimension
      std::fill(s.B.begin(), s.B.end(), 0.0);
      for (auto &t : s.parts) {
        long i[R]; double f[R];
        for (size_t d = 0; d < R; ++d) {
          t.x[d] += t.v[d];
          if (cellOf(t.x[d]) < s.g.lo[d]) t.x[d] += 8 * s.p.n[d]; else if (cellOf(t.x[d]) > s.g.hi[d]) t.x[d] -= 8 * s.p.n[d];
          long y = t.x[d] - (s.p.stB[d] ? 4 : 0); i[d] = cellOf(y); f[d] = (y - 8 * i[d]) / 8.0;
        }
        corners<R>([&](const long *o) { long w[R]; double v = t.q; for (size_t d = 0; d < R; ++d) { w[d] = i[d] + o[d]; v *= o[d] ? f[d] : 1 - f[d]; } s.B[s.at(w)] += v; });
      }
      break;
    default:      // a source at one place of the global domain
      { long q[R]; for (size_t d = 0; d < R; ++d) q[d] = s.g.lo[d] + (step * 7 + long(d) * 3) % s.p.n[d]; s.A[s.at(q)] += 5; }
      each<R>(s.g, [&](const long *q) { if (q[0] == s.g.lo[0]) s.B[s.at(q)] = 1.5; if (q[R - 1] == s.g.hi[R - 1]) s.B[s.at(q)] = -2.5; });
  }
}
template<size_t R> void simStep(Sim<R> &s, int rule, int step) {
  typedef typename Sim<R>::F F;
  F &A = s.A, &B = s.B;
  DomainSubdivision<F> &sub = *s.sub;
  Box<R> in = vm::boxOf<R>(sub.getInnerDomain());
  Range<int, R> inner = A.getInnerRange();
  switch (rule) {
    case 0:
      sub.exchange(B);
      for (auto &i : inner) { double v = 0; for (size_t d = 0; d < R; ++d) { Array<int, R> m = i; m[d] -= 1; v += s.c1 * (B[i] - B[m]); } A[i] = 0.9 * A[i] + v / R; }
      for (size_t d = 0; d < R; ++d) sub.exchange(A, d);
      for (auto &i : inner) { double v = 0; for (size_t d = 0; d < R; ++d) { Array<int, R> m = i; m[d] += 1; v += s.c2 * (A[m] - A[i]); } B[i] = 0.9 * B[i] + v / R; }
      break;
    case 1: {
      sub.exchange(A);
      Grid<double, R> next(inner);
      RangeCIterationPolicy<R>::forEach(inner, [&](const Array<int, R> &i) { double v = 0; offsets<R>([&](const long *o) { v += weight<R>(o) * A[i + arr<R>(o)]; }); next[i] = v; });
      for (auto &i : inner) A[i] = next[i];
      break;
    }
    case 2:
      B = 0.0;
      for (auto &i : inner) offsets<R>([&](const long *o) { B[i + arr<R>(o)] += weight<R>(o) * A[i]; });
      sub.accumulate(B);
      break;
    case 3: {
      double sum = 0, mx = A[inner.getLo()], mn = B[inner.getLo()]; int n = 0;
      for (auto &i : inner) { sum += A[i]; mx = std::max(mx, A[i]); mn = std::min(mn, B[i]); ++n; }
      sum = sub.sumReduce(sum); mx = sub.maxReduce(mx); mn = sub.minReduce(mn); double all = double(sub.sumReduce(n));
      for (auto &i : inner) { A[i] = A[i] - 0.5 * sum / all + 0.01 * mx; B[i] = B[i] - 0.1 * mn + 0.001 * all; }
      break;
    }
    case 5: {
      Range<int, R> glob = sub.getGlobalDomain();
      for (auto &t : s.parts) for (size_t d = 0; d < R; ++d) t.x[d] += t.v[d];
      for (size_t d = 0; d < R; ++d) {
        std::list<Part<R>> go[2]; std::list<Part<R> *> ptr[2]; std::vector<Part<R>> stay;
        for (auto t : s.parts) {
          long q = cellOf(t.x[d]), n = glob.getHi(d) - glob.getLo(d) + 1;
          int to = q < in.lo[d] ? 0 : q > in.hi[d] ? 1 : 2;
          if (to == 0 && sub.isBoundLo(d)) t.x[d] += 8 * n;
          if (to == 1 && sub.isBoundHi(d)) t.x[d] -= 8 * n;
          if (to == 2) stay.push_back(t); else go[to].push_back(t);
        }
        s.parts = stay;
        for (int o = 0; o < 2; ++o) {
          for (auto &t : go[o]) ptr[o].push_back(&t);
          DataBuffer<Part<R>> out, got;
          out.makeBuffer(ptr[o]);
          sub.exchangeData(d, o ? 1 : -1, out.getBuffer(), got.getBuffer());
          for (auto it = got.begin(); it != got.end(); ++it) s.parts.push_back(*it);
        }
      }
      B = 0.0;
      for (auto &t : s.parts) {
        const Plan<R> &p = Now<R>::plan; Array<int, R> i; double f[R];
        bool near = true;
        for (size_t d = 0; d < R; ++d) {
          B.positionToIndex(int(d), p.L0[d] + s.L[d] / s.N[d] * (t.x[d] / 8.0 - p.lo[d]), i[d], f[d]);
          near = near && i[d] >= B.getLo(d) && i[d] < B.getHi(d);
        }
        if (near) corners<R>([&](const long *o) { double v = t.q; for (size_t d = 0; d < R; ++d) v *= o[d] ? f[d] : 1 - f[d]; B[i + arr<R>(o)] += v; });
      }
      sub.accumulate(B);
      break;
    }
    default: {
      Range<int, R> glob = sub.getGlobalDomain();
      Array<int, R> q; for (size_t d = 0; d < R; ++d) q[d] = int(glob.getLo(d) + (step * 7 + long(d) * 3) % (glob.getHi(d) - glob.getLo(d) + 1));
      if (sub.getInnerDomain().inside(q)) A[q] += 5;
      // the outer boundaries, by the processes that hold them; the upper one of the last dimension has the last word
      if (sub.isBoundLo(0)) { Array<int, R> hi = inner.getHi(); hi[0] = inner.getLo(0); SubGrid<F> w(inner.getLo(), hi, B); for (auto it = w.begin(); it != w.end(); ++it) *it = 1.5; }
      if (sub.isBoundHi(R - 1)) { Array<int, R> lo = inner.getLo(); lo[R - 1] = inner.getHi(R - 1); SubGrid<F> w(lo, inner.getHi(), B); for (auto it = w.begin(); it != w.end(); ++it) *it = -2.5; }
    }
  }
}
void cleanUp();
template<size_t R> void whole(vh::Case &c);
