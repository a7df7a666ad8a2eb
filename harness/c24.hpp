// C24: threads that read the same grids, fields, ranges, arrays and boundaries, write distinct elements of one grid, or
// work on objects of their own, see what they would see one after another. Built with ThreadSanitizer; every thread's
// result is also compared with the same work done beforehand by one thread alone.
#include "gridcommon.hpp"
#include "grid/field.hpp"
#include "grid/boundary.hpp"
#include "grid/subgrid.hpp"
#include "grid/gridtransform.hpp"
#include "grid/iteration/range-iteration.hpp"
#include "datastream.hpp"
#include "util/databuffer.hpp"
#include <atomic>
#include <memory>
#include <thread>
using namespace vg;
using namespace schnek;

// The order in which threads passed their sample points. Relaxed operations only: the monitor orders nothing by itself.
struct Trace {
  static const int cap = 4096;
  std::atomic<int> next{0};
  std::atomic<signed char> who[cap];
  void mark(int t) { int k = next.fetch_add(1, std::memory_order_relaxed); if (k < cap) who[k].store((signed char)t, std::memory_order_relaxed); }
  void report(vh::Case &c) {
    int n = std::min(int(next), cap), sw = 0;
    uint64_t hsh = 1469598103934665603ULL;
    for (int k = 0; k < n; ++k) { int w = who[k]; hsh = (hsh ^ uint64_t(w + 1)) * 1099511628211ULL; if (k && who[k] != who[k - 1]) ++sw; }
    c.count("thread-switches", sw);
    if (sw > 1) { static std::unordered_set<uint64_t> seen; if (seen.insert(hsh).second) c.count("interleavings"); }
  }
};

template<class F> void together(vh::Case &c, int n, F f) {
  std::unique_ptr<Trace> tr(new Trace);
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < n; ++t)
    ts.emplace_back([&, t]() {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
      f(t, *tr);
    });
  for (auto &t : ts) t.join();
  tr->report(c);
  c.count("threads", n);
}

template<class T> struct Val { static T of(uint64_t k) { return T(k % 97); } static uint64_t num(const T &v) { return uint64_t(v); } };
template<> struct Val<std::string> { static std::string of(uint64_t k) { return "text of element " + std::to_string(k % 997); } static uint64_t num(const std::string &v) { return vh::hashStr(v); } };
template<> struct Val<double> { static double of(uint64_t k) { return double(k % 100003) * 0.5; } static uint64_t num(double v) { uint64_t u; memcpy(&u, &v, 8); return u; } };
struct Plus { typedef double value_type; double o; Plus(double o_ = 0) : o(o_) {} template<class T> double operator()(const T &x) const { return double(Val<T>::num(x) % 1000) + o; } };
inline void eat(uint64_t &h, uint64_t v) { h = vh::mix(h ^ v); }

template<class G, size_t R> auto callOpC2(const G &g, const long *p) -> decltype(auto) { return callOpC<G, R>(g, p); }

// ---- distinct elements of one grid written by several threads
template<class T, size_t R, template<size_t> class Check, template<typename, size_t> class Store, bool flat>
void distinctElements(vh::Case &c) {
  typedef Grid<T, R, Check, Store> G;
  vh::Rng &r = c.rng;
  Box<R> b = randomBox<R>(r, 260);
  for (size_t d = 0; d < R && b.size() < 12; ++d) b.hi[d] += 3;
  int n = r.range(2, 6), rounds = r.range(1, 4);
  uint64_t seed = r.next();
  bool windows = r.chance(1, 3);
  c.desc << "distinct rank=" << R << " T=" << sizeof(T) << " " << b.str() << " threads=" << n << " rounds=" << rounds << " windows=" << windows << " #" << c.index;
  G g(arr<R>(b.lo), arr<R>(b.hi));
  long cells = b.size();
  // owner of each position: a thread, or nobody (then all may read it)
  std::vector<int> owner(cells);
  size_t cut = 0;
  for (size_t d = 0; d < R; ++d) if (b.hi[d] - b.lo[d] > b.hi[cut] - b.lo[cut]) cut = d;
  long len = b.hi[cut] - b.lo[cut] + 1;
  each<R>(b, [&](const long *p) {
    long k = offC<R>(b, p);
    owner[k] = windows ? int((p[cut] - b.lo[cut]) * n / len) : int(vh::mix(seed ^ uint64_t(k)) % uint64_t(n + 1)) - 1;
    g[arr<R>(p)] = Val<T>::of(uint64_t(k) * 3 + seed);
  });
  std::vector<T> want(cells);
  each<R>(b, [&](const long *p) { long k = offC<R>(b, p); want[k] = owner[k] < 0 ? Val<T>::of(uint64_t(k) * 3 + seed) : Val<T>::of(seed + uint64_t(k) * 7 + uint64_t(rounds - 1)); });
  std::vector<std::string> wrong(n);
  std::vector<long> seen(n, 0);
  together(c, n, [&](int t, Trace &tr) {
    vh::Rng q(seed + 31 * t);
    const G &cg = g;
    for (int k = 0; k < rounds; ++k) {
      int route = q.range(0, 7);
      auto mine = [&](const long *p) { return owner[offC<R>(b, p)] == t; };
      auto value = [&](const long *p) { return Val<T>::of(seed + uint64_t(offC<R>(b, p)) * 7 + uint64_t(k)); };
      auto asLong = [&](const Array<int, R> &i, long *p) { for (size_t d = 0; d < R; ++d) p[d] = i[d]; };
      long step = 0;
      if (windows && route < 3) {
        // a window of its own
        Box<R> w = b;
        bool any = false;
        for (long x = b.lo[cut]; x <= b.hi[cut]; ++x)
          if (int((x - b.lo[cut]) * n / len) == t) { if (!any) w.lo[cut] = x; w.hi[cut] = x; any = true; }
        if (any) {
          SubGrid<G> sg(arr<R>(w.lo), arr<R>(w.hi), g);
          if (route == 0) { T v = Val<T>::of(5); static_cast<typename SubGrid<G>::GridBaseType &>(sg) = v; }
          if (route == 1) for (auto it = sg.begin(); it != sg.end(); ++it) { *it = Val<T>::of(9); if (++step % 16 == 0) tr.mark(t); }
          each<R>(w, [&](const long *p) { if (route == 2) callOp<SubGrid<G>, R>(sg, p) = value(p); else sg[arr<R>(p)] = value(p); if (++step % 16 == 0) tr.mark(t); });
        }
      } else if (route == 3) {
        RangeCIterationPolicy<R>::forEach(g.getRange(), [&](const Array<int, R> &i) { long p[R]; asLong(i, p); if (mine(p)) g[i] = value(p); });
      } else if (route == 4) {
        RangeFortranIterationPolicy<R>::forEach(cg.getRange(), [&](const Array<int, R> &i) { long p[R]; asLong(i, p); if (mine(p)) g.get(i) = value(p); });
      } else if (route == 5) {
        for (auto &i : g.getRange()) { long p[R]; asLong(i, p); if (mine(p)) g[i] = value(p); if (++step % 16 == 0) tr.mark(t); }
      } else {
        each<R>(b, [&](const long *p) {
          if (++step % 16 == 0) tr.mark(t);
          if (!mine(p)) return;
          Array<int, R> i = arr<R>(p), one = Array<int, R>::Ones();
          if (route == 6) callOp<G, R>(g, p) = value(p);
          else if (route == 7) g[i - one + one] = value(p);
          else g[i] = value(p);
        });
      }
      tr.mark(t);
      // own elements hold what was just written, nobody's elements what they always held
      each<R>(b, [&](const long *p) {
        long o = offC<R>(b, p);
        if (owner[o] != t && owner[o] >= 0) return;
        Array<int, R> i = arr<R>(p);
        T e = owner[o] < 0 ? Val<T>::of(uint64_t(o) * 3 + seed) : value(p);
        bool ok = cg.get(i) == e && cg[i] == e && g[i] == e && callOpC<G, R>(cg, p) == e && callOp<G, R>(g, p) == e;
        ++seen[t];
        if (!ok && wrong[t].empty()) { std::ostringstream s; s << "thread " << t << " sees a wrong value at " << pos<R>(p) << " in round " << k; wrong[t] = s.str(); }
      });
    }
  });
  for (int t = 0; t < n; ++t) { c.events += seen[t]; c.check(wrong[t].empty(), "wrong-value", [&](std::ostream &o) { o << wrong[t]; }); }
  checkExtent<G, R>(c, g, b, "after the threads");
  each<R>(b, [&](const long *p) { c.check(g[arr<R>(p)] == want[offC<R>(b, p)], "lost-write", [&](std::ostream &o) { o << pos<R>(p); }); });
  c.count("distinct-writes");
  if (windows) c.count("windows");
}

// ---- read only
template<class T, size_t R, template<size_t> class Check, template<typename, size_t> class Store, bool flat>
struct Frozen {
  typedef Grid<T, R, Check, Store> G;
  typedef Field<T, R, Check, Store> F;
  Box<R> b;
  G g; F f;
  const G cg;
  GridTransform<G, Plus> tg;
  SubGrid<G> sg;
  Range<int, R> range;
  Boundary<R> bound;
  Array<double, R> a, z;
  Array<int, R> ia;
  static Array<bool, R> stag(vh::Rng &r) { Array<bool, R> s; for (size_t d = 0; d < R; ++d) s[d] = r.chance(1, 2); return s; }
  static Range<double, R> dom(vh::Rng &r) { Array<double, R> lo, hi; for (size_t d = 0; d < R; ++d) { lo[d] = r.real(-5, 5); hi[d] = lo[d] + r.real(0.1, 9); } return Range<double, R>(lo, hi); }
  Frozen(const Box<R> &b_, int ghost, vh::Rng &r)
    : b(b_), g(arr<R>(b_.lo), arr<R>(b_.hi)), f(Range<int, R>(arr<R>(b_.lo), arr<R>(b_.hi)), dom(r), stag(r), ghost),
      cg(g), tg(g), sg(arr<R>(b_.lo), arr<R>(b_.hi), g), range(arr<R>(b_.lo), arr<R>(b_.hi)), bound(arr<R>(b_.lo), arr<R>(b_.hi), ghost) {
    each<R>(b, [&](const long *p) { g[arr<R>(p)] = Val<T>::of(r.next()); });
    Array<int, R> lo = f.getLo(), hi = f.getHi();
    Range<int, R> fr(lo, hi);
    for (auto &i : fr) f[i] = Val<T>::of(r.next());
    for (size_t d = 0; d < R; ++d) { a[d] = r.real(-4, 4); z[d] = r.real(1, 3); ia[d] = r.range(-9, 9); }
    tg.setTransformation(Plus(2));
  }
  // some reading, decided by the seed alone
  uint64_t read(uint64_t seed, int t, Trace *tr) {
    vh::Rng q(seed);
    uint64_t h = seed;
    auto mark = [&]() { if (tr) tr->mark(t); };
    for (int k = 0; k < 14; ++k) {
      mark();
      switch (q.range(0, 13)) {
        case 0: each<R>(b, [&](const long *p) { eat(h, Val<T>::num(g[arr<R>(p)])); eat(h, Val<T>::num(callOp<G, R>(g, p))); }); break;
        case 1: each<R>(b, [&](const long *p) { eat(h, Val<T>::num(cg[arr<R>(p)])); eat(h, Val<T>::num(callOpC<G, R>(cg, p))); }); break;
        case 2: for (auto &i : range) { eat(h, Val<T>::num(g.get(i))); eat(h, range.inside(i)); } break;
        case 3: RangeCIterationPolicy<R>::forEach(range, [&](const Array<int, R> &i) { eat(h, Val<T>::num(cg.get(i))); }); break;
        case 4: RangeFortranIterationPolicy<R>::forEach(g.getRange(), [&](const Array<int, R> &i) { eat(h, Val<T>::num(g.get(i))); }); break;
        case 5: for (auto it = sg.begin(); it != sg.end(); ++it) eat(h, Val<T>::num(*it)); break;
        case 6: { const GridTransform<G, Plus> &ct = tg; each<R>(b, [&](const long *p) { eat(h, uint64_t(ct[arr<R>(p)])); }); break; }
        case 7:
          for (size_t d = 0; d < R; ++d) {
            for (int i = f.getLo(int(d)) - 2; i <= f.getHi(int(d)) + 2; ++i) { double x = f.indexToPosition(int(d), i); eat(h, Val<double>::num(x)); }
            for (int i = 0; i < 5; ++i) {
              double x = q.real(f.getDomain().getLo()[d], f.getDomain().getHi()[d]), off; int at;
              f.positionToIndex(int(d), x, at, off); eat(h, uint64_t(at)); eat(h, Val<double>::num(off)); eat(h, uint64_t(f.positionToIndex(int(d), x)));
            }
            eat(h, f.getStagger(int(d)));
            eat(h, uint64_t(f.getInnerLo()[d])); eat(h, uint64_t(f.getInnerHi()[d])); eat(h, uint64_t(f.getInnerRange().getLo()[d]));
          }
          break;
        case 8:
          for (size_t d = 0; d < R; ++d) for (int s = 0; s < 2; ++s) {
            auto side = s ? Boundary<R>::Max : Boundary<R>::Min;
            for (auto dm : {bound.getGhostDomain(d, side), bound.getGhostSourceDomain(d, side), bound.getBoundaryDomain(d, side, q.chance(1, 2)), bound.getInnerDomain()})
              for (size_t e = 0; e < R; ++e) { eat(h, uint64_t(dm.getLo()[e])); eat(h, uint64_t(dm.getHi()[e])); }
          }
          break;
        case 9: {
          Array<double, R> x = a + z * a - a / z, y(-x);
          x += a; y *= z;
          for (size_t d = 0; d < R; ++d) { eat(h, Val<double>::num(x[d])); eat(h, Val<double>::num(y[d])); eat(h, Val<double>::num(a[d])); }
          eat(h, Val<double>::num(a.sqr())); eat(h, uint64_t(ia.product())); eat(h, uint64_t(ia.sum()));
          eat(h, a == z); eat(h, a < z);
          auto zr = Array<int, R>::Zero(); auto on = Array<int, R>::Ones();
          eat(h, uint64_t(zr.sum())); eat(h, uint64_t(on.sum()));
          break;
        }
        case 10: {
          // a grid of its own takes the shared one's size and values
          Grid<T, R> own;
          own.resize(cg);
          for (auto &i : range) own[i] = g[i];
          if constexpr (!std::is_same<T, std::string>::value) { own += g; own -= g; }
          for (auto &i : range) eat(h, Val<T>::num(own[i]));
          break;
        }
        case 11: {
          Array<int, R> lo = f.getLo(), hi = f.getHi();
          Range<int, R> fr(lo, hi);
          const F &cf = f;
          for (auto &i : fr) { eat(h, Val<T>::num(f[i])); eat(h, Val<T>::num(cf[i])); }
          break;
        }
        case 12: {
          Range<int, R> gr = range; gr.grow(2);
          Range<int, R> copy = gr; copy = range;
          for (size_t d = 0; d < R; ++d) { eat(h, uint64_t(gr.getLo(d))); eat(h, uint64_t(copy.getHi(d))); eat(h, uint64_t(g.getDims(int(d)))); eat(h, uint64_t(cg.getLo()[d])); if constexpr (flat) eat(h, uint64_t(g.stride(d))); }
          break;
        }
        default: {
          if constexpr (flat) for (auto it = cg.cbegin(); it != cg.cend(); ++it) eat(h, Val<T>::num(*it));
          std::ostringstream o; o << a << " " << ia; eat(h, vh::hashStr(o.str()));
        }
      }
    }
    return h;
  }
};
template<class T, size_t R, template<size_t> class Check, template<typename, size_t> class Store, bool flat>
void readOnly(vh::Case &c) {
  vh::Rng &r = c.rng;
  Box<R> b = randomBox<R>(r, 160, false, false);
  int ghost = r.range(0, 2);
  for (size_t d = 0; d < R; ++d) b.hi[d] += 2 * ghost;
  int n = r.range(2, 6);
  uint64_t seed = r.next();
  c.desc << "read rank=" << R << " T=" << sizeof(T) << " " << b.str() << " ghost=" << ghost << " threads=" << n << " #" << c.index;
  Frozen<T, R, Check, Store, flat> fz(b, ghost, r);
  std::vector<uint64_t> want(n), got(n), after(n);
  // half of the time all threads read alike
  bool alike = r.chance(1, 2);
  bool first = r.chance(1, 2);
  auto sd = [&](int t) { return seed + (alike ? 0 : 17 * t); };
  // reading alone before or after the threads: a cache that is only filled once is met cold in the second case
  if (first) for (int t = 0; t < n; ++t) want[t] = fz.read(sd(t), t, nullptr);
  together(c, n, [&](int t, Trace &tr) { got[t] = fz.read(sd(t), t, &tr); });
  if (!first) for (int t = 0; t < n; ++t) want[t] = fz.read(sd(t), t, nullptr);
  for (int t = 0; t < n; ++t) c.check(got[t] == want[t], "reading-differs", [&](std::ostream &o) { o << "thread " << t << " read something else than one thread alone"; });
  c.count("read-only");
}

// ---- objects of its own
template<class T, size_t R, template<size_t> class Check, template<typename, size_t> class Store>
uint64_t history(uint64_t seed, int t, Trace *tr) {
  typedef Grid<T, R, Check, Store> G;
  vh::Rng q(seed);
  uint64_t h = seed;
  std::vector<std::unique_ptr<G>> gs;
  auto fill = [&](G &g) { Array<int, R> lo = g.getLo(), hi = g.getHi(); Range<int, R> rg(lo, hi); for (auto &i : rg) g[i] = Val<T>::of(q.next()); };
  auto look = [&](G &g) {
    if (g.getSize() == 0) return;
    Array<int, R> lo = g.getLo(), hi = g.getHi();
    Range<int, R> rg(lo, hi);
    for (auto &i : rg) eat(h, Val<T>::num(g[i]));
    std::ostringstream o; o << lo << hi; eat(h, vh::hashStr(o.str()));
  };
  for (int k = 0; k < 18; ++k) {
    if (tr) tr->mark(t);
    int op = gs.empty() ? 0 : q.range(0, 7);
    Box<R> b = randomBox<R>(q, 60, false, false);
    switch (op) {
      case 0: gs.emplace_back(new G(arr<R>(b.lo), arr<R>(b.hi))); fill(*gs.back()); break;
      case 1: if (gs.size() < 6) gs.emplace_back(new G(*gs[q.next() % gs.size()])); break;
      case 2: { G &g = *gs[q.next() % gs.size()]; g.resize(arr<R>(b.lo), arr<R>(b.hi)); fill(g); break; }
      case 3: *gs[q.next() % gs.size()] = *gs[q.next() % gs.size()]; break;
      case 4: { size_t i = q.next() % gs.size(); gs.erase(gs.begin() + i); break; }
      case 5: { T v = Val<T>::of(q.next()); *gs[q.next() % gs.size()] = v; break; }
      case 6: {
        G &g = *gs[q.next() % gs.size()];
        SubGrid<G> sg(g.getLo(), g.getHi(), g);
        for (auto it = sg.begin(); it != sg.end(); ++it) *it = Val<T>::of(q.next());
        break;
      }
      default: {
        std::vector<double> xs(q.range(0, 6)); for (auto &x : xs) x = q.real(0, 1);
        std::vector<double *> ps; for (auto &x : xs) ps.push_back(&x);
        DataBuffer<double> db; db.makeBuffer(ps);
        if (!xs.empty()) for (auto it = db.begin(); it != db.end(); ++it) eat(h, Val<double>::num(*it));
      }
    }
    for (auto &g : gs) look(*g);
  }
  return h;
}
template<class T, size_t R, template<size_t> class Check, template<typename, size_t> class Store>
void ownObjects(vh::Case &c) {
  vh::Rng &r = c.rng;
  int n = r.range(2, 6);
  uint64_t seed = r.next();
  c.desc << "own rank=" << R << " T=" << sizeof(T) << " threads=" << n << " seed=" << seed;
  std::vector<uint64_t> want(n), got(n);
  for (int t = 0; t < n; ++t) want[t] = history<T, R, Check, Store>(seed + 13 * t, t, nullptr);
  together(c, n, [&](int t, Trace &tr) { got[t] = history<T, R, Check, Store>(seed + 13 * t, t, &tr); });
  for (int t = 0; t < n; ++t) c.check(got[t] == want[t], "own-objects-differ", [&](std::ostream &o) { o << "thread " << t << " sees something else on its own grids than alone"; });
  c.count("own-objects");
}
void addA(vh::Harness &h);
void addB(vh::Harness &h);
