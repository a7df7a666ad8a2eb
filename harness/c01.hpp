// C01: every index of a grid addresses its own element, whichever way it is accessed, inside the allocated memory
// and in the documented storage order.
#include "gridcommon.hpp"
using namespace vg;

template<class T> T val(long k) { return T(k); }
template<> inline std::string val<std::string>(long k) { return "element number " + std::to_string(k); }
struct Big { double a; int tag; double pad[3]; Big(double v = -1) : a(v), tag(int(v) ^ 0x55) {} bool operator==(const Big &o) const { return a == o.a && tag == o.tag; } };
template<> inline Big val<Big>(long k) { return Big(double(k)); }

template<class T, size_t R, template<size_t> class Check, template<typename, size_t> class Store, Order order>
void runAccess(vh::Case &c) {
  typedef Grid<T, R, Check, Store> G;
  typedef typename G::IndexType I;
  vh::Rng &r = c.rng;
  bool large = R <= 4 && !std::is_same<T, std::string>::value && c.index % 40 == 17;
  Box<R> b = large ? largeBox<R>(r) : randomBox<R>(r, R <= 3 ? 900 : 400);
  if (large) c.count("large");
  int how = r.range(0, 7);
  if (how == 0) for (size_t d = 0; d < R; ++d) { b.hi[d] -= b.lo[d]; b.lo[d] = 0; }
  c.desc << "rank=" << R << " order=" << order << " T=" << sizeof(T) << " box=" << b.str() << " ctor=" << how;
  I lo = arr<R>(b.lo), hi = arr<R>(b.hi);
  I size; for (size_t d = 0; d < R; ++d) size[d] = int(b.hi[d] - b.lo[d] + 1);
  Range<int, R> range(lo, hi);
  std::unique_ptr<G> gp;
  switch (how) {
    case 0: if (r.chance(1, 2)) gp.reset(new G(size)); else { gp.reset(new G()); gp->resize(size); } break;
    case 1: gp.reset(new G(range)); break;
    case 2: gp.reset(new G()); gp->resize(lo, hi); break;
    case 3: gp.reset(new G()); gp->resize(range); break;
    case 4: { Box<R> o = randomBox<R>(r, 300); gp.reset(new G(arr<R>(o.lo), arr<R>(o.hi))); gp->resize(lo, hi); break; }
    case 5: { Grid<char, R> other(lo, hi); gp.reset(new G()); gp->resize(other); break; }
    default: gp.reset(new G(lo, hi));
  }
  G &g = *gp;
  const G &cg = g;
  checkExtent<G, R>(c, g, b, "constructed grid");
  if (c.failed) return;
  int wmode = r.range(0, 3);
  c.desc << " write=" << wmode;
  each<R>(b, [&](const long *p) {
    long k = offC<R>(b, p);
    I q = arr<R>(p);
    switch (wmode) {
      case 0: g[q] = val<T>(k); break;
      case 1: callOp<G, R>(g, p) = val<T>(k); break;
      case 2: g.get(q) = val<T>(k); break;
      default: { I u, v; for (size_t d = 0; d < R; ++d) { u[d] = int(p[d]) - 3; v[d] = 3; } g[u + v] = val<T>(k); }
    }
  });
  T *base = &g.get(lo);
  long n = b.size();
  std::vector<char> seen(n, 0);
  each<R>(b, [&](const long *p) {
    long k = offC<R>(b, p);
    I q = arr<R>(p);
    I two; for (size_t d = 0; d < R; ++d) two[d] = 2;
    I qm = q - two;
    T expect = val<T>(k);
    bool ok = g[q] == expect && callOp<G, R>(g, p) == expect && g.get(q) == expect && cg.get(q) == expect && cg[q] == expect &&
              callOpC<G, R>(cg, p) == expect && g[qm + two] == expect && cg[qm + two] == expect;
    if constexpr (R == 1) ok = ok && g[int(p[0])] == expect && cg[int(p[0])] == expect;
    c.check(ok, "element-identity", [&](std::ostream &o) { o << "position " << pos<R>(p) << " does not hold the value written to it (write mode " << wmode << ")"; });
    bool same = &g[q] == &g.get(q) && &callOp<G, R>(g, p) == &g.get(q) && &cg.get(q) == &g.get(q);
    c.check(same, "accessors-agree", [&](std::ostream &o) { o << "accessors address different elements at " << pos<R>(p); });
    // address arithmetic
    long want = 0;
    for (size_t d = 0; d < R; ++d) want += (p[d] - b.lo[d]) * long(g.stride(d));
    long off = &g.get(q) - base;
    c.check(off == want, "stride", [&](std::ostream &o) { o << "strides give offset " << want << " for " << pos<R>(p) << ", element is at " << off; });
    if (order == COrder) c.check(off == k, "c-order", [&](std::ostream &o) { o << pos<R>(p) << " stored at " << off << " instead of " << k; });
    if (order == FOrder) { long f = offF<R>(b, p); c.check(off == f, "fortran-order", [&](std::ostream &o) { o << pos<R>(p) << " stored at " << off << " instead of " << f; }); }
    if (order != KokkosOrder) {
      bool fresh = off >= 0 && off < n && !seen[off];
      if (fresh) seen[off] = 1;
      c.check(fresh, "bijection", [&](std::ostream &o) { o << pos<R>(p) << " shares storage slot " << off; });
    }
  });
  if constexpr (order != KokkosOrder) {
    c.ok(g.getRawData() == base, "raw-data", "raw data does not start at the lowest corner");
    c.ok(long(g.end() - g.begin()) == n && long(g.cend() - g.cbegin()) == n, "iterator-span", "storage iterators do not span the grid");
    long k = 0;
    std::vector<const T *> order_;
    for (auto it = g.begin(); it != g.end(); ++it, ++k) order_.push_back(&*it);
    each<R>(b, [&](const long *p) {
      long o = order == COrder ? offC<R>(b, p) : offF<R>(b, p);
      c.check(o < long(order_.size()) && order_[o] == &g.get(arr<R>(p)), "iterator-order", [&](std::ostream &s) { s << "storage iteration misses " << pos<R>(p); });
    });
    if (r.chance(1, 2)) {
      T v = val<T>(n + 5);
      g = v;
      each<R>(b, [&](const long *p) { c.check(g.get(arr<R>(p)) == v, "fill", [&](std::ostream &o) { o << "fill missed " << pos<R>(p); }); });
      c.count("fills");
    }
  }
  c.count(std::string("rank:") + std::to_string(R));
  c.count("ctor:" + std::to_string(how));
  if (n == 1) c.count("single-cell");
}
void addC(vh::Harness &h);
void addF(vh::Harness &h);
void addL(vh::Harness &h);
void addK(vh::Harness &h);
