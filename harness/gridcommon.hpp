// Shared pieces of the grid harnesses.
#ifndef VH_GRIDCOMMON_HPP
#define VH_GRIDCOMMON_HPP
#include "common.hpp"
#include "grid/grid.hpp"
#include "grid/gridstorage/kokkos-storage.hpp"
#include "grid/array.hpp"
#include "grid/arrayexpression.hpp"
#include "grid/range.hpp"
#include <Kokkos_Core.hpp>

namespace vg {
using schnek::Array;
using schnek::Range;
using schnek::Grid;
typedef std::size_t size_t;

template<size_t R> struct Box {
  long lo[R], hi[R];
  long size() const { long n = 1; for (size_t d = 0; d < R; ++d) { long k = hi[d] - lo[d] + 1; if (k <= 0) return 0; n *= k; } return n; }
  bool operator==(const Box &o) const { for (size_t d = 0; d < R; ++d) if (lo[d] != o.lo[d] || hi[d] != o.hi[d]) return false; return true; }
  std::string str() const { std::ostringstream o; for (size_t d = 0; d < R; ++d) o << (d ? "x" : "") << "[" << lo[d] << "," << hi[d] << "]"; return o.str(); }
};
template<size_t R> Array<int, R> arr(const long *p) { Array<int, R> a; for (size_t d = 0; d < R; ++d) a[d] = int(p[d]); return a; }

// every position of a box, last index fastest; written independently of the library's iterators
template<size_t R, class F> void each(const Box<R> &b, F f) {
  if (b.size() == 0) return;
  long p[R];
  for (size_t d = 0; d < R; ++d) p[d] = b.lo[d];
  for (;;) {
    f(p);
    size_t d = R;
    for (;;) {
      if (d == 0) return;
      --d;
      if (p[d] < b.hi[d]) { ++p[d]; break; }
      p[d] = b.lo[d];
    }
  }
}
template<size_t R> long offC(const Box<R> &b, const long *p) { long o = 0; for (size_t d = 0; d < R; ++d) o = o * (b.hi[d] - b.lo[d] + 1) + (p[d] - b.lo[d]); return o; }
template<size_t R> long offF(const Box<R> &b, const long *p) { long o = 0; for (size_t d = R; d-- > 0;) o = o * (b.hi[d] - b.lo[d] + 1) + (p[d] - b.lo[d]); return o; }
template<size_t R> std::string pos(const long *p) { std::ostringstream o; o << "("; for (size_t d = 0; d < R; ++d) o << (d ? "," : "") << p[d]; o << ")"; return o.str(); }

// extents: mostly small, asymmetric, sometimes far from the origin, sometimes single cells
inline int farthest = 200000;      // coordinates of far-off boxes
template<size_t R> Box<R> randomBox(vh::Rng &r, long maxCells, bool allowEmpty = false, bool farOut = true) {
  Box<R> b;
  int style = r.range(0, 9);
  long budget = maxCells;
  const bool stretched = style == 6 && r.chance(1, 2);    // one long side
  size_t order[R];
  for (size_t d = 0; d < R; ++d) order[d] = d;
  for (size_t d = R; d-- > 1;) std::swap(order[d], order[r.range(0, int(d))]);
  for (size_t k = 0; k < R; ++k) {
    size_t d = order[k];
    long cap = std::min<long>(budget, stretched && k == 0 ? budget : style == 0 ? 1 : style == 1 ? 2 : (R <= 2 ? 24 : R <= 4 ? 7 : 3));
    long n = cap <= 1 ? 1 : r.range(1, int(cap));
    budget = std::max<long>(1, budget / n);
    long lo;
    switch (style) {
      case 2: lo = 0; break;
      case 3: lo = r.range(-3, 3); break;
      case 4: lo = farOut ? (r.chance(1, 2) ? r.range(-farthest, farthest) : r.range(-200000, 200000)) : r.range(-40, 40); break;
      case 5: lo = -r.range(0, 40) - n; break;       // wholly negative
      default: lo = r.range(-12, 12);
    }
    b.lo[d] = lo;
    b.hi[d] = lo + n - 1;
  }
  if (allowEmpty && r.chance(1, 12)) { size_t d = r.range(0, int(R) - 1); b.hi[d] = b.lo[d] - 1; }
  return b;
}

// a box with more cells than a 16 bit number counts, long in one or two directions
template<size_t R> Box<R> largeBox(vh::Rng &r) {
  Box<R> b;
  size_t lng = r.range(0, int(R) - 1);
  long budget = r.range(70000, 150000);
  for (size_t d = 0; d < R; ++d) { long n = d == lng ? 1 : r.range(1, R <= 2 ? 5 : 3); b.lo[d] = r.range(-50, 50); b.hi[d] = b.lo[d] + n - 1; budget /= n; }
  if (R > 1 && r.chance(1, 2)) { size_t o = (lng + 1 + r.range(0, int(R) - 2)) % R; long n = r.range(2, 300); b.hi[o] += n; budget = std::max<long>(1, budget / (n + 1)); }
  b.hi[lng] = b.lo[lng] + budget - 1;
  return b;
}

template<class G, size_t R> typename std::remove_reference<decltype(std::declval<G &>().get(std::declval<Array<int, R>>()))>::type &
callOp(G &g, const long *p) {
  if constexpr (R == 1) return g(int(p[0]));
  else if constexpr (R == 2) return g(int(p[0]), int(p[1]));
  else if constexpr (R == 3) return g(int(p[0]), int(p[1]), int(p[2]));
  else if constexpr (R == 4) return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]));
  else if constexpr (R == 5) return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]), int(p[4]));
  else if constexpr (R == 6) return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]), int(p[4]), int(p[5]));
  else if constexpr (R == 7) return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]), int(p[4]), int(p[5]), int(p[6]));
  else if constexpr (R == 8) return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]), int(p[4]), int(p[5]), int(p[6]), int(p[7]));
  else if constexpr (R == 9) return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]), int(p[4]), int(p[5]), int(p[6]), int(p[7]), int(p[8]));
  else return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]), int(p[4]), int(p[5]), int(p[6]), int(p[7]), int(p[8]), int(p[9]));
}
template<class G, size_t R> typename G::value_type callOpC(const G &g, const long *p) {
  if constexpr (R == 1) return g(int(p[0]));
  else if constexpr (R == 2) return g(int(p[0]), int(p[1]));
  else if constexpr (R == 3) return g(int(p[0]), int(p[1]), int(p[2]));
  else if constexpr (R == 4) return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]));
  else if constexpr (R == 5) return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]), int(p[4]));
  else if constexpr (R == 6) return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]), int(p[4]), int(p[5]));
  else if constexpr (R == 7) return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]), int(p[4]), int(p[5]), int(p[6]));
  else if constexpr (R == 8) return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]), int(p[4]), int(p[5]), int(p[6]), int(p[7]));
  else if constexpr (R == 9) return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]), int(p[4]), int(p[5]), int(p[6]), int(p[7]), int(p[8]));
  else return g(int(p[0]), int(p[1]), int(p[2]), int(p[3]), int(p[4]), int(p[5]), int(p[6]), int(p[7]), int(p[8]), int(p[9]));
}

enum Order { COrder, FOrder, KokkosOrder };

// grid extents as the grid reports them must be the model's
template<class G, size_t R> bool checkExtent(vh::Case &c, const G &g, const Box<R> &b, const char *what) {
  bool ok = true;
  for (size_t d = 0; d < R; ++d) {
    bool e = g.getLo()[d] == b.lo[d] && g.getHi()[d] == b.hi[d] && g.getDims()[d] == b.hi[d] - b.lo[d] + 1 &&
             g.getLo(int(d)) == b.lo[d] && g.getHi(int(d)) == b.hi[d] && g.getDims(int(d)) == b.hi[d] - b.lo[d] + 1 &&
             g.getRange().getLo(d) == b.lo[d] && g.getRange().getHi(d) == b.hi[d];
    ok &= c.check(e, "extent", [&](std::ostream &o) {
      o << what << ": dim " << d << " reports lo=" << g.getLo()[d] << " hi=" << g.getHi()[d] << " dims=" << g.getDims()[d]
        << ", expected " << b.str();
    });
  }
  ok &= c.check(long(g.getSize()) == b.size(), "size", [&](std::ostream &o) { o << what << ": size " << g.getSize() << " for " << b.str(); });
  return ok;
}
} // namespace vg
#endif
