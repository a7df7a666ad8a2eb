// C02: histories of construct / copy / assign / resize / destroy / write over grids that share data.
#include "gridcommon.hpp"
#include "grid/field.hpp"
using namespace vg;

// element type that counts its live instances and carries a canary, so that leaks, double destruction and stale storage show
struct Tracked {
  static long live;
  double v;
  unsigned canary;
  Tracked(double v_ = 0) : v(v_), canary(0xC0FFEEu) { ++live; }
  Tracked(const Tracked &o) : v(o.v), canary(0xC0FFEEu) { ++live; }
  Tracked &operator=(const Tracked &o) { v = o.v; if (canary != 0xC0FFEEu) ++bad; return *this; }
  ~Tracked() { if (canary != 0xC0FFEEu) ++bad; canary = 0xDEADu; --live; }
  static long bad;
};
inline double num(const Tracked &t) { return t.canary == 0xC0FFEEu ? t.v : -12345.0; }
inline double num(double v) { return v; }
inline double num(int v) { return v; }

template<size_t R> struct Shared {          // model of one piece of shared data
  bool allocated = false;
  Box<R> box;
  std::vector<double> v;
  std::vector<char> def;
  void shape(const Box<R> &b) { allocated = true; box = b; v.assign(b.size(), 0); def.assign(b.size(), 0); }
};

template<class T, size_t R, template<size_t> class Check, template<typename, size_t> class Store, bool fillable>
void runHistory(vh::Case &c) {
  typedef Grid<T, R, Check, Store> G;
  typedef typename G::IndexType I;
  typedef std::shared_ptr<Shared<R>> S;
  struct H { std::unique_ptr<G> g; S s; };
  vh::Rng &r = c.rng;
  const long live0 = Tracked::live, bad0 = Tracked::bad;
  {
    std::vector<H> hs;
    int steps = r.range(6, 40);
    double next = 1;
    const long cells = r.chance(1, 5) ? 2000 : 60;
    const size_t crowd = r.chance(1, 12) ? r.range(15, 45) : 7;      // handles at the same time
    const bool large = r.chance(1, 100); if (large) { steps = r.range(4, 9); c.count("large"); }
    if (crowd > 7 && !large) { steps = r.range(60, 120); c.count("crowds"); }
    auto box = [&]() { return large && r.chance(2, 3) ? largeBox<R>(r) : randomBox<R>(r, cells, true); };
    auto anyAllocated = [&]() { std::vector<size_t> k; for (size_t i = 0; i < hs.size(); ++i) if (hs[i].s->allocated) k.push_back(i); return k; };
    for (int st = 0; st < steps && !c.failed; ++st) {
      int op = r.range(0, 15);
      if (hs.empty()) op = 0;
      if (hs.size() > (large ? 3 : crowd) && op <= 3) op = 4;
      if (crowd > 7 && hs.size() < crowd && r.chance(1, 2)) op = r.range(1, 3);
      if (hs.empty()) op = 0;
      if (op == 0) {
        H h; h.s = std::make_shared<Shared<R>>();
        if (r.chance(1, 4)) { h.g.reset(new G()); c.desc << " new()#" << hs.size(); }
        else {
          Box<R> b = box();
          if (r.chance(1, 2)) h.g.reset(new G(arr<R>(b.lo), arr<R>(b.hi))); else h.g.reset(new G(Range<int, R>(arr<R>(b.lo), arr<R>(b.hi))));
          h.s->shape(b); c.desc << " new" << b.str() << "#" << hs.size();
        }
        hs.push_back(std::move(h));
      } else if (op <= 3) {      // copy construct
        size_t i = r.range(0, int(hs.size()) - 1);
        H h; h.s = hs[i].s; h.g.reset(new G(*hs[i].g));
        c.desc << " copy" << i << "#" << hs.size();
        hs.push_back(std::move(h)); c.count("op:copy");
      } else if (op <= 6) {      // assign, self assignment included
        size_t i = r.range(0, int(hs.size()) - 1), j = r.range(0, int(hs.size()) - 1);
        c.desc << " " << i << "=" << j;
        c.count(i == j ? "op:self-assign" : hs[i].s == hs[j].s ? "op:assign-sharer" : "op:assign");
        *hs[i].g = *hs[j].g; hs[i].s = hs[j].s;
      } else if (op <= 9) {      // resize through any handle
        size_t i = r.range(0, int(hs.size()) - 1);
        Box<R> b = box();
        if (hs[i].s->allocated && r.chance(1, 4)) {   // nearly the same size
          b = hs[i].s->box; size_t d = r.range(0, int(R) - 1); int dl = r.range(-2, 2); b.lo[d] += dl; b.hi[d] += r.chance(1, 2) ? dl : 0; if (b.hi[d] < b.lo[d]) b.hi[d] = b.lo[d];
        }
        int how = r.range(0, 3);
        c.desc << " resize" << how << "@" << i << b.str();
        if (how == 0) hs[i].g->resize(arr<R>(b.lo), arr<R>(b.hi));
        else if (how == 1) hs[i].g->resize(typename G::RangeType(arr<R>(b.lo), arr<R>(b.hi)));
        else if (how == 2) { Grid<char, R> o(arr<R>(b.lo), arr<R>(b.hi)); hs[i].g->resize(o); }
        else { for (size_t d = 0; d < R; ++d) { b.hi[d] -= b.lo[d]; b.lo[d] = 0; } I n; for (size_t d = 0; d < R; ++d) n[d] = int(b.hi[d] + 1); hs[i].g->resize(n); }
        long sharers = 0; for (auto &h : hs) if (h.s == hs[i].s) ++sharers;
        if (sharers > 1) c.count("op:resize-shared");
        c.count("op:resize");
        hs[i].s->shape(b);
      } else if (op == 10) {     // destroy
        size_t i = r.range(0, int(hs.size()) - 1);
        c.desc << " del" << i;
        hs.erase(hs.begin() + i); c.count("op:destroy");
      } else if (op == 11) {     // pass by value, return by value
        size_t i = r.range(0, int(hs.size()) - 1);
        auto f = [](G g) { return g; };
        G tmp = f(*hs[i].g);
        c.desc << " byvalue" << i;
        if (hs[i].s->allocated && hs[i].s->box.size()) { tmp.get(arr<R>(hs[i].s->box.lo)) = T(next); long k = offC<R>(hs[i].s->box, hs[i].s->box.lo); hs[i].s->v[k] = next; hs[i].s->def[k] = 1; next += 1; }
      } else if (op == 12 && fillable) {
        auto k = anyAllocated();
        if (k.empty()) continue;
        size_t i = r.pick(k);
        if constexpr (fillable) { *hs[i].g = T(next); }
        for (auto &x : hs[i].s->v) x = next; for (auto &x : hs[i].s->def) x = 1;
        next += 1; c.desc << " fill" << i; c.count("op:fill");
      } else {                   // write through one handle
        auto k = anyAllocated();
        if (k.empty()) continue;
        size_t i = r.pick(k);
        Box<R> &b = hs[i].s->box;
        if (b.size() == 0) continue;
        int n = r.chance(1, 2) ? int(b.size()) : 1;
        c.desc << " write" << n << "@" << i;
        if (n > 1) each<R>(b, [&](const long *p) { (*hs[i].g)[arr<R>(p)] = T(next); long q = offC<R>(b, p); hs[i].s->v[q] = next; hs[i].s->def[q] = 1; next += 1; });
        else { long p[R]; for (size_t d = 0; d < R; ++d) p[d] = r.range(int(b.lo[d]), int(b.hi[d])); callOp<G, R>(*hs[i].g, p) = T(next); long q = offC<R>(b, p); hs[i].s->v[q] = next; hs[i].s->def[q] = 1; next += 1; }
        if (next > 1e9) next = 1;
      }
      // the monitor: every live handle must agree with the model of the data it holds
      for (size_t i = 0; i < hs.size() && !c.failed; ++i) {
        if (!hs[i].s->allocated) continue;
        const G &g = *hs[i].g;
        const Shared<R> &s = *hs[i].s;
        if (!checkExtent<G, R>(c, g, s.box, ("handle " + std::to_string(i) + " after step " + std::to_string(st)).c_str())) break;
        each<R>(s.box, [&](const long *p) {
          long q = offC<R>(s.box, p);
          double got = num(g.get(arr<R>(p)));     // also makes the sanitizer see the access
          if (s.def[q]) c.check(got == s.v[q], "shared-value", [&](std::ostream &o) { o << "handle " << i << " holds " << got << " at " << pos<R>(p) << ", expected " << s.v[q] << " after step " << st; });
          else c.events++;
        });
        // sharers really are the same storage; non-sharers never
        if (s.box.size() > 0)
          for (size_t j = 0; j < i; ++j) if (hs[j].s->allocated && hs[j].s->box.size() > 0) {
            bool same = &hs[j].g->get(hs[j].g->getLo()) == &hs[i].g->get(hs[i].g->getLo());
            c.check(same == (hs[j].s == hs[i].s), "sharing", [&](std::ostream &o) { o << "handles " << j << " and " << i << (same ? " share data although unrelated" : " lost the data they share") << " after step " << st; });
          }
      }
      std::set<Shared<R> *> u; for (auto &h : hs) u.insert(h.s.get());
      c.count("groups:" + std::to_string(std::min<size_t>(u.size(), 5)));
    }
    // destruction in random order
    while (!hs.empty()) hs.erase(hs.begin() + r.range(0, int(hs.size()) - 1));
  }
  c.check(Tracked::live == live0, "leak", [&](std::ostream &o) { o << Tracked::live - live0 << " elements still alive after the last grid was destroyed"; });
  c.check(Tracked::bad == bad0, "lifetime", [&](std::ostream &o) { o << "elements were used outside their lifetime"; });
}
