// C18: fields are filled with the value their formula has at the position of every cell.
#include "deckcommon.hpp"
#include "arrayparams.hpp"
#include "gridcommon.hpp"
#include "variables.hpp"
#include "parser.hpp"
#include "functions.hpp"
#include "variables/function_expression.hpp"
#include "variables/dependencies.hpp"
#include "grid/field.hpp"
#include "tools/fieldtools.hpp"
using namespace schnek;
using namespace vg;
using vd::Val;

static const int N = 4;                     // formulas of the case, alternating real and integer valued
static double pf[N]; static int pn[N]; static double tm, sc; static int mode;
static pParameter qf[N], qn[N], qt, qm;
template<size_t R> struct Co { static Array<double, R> x; static Array<pParameter, R> q; static Array<int, R> size, other; static Array<double, R> len; };
template<size_t R> Array<double, R> Co<R>::x; template<size_t R> Array<pParameter, R> Co<R>::q; template<size_t R> Array<int, R> Co<R>::size; template<size_t R> Array<int, R> Co<R>::other; template<size_t R> Array<double, R> Co<R>::len;
static const char *axes = "xyzuvw";

template<size_t R> class App : public Block {
  protected:
    void initParameters(BlockParameters &p) {
      Co<R>::q = p.addArrayParameter("", Co<R>::x, BlockParameters::readonly);
      qt = p.addParameter("time", &tm, BlockParameters::readonly);
      qm = p.addParameter("mode", &mode, BlockParameters::readonly);
      p.addConstant("scale", sc);
      for (int i = 0; i < N; ++i) { qf[i] = p.addParameter("F" + std::to_string(i), &pf[i], -999.0); qn[i] = p.addParameter("I" + std::to_string(i), &pn[i], -999); }
      p.addArrayParameter("N", Co<R>::size, 7); Array<double, R> d; for (size_t i = 0; i < R; ++i) d[i] = 1.5 + i; p.addArrayParameter("L", Co<R>::len, d);
      p.addArrayParameter("p", Co<R>::other, 3, BlockParameters::readwrite, "abcdefg");
    }
};

template<class FT, size_t R> struct Filled { FT f; Box<R> in, mem; double lo[R], dx[R]; bool st[R]; int which; };
template<class FT, size_t R> void makeField(vh::Rng &r, Filled<FT, R> &m, int cells) {
  int ghost = r.range(0, 2);
  bool lng = r.chance(1, 25);
  m.in = randomBox<R>(r, cells, false, false);
  for (size_t d = 0; d < R; ++d) while (m.in.hi[d] - m.in.lo[d] > (R == 1 ? 40 : R == 2 ? 8 : 3)) m.in.hi[d] = m.in.lo[d] + r.range(0, R == 1 ? 40 : R == 2 ? 8 : 3);
  if (lng) { size_t d = r.range(0, int(R) - 1); m.in.hi[d] = m.in.lo[d] + r.range(12, R == 1 ? 200 : R == 2 ? 60 : 20); }
  m.mem = m.in;
  Array<double, R> lo, hi; Array<bool, R> st;
  for (size_t d = 0; d < R; ++d) {
    m.mem.lo[d] -= ghost; m.mem.hi[d] += ghost;
    m.dx[d] = r.range(1, 8) / 8.0; m.lo[d] = r.range(-24, 24) / 8.0; m.st[d] = r.chance(1, 2);
    lo[d] = m.lo[d]; hi[d] = m.lo[d] + m.dx[d] * (m.in.hi[d] - m.in.lo[d] + 1); st[d] = m.st[d];
  }
  m.f = FT(arr<R>(m.in.lo), arr<R>(m.in.hi), Range<double, R>(lo, hi), st, ghost);
  m.f = typename FT::value_type(-4444);
}

struct Formula { vd::pNode e; vd::Type target; std::string txt; };

// the value at a point, through the intermediate variables of the setup file
struct World {
  std::vector<std::pair<std::string, vd::pNode>> mids;
  vd::Env env;
  Val at(const Formula &f) { for (auto &m : mids) env.vars[m.first] = vd::eval(*m.second, env); return vd::to(vd::eval(*f.e, env), f.target); }
};
template<class FT, size_t R> void place(World &w, const Filled<FT, R> &m, const long *p) {
  for (size_t d = 0; d < R; ++d) w.env.vars[std::string(1, axes[d])] = Val::Flt(m.lo[d] + (p[d] - m.in.lo[d] + (m.st[d] ? .5 : 0.)) * m.dx[d], 1e-15 * (std::fabs(m.lo[d]) + (60 + double(m.in.hi[d] - m.in.lo[d])) * m.dx[d]));
}
static void setTime(vh::Rng &r, World &w) { tm = r.range(-16, 16) / 4.0; mode = r.range(-4, 6); w.env.vars["time"] = Val::Flt(tm); w.env.vars["mode"] = Val::Int(mode); }

template<class FT, size_t R> bool usable(World &w, const Filled<FT, R> &m, const Formula &f) {
  bool good = true;
  each<R>(m.mem, [&](const long *p) { if (!good) return; place<FT, R>(w, m, p); try { w.at(f); } catch (vd::Unusable &) { good = false; } catch (vd::DivZero &) { good = false; } });
  return good;
}
template<class FT, size_t R> void compare(vh::Case &c, World &w, Filled<FT, R> &m, const Formula &f, const char *when) {
  each<R>(m.mem, [&](const long *p) {
    place<FT, R>(w, m, p);
    Val want = w.at(f);
    double got = double(m.f.get(arr<R>(p)));
    bool ok = f.target == vd::F ? vd::agrees(want, got) : got == double(want.i);
    c.check(ok, "field-value", [&](std::ostream &o) { o.precision(17); o << when << ": " << f.txt << " at " << pos<R>(p) << " of " << m.mem.str() << " gave " << got << ", expected "; if (f.target == vd::F) o << want.d << " +- " << 1e3 * want.err; else o << want.i; });
  });
  c.count("cells", m.mem.size());
}
template<class FT, size_t R> bool untouched(Filled<FT, R> &m) { bool good = true; each<R>(m.mem, [&](const long *p) { good = good && m.f.get(arr<R>(p)) == typename FT::value_type(-4444); }); return good; }

template<size_t R, template<class, size_t> class ST> void fieldCase(vh::Case &c) {
  typedef Field<double, R, GridNoArgCheck, ST> DF; typedef Field<int, R, GridNoArgCheck, ST> IF;
  vh::Rng &r = c.rng;
  World w;
  sc = r.range(1, 16) / 4.0; w.env.vars["scale"] = Val::Flt(sc);
  for (int i = 0; i < N; ++i) { pf[i] = 0; pn[i] = 0; }
  setTime(r, w);
  std::vector<Filled<DF, R>> df(r.range(1, 3)); std::vector<Filled<IF, R>> nf(r.range(0, 2));
  for (auto &m : df) { makeField<DF, R>(r, m, 60); m.which = r.range(0, N - 1); }
  for (auto &m : nf) { makeField<IF, R>(r, m, 60); m.which = r.range(0, N - 1); }
  for (auto &m : df) for (auto &k : df) if (&m < &k && m.which == k.which) c.count("shared-formula");
  vd::Gen g(r); g.maxChain = 3;
  for (size_t d = 0; d < R; ++d) for (int k = 0; k < 2; ++k) g.vars.push_back({std::string(1, axes[d]), vd::F});
  g.vars.push_back({"time", vd::F}); g.vars.push_back({"mode", vd::I}); g.vars.push_back({"scale", vd::F});
  for (auto &f : vd::library()) if (f.name != "fmod") g.funcs.push_back(&f);
  // the points of all fields, to judge whether a formula has a value everywhere
  auto everywhere = [&](const Formula &f) { for (auto &m : df) if (!usable<DF, R>(w, m, f)) return false; for (auto &m : nf) if (!usable<IF, R>(w, m, f)) return false; return true; };
  std::string deck;
  int mids = r.range(0, 3);
  for (int k = 0; k < mids; ++k) {
    for (int tries = 0; tries < 60; ++tries) {
      Formula f; f.target = vd::F; f.e = g.expr(vd::F, 1);
      if (!everywhere(f)) continue;
      std::string nm = "mid" + std::to_string(k);
      deck += "float " + nm + " = " + vd::text(r, *f.e, 1) + ";\n";
      w.mids.push_back({nm, f.e}); g.vars.push_back({nm, vd::F}); g.vars.push_back({nm, vd::F});
      break;
    }
  }
  Formula F[N], In[N];
  for (int k = 0; k < 2 * N; ++k) {
    bool real = k < N; int i = k % N; bool need = false;
    if (real) { for (auto &m : df) need = need || m.which == i; } else for (auto &m : nf) need = need || m.which == i;
    if (!need) continue;
    Formula &f = real ? F[i] : In[i]; f.target = real ? vd::F : vd::I;
    for (int tries = 0; tries < 120 && !f.e; ++tries) {
      Formula q = f; q.e = g.expr(real ? vd::F : r.chance(1, 2) ? vd::F : vd::I, r.range(0, 2));
      if (vd::stackNeed(*q.e) < 90 && everywhere(q)) f.e = q.e;
    }
    if (!f.e) { f.e = g.lit(f.target); }
    f.txt = vd::text(r, *f.e, 1);
    deck += (real ? "F" : "I") + std::to_string(i) + " = " + f.txt + ";\n";
  }
  // sizes from the setup file
  Array<int, R> sz, ot; Array<double, R> ln;
  for (size_t d = 0; d < R; ++d) {
    sz[d] = 7; ln[d] = 1.5 + d; ot[d] = 3;
    if (r.chance(1, 2)) { sz[d] = r.range(1, 500); deck += std::string("N") + axes[d] + " = " + std::to_string(sz[d]) + ";\n"; }
    if (r.chance(1, 2)) { ln[d] = r.range(1, 500) / 4.0; deck += std::string("L") + axes[d] + " = " + vd::fltText(ln[d]) + ";\n"; }
    if (r.chance(1, 2)) { ot[d] = r.range(1, 500); deck += std::string("p") + "abcdefg"[d] + " = " + std::to_string(ot[d]) + ";\n"; }
  }
  deck += "\n int end = 1;\n";
  c.desc << "rank " << R << " "; for (auto &m : df) c.desc << m.mem.str() << " "; c.desc << deck;
  c.crumb(c.desc.str());
  // the setup file is read with the coordinates at one of the cells
  for (size_t d = 0; d < R; ++d) Co<R>::x[d] = df[0].lo[d] + (df[0].st[d] ? .5 : 0.) * df[0].dx[d];
  try {
    BlockClasses bc; bc.registerBlock("app").setClass<App<R>>();
    VariableStorage vars("App", "app"); FunctionRegistry fr; registerAllFunctions(fr);
    Parser P(vars, fr, bc);
    std::istringstream is(deck);
    pBlock b = P.parse(is, "deck");
    b->initAll();
    for (size_t d = 0; d < R; ++d) {
      c.check(Co<R>::size[d] == sz[d] && Co<R>::len[d] == ln[d] && Co<R>::other[d] == ot[d], "array-parameter", [&](std::ostream &o) { o << "component " << d << ": " << Co<R>::size[d] << " " << Co<R>::len[d] << " " << Co<R>::other[d] << ", expected " << sz[d] << " " << ln[d] << " " << ot[d]; });
    }
    pDependencyMap dm(new DependencyMap(vars.getRootBlock()));
    DependencyUpdater up(dm), up2(dm);
    for (DependencyUpdater *u : {&up, &up2}) { u->addIndependentArray(Co<R>::q); u->addIndependent(qt); u->addIndependent(qm); }
    int how = r.range(0, 2);
    auto times = [&](int k) {     // another time at which everything has a value
      if (k == 0) return true;
      double ot = tm; int om = mode;
      for (int t = 0; t < 20; ++t) {
        setTime(r, w); bool good = true;
        for (int i = 0; i < N; ++i) good = good && (!F[i].e || everywhere(F[i])) && (!In[i].e || everywhere(In[i]));
        if (good) return true;
      }
      tm = ot; mode = om; w.env.vars["time"] = Val::Flt(tm); w.env.vars["mode"] = Val::Int(mode);
      return false;
    };
    int rounds = r.range(1, 3);
    if (how == 0) {
      // one formula at a time, the updater is told which one
      for (int k = 0; k < rounds && times(k); ++k) {
        for (size_t i = 0; i < df.size(); ++i) {
          double kept[N]; int keptN[N]; std::copy(pf, pf + N, kept); std::copy(pn, pn + N, keptN);
          fill_field(df[i].f, Co<R>::x, pf[df[i].which], up, qf[df[i].which]);
          for (int q = 0; q < N; ++q) c.ok((q == df[i].which || pf[q] == kept[q]) && pn[q] == keptN[q], "other-formula", "filling from one formula evaluated another one");
          compare<DF, R>(c, w, df[i], F[df[i].which], "dependent given");
          if (k == 0) for (size_t j = i + 1; j < df.size(); ++j) c.ok(untouched<DF, R>(df[j]), "other-field", "filling one field changed another");
        }
        for (auto &m : nf) { fill_field(m.f, Co<R>::x, pn[m.which], up, qn[m.which]); compare<IF, R>(c, w, m, In[m.which], "integers, dependent given"); }
        for (auto &m : df) compare<DF, R>(c, w, m, F[m.which], "after the others");
      }
      c.count("how:dependent");
    } else if (how == 1) {
      // all formulas registered once
      for (auto &m : df) up.addDependent(qf[m.which]); for (auto &m : nf) up.addDependent(qn[m.which]);
      for (int k = 0; k < rounds && times(k); ++k) {
        for (auto &m : df) { fill_field(m.f, Co<R>::x, pf[m.which], up); }
        for (auto &m : nf) { fill_field(m.f, Co<R>::x, pn[m.which], up); }
        for (auto &m : df) compare<DF, R>(c, w, m, F[m.which], "registered");
        for (auto &m : nf) compare<IF, R>(c, w, m, In[m.which], "integers, registered");
      }
      c.count("how:registered");
    } else {
      FieldFiller ff;
      if (r.chance(1, 3)) { Filled<DF, R> gone[3]; int ng = r.range(1, 3); for (int k = 0; k < ng; ++k) { makeField<DF, R>(r, gone[k], 20); ff.set(Co<R>::x, up)(gone[k].f, pf[k % N]); } ff.clear(); ff.fillFields(); for (int k = 0; k < ng; ++k) c.ok(untouched<DF, R>(gone[k]), "cleared", "a field filler that was cleared fills no field"); }
      for (auto &m : df) up.addDependent(qf[m.which]); for (auto &m : nf) up2.addDependent(qn[m.which]);
      auto adder = ff.set(Co<R>::x, up);
      for (auto &m : df) adder(m.f, pf[m.which]);
      if (!nf.empty()) { auto a2 = ff.set(Co<R>::x, up2); for (auto &m : nf) a2(m.f, pn[m.which]); }
      for (auto &m : df) c.ok(untouched<DF, R>(m), "filled-early", "");
      for (int k = 0; k < rounds && times(k); ++k) {
        ff.fillFields();
        for (auto &m : df) compare<DF, R>(c, w, m, F[m.which], "field filler");
        for (auto &m : nf) compare<IF, R>(c, w, m, In[m.which], "integers, field filler");
      }
      c.count("how:filler");
    }
    c.ok(tm == w.env.vars["time"].d && mode == w.env.vars["mode"].i, "independents", "filling changed an independent variable");
    c.count("fields", long(df.size() + nf.size()));
  }
  catch (ParserError &e) { c.fail("rejected", "valid setup file rejected: line " + std::to_string(e.getLine()) + ": " + e.message); }
  catch (EvaluationException &e) { c.fail("rejected", "valid setup file not evaluated: " + e.getMessage()); }
  catch (SchnekException &e) { c.fail("rejected", std::string("valid setup file not evaluated: ") + typeid(e).name()); }
}

int main(int argc, char **argv) {
  vh::Harness h(argc, argv);
  va::sections(h, 40, 1000);
  h.section("rank1", 350, 9000, fieldCase<1, SingleArrayGridStorage>);
  h.section("rank2", 300, 8000, fieldCase<2, SingleArrayGridStorage>);
  h.section("rank2-fortran", 150, 4000, fieldCase<2, SingleArrayGridStorageFortran>);
  h.section("rank3", 200, 5000, fieldCase<3, SingleArrayGridStorage>);
  h.section("rank3-lazy", 100, 3000, fieldCase<3, LazyArrayGridStorage>);
  h.require("how:dependent", 20); h.require("how:registered", 20); h.require("how:filler", 20); h.require("cells", 10000);
  return h.finish();
}
