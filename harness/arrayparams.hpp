#ifndef ARRAYPARAMS_HPP
#define ARRAYPARAMS_HPP
// Array parameters: each way of adding them, any rank, component names and defaults. Needs a setup file parser.
#include "deckcommon.hpp"
#include "variables.hpp"
#include "parser.hpp"
#include "functions.hpp"
#include "variables/function_expression.hpp"
#include "variables/dependencies.hpp"
#include "grid/array.hpp"
namespace va {
using namespace schnek;
// what the block of the running case registers
template<size_t R> struct Plan {
  struct Arr { std::string name, ext; bool defaultExt; int form; bool intType; int defs[6]; };   // form 0 none, 1 array, 2 common default, 3 read-only (plain)
  static std::vector<Arr> arrays;
  static Array<double, R, ArrayAssertArgCheck> d[6]; static Array<int, R> i[6];
  static Array<pParameter, R, ArrayAssertArgCheck> pd[6]; static Array<pParameter, R> pi[6];
  static Array<double, R> x; static Array<pParameter, R> px; static int refused;
};
template<size_t R> std::vector<typename Plan<R>::Arr> Plan<R>::arrays;
template<size_t R> Array<double, R, ArrayAssertArgCheck> Plan<R>::d[6]; template<size_t R> Array<int, R> Plan<R>::i[6];
template<size_t R> Array<pParameter, R, ArrayAssertArgCheck> Plan<R>::pd[6]; template<size_t R> Array<pParameter, R> Plan<R>::pi[6];
template<size_t R> Array<double, R> Plan<R>::x; template<size_t R> Array<pParameter, R> Plan<R>::px; template<size_t R> int Plan<R>::refused;

template<size_t R, class V, class Q> void registerOne(BlockParameters &p, const typename Plan<R>::Arr &a, V &v, Q &q) {
  typedef typename std::decay<decltype(v[0])>::type T;
  const BlockParameters::Permissions rw = BlockParameters::readwrite, ro = BlockParameters::readonly;
  V def; for (size_t k = 0; k < R; ++k) def[k] = T(a.defs[k]);
  if (a.defaultExt) {
    if (a.form == 0) q = p.addArrayParameter(a.name, v); else if (a.form == 1) q = p.addArrayParameter(a.name, v, def);
    else if (a.form == 2) q = p.addArrayParameter(a.name, v, T(a.defs[0])); else q = p.addArrayParameter(a.name, v, ro);
  } else {
    if (a.form == 0) q = p.addArrayParameter(a.name, v, rw, a.ext); else if (a.form == 1) q = p.addArrayParameter(a.name, v, def, rw, a.ext);
    else if (a.form == 2) q = p.addArrayParameter(a.name, v, T(a.defs[0]), rw, a.ext); else q = p.addArrayParameter(a.name, v, ro, a.ext);
  }
}
template<size_t R> class Blk : public Block {
  protected:
    void initParameters(BlockParameters &p) {
      typedef Plan<R> P;
      P::px = p.addArrayParameter("indep", P::x, BlockParameters::readonly);
      for (size_t k = 0; k < P::arrays.size(); ++k) {
        if (P::arrays[k].intType) registerOne<R>(p, P::arrays[k], P::i[k], P::pi[k]); else registerOne<R>(p, P::arrays[k], P::d[k], P::pd[k]);
      }
      // too few names for the components: refused, nothing is registered
      if (R > 1) {
        Array<int, R> w;
        for (int form = 0; form < 3; ++form)
          try {
            std::string e = std::string("stuvw").substr(0, R - 1);
            if (form == 0) p.addArrayParameter("short", w, BlockParameters::readwrite, e); else if (form == 1) p.addArrayParameter("short", w, w, BlockParameters::readwrite, e);
            else p.addArrayParameter("short", w, 3, BlockParameters::readwrite, e);
          } catch (SchnekException &) { ++P::refused; } catch (std::exception &) { ++P::refused; }
      }
    }
};
template<size_t R> void arrayCase(vh::Case &c) {
  typedef Plan<R> P;
  vh::Rng &r = c.rng;
  P::arrays.clear(); P::refused = 0;
  int n = r.range(1, 6);
  static const char *exts[] = {"123456", "abcdefgh", "xyzuvw", "zyxwvu", "fedcba"};
  std::string deck, later;
  double want[6][6]; bool formula[6][6]; double scale[6][6]; int from[6][6];
  for (size_t k = 0; k < R; ++k) P::x[k] = r.range(-40, 40) / 4.0;
  c.desc << "rank " << R << ":";
  for (int a = 0; a < n; ++a) {
    typename P::Arr q; q.name = "A" + std::to_string(a); q.form = r.range(0, 3); q.intType = r.chance(1, 2); q.defaultExt = r.chance(1, 2);
    q.ext = q.defaultExt ? "xyzuvw" : exts[r.range(0, 4)];
    std::vector<int> order;
    for (size_t k = 0; k < R; ++k) {
      q.defs[k] = r.range(-500, 500); order.push_back(int(k)); formula[a][k] = false;
      want[a][k] = q.form == 1 ? q.defs[k] : q.form == 2 ? q.defs[0] : q.form == 3 ? r.range(1, 99) : 0;
      if (q.intType) P::i[a][k] = q.form == 3 ? int(want[a][k]) : -7777; else P::d[a][k] = q.form == 3 ? want[a][k] : -7777;
    }
    for (size_t k = R; k > 1; --k) std::swap(order[k - 1], order[r.range(0, int(k) - 1)]);
    for (int k : order) {
      std::string nm = q.name + q.ext[k];
      if (q.form == 3) { later += "float r" + nm + " = " + nm + " + 0.0;\n"; continue; }
      if (q.form == 0 || r.chance(1, 2)) {
        if (!q.intType && r.chance(1, 3)) { formula[a][k] = true; from[a][k] = r.range(0, int(R) - 1); scale[a][k] = r.range(1, 9); deck += nm + " = " + std::to_string(int(scale[a][k])) + " * indep" + "xyzuvw"[from[a][k]] + ";\n"; }
        else { want[a][k] = r.range(-900, 900); deck += nm + " = " + std::to_string(int(want[a][k])) + ";\n"; }
      }
    }
    c.desc << " " << q.name << "/" << q.form << (q.intType ? "i" : "d") << q.ext; c.count("form:" + std::to_string(q.form));
    P::arrays.push_back(q);
  }
  deck += later + "int end = 1;\n";
  c.desc << "\n" << deck; c.crumb(c.desc.str());
  auto expect = [&](int a, int k) { return formula[a][k] ? scale[a][k] * P::x[from[a][k]] : want[a][k]; };
  auto compare = [&](const char *when) {
    for (int a = 0; a < n; ++a) for (size_t k = 0; k < R; ++k) {
      double got = P::arrays[a].intType ? double(P::i[a][k]) : P::d[a][k];
      c.check(got == expect(a, int(k)), "array-parameter", [&](std::ostream &o) { o << when << ": component " << k << " of " << P::arrays[a].name << " (" << P::arrays[a].ext << ", form " << P::arrays[a].form << ") is " << got << ", expected " << expect(a, int(k)); });
    }
  };
  try {
    BlockClasses bc; bc.registerBlock("app").setClass<Blk<R>>();
    VariableStorage vars("App", "app"); FunctionRegistry fr; registerAllFunctions(fr);
    Parser parser(vars, fr, bc);
    std::istringstream is(deck);
    pBlock b = parser.parse(is, "deck");
    b->initAll();
    c.ok(P::refused == (R > 1 ? 3 : 0), "short-extension", "an array with more components than names must be refused");
    compare("after reading");
    pDependencyMap dm(new DependencyMap(vars.getRootBlock()));
    DependencyUpdater up(dm);
    up.addIndependentArray(P::px);
    for (int a = 0; a < n; ++a) { if (P::arrays[a].intType) up.addDependentArray(P::pi[a]); else up.addDependentArray(P::pd[a]); }
    for (int round = 0; round < 3; ++round) {
      for (size_t k = 0; k < R; ++k) if (r.chance(2, 3)) P::x[k] = r.range(-40, 40) / 4.0;
      up.update();
      compare("after an update");
    }
    // a group of the components holds these and nothing else
    ParametersGroup g; std::set<int> in;
    for (int a = 0; a < n; ++a) if (!P::arrays[a].intType && r.chance(1, 2)) { Array<pParameter, R, ArrayAssertArgCheck> q = P::pd[a]; g.addArray(q); in.insert(a); }
    for (int a = 0; a < n; ++a) if (!P::arrays[a].intType) for (size_t k = 0; k < R; ++k) c.ok(g.isElement(P::pd[a][k]->getVariable()) == bool(in.count(a)), "group-array", "a group holds the components of the arrays added to it");
    c.count("arrays", n);
  }
  catch (ParserError &e) { c.fail("rejected", "valid setup file rejected: line " + std::to_string(e.getLine()) + ": " + e.message); }
  catch (EvaluationException &e) { c.fail("rejected", "valid setup file not evaluated: " + e.getMessage()); }
  catch (SchnekException &e) { c.fail("rejected", std::string("valid setup file: ") + typeid(e).name()); }
}
inline void sections(vh::Harness &h, long q, long t) {
  h.section("arrays-1", q / 2, t / 2, arrayCase<1>); h.section("arrays-2", q, t, arrayCase<2>); h.section("arrays-3", q, t, arrayCase<3>);
  h.section("arrays-4", q, t, arrayCase<4>); h.section("arrays-6", q, t, arrayCase<6>);
  for (const char *k : {"form:0", "form:1", "form:2", "form:3"}) h.require(k, 20);
}
}
#endif
