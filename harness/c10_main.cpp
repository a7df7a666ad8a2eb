// C10: expressions of a setup file evaluate to what ordinary arithmetic says.
#include "deckcommon.hpp"
#include "variables.hpp"
#include "parser/parsersettings.hpp"
#include "parser.hpp"
#include "functions.hpp"
#include "variables/function_expression.hpp"
#include "variables/dependencies.hpp"
using namespace schnek;
using vd::Val;

static const int N = 3;
static double pf[N], vx, vy; static int pn[N], vn; static std::string ps[N], vs;
static pParameter qx, qy, qn, qf[N], qi[N], qs[N];
static double cx; static int ci; static std::string cs;
static bool dynamic;

class App : public Block {
  protected:
    void initParameters(BlockParameters &p) {
      p.addConstant("cx", cx); p.addConstant("ci", ci); p.addConstant("cs", cs);
      if (dynamic) {
        qx = p.addParameter("vx", &vx, BlockParameters::readonly);
        qy = p.addParameter("vy", &vy, BlockParameters::readonly);
        qn = p.addParameter("vn", &vn, BlockParameters::readonly);
      }
      for (int i = 0; i < N; ++i) {
        std::string k = std::to_string(i);
        qf[i] = p.addParameter("f" + k, &pf[i], -999.0);
        qi[i] = p.addParameter("n" + k, &pn[i], -999);
        qs[i] = p.addParameter("s" + k, &ps[i], std::string("unset"));
      }
    }
};

static int calls = 0;
static int iadd(int a, int b) { ++calls; return a + 2 * b; }
static int ineg(double a) { ++calls; return a < 0 ? -1 : 1; }
static std::string scat(std::string a, std::string b) { ++calls; return "<" + a + "|" + b + ">"; }
static std::string srep(int n, std::string a) { ++calls; std::string r; for (int i = 0; i < n; ++i) r += a; return r; }
static int slen(std::string a) { ++calls; return int(a.size()); }
static double mix4(double a, int b, double c, int d) { ++calls; return a + 10.0 * b - 100 * c + 1000.0 * d; }
static double half(double a) { ++calls; return a / 2; }
static double mix6(double a, int b, double c, int d, double e, int f) { ++calls; return a + 2.0 * b + 4 * c + 8.0 * d + 16 * e + 32.0 * f; }
static std::string scat6(std::string a, std::string b, int c, std::string d, int e, std::string f) { ++calls; return f + "/" + std::to_string(e) + "/" + d + "/" + std::to_string(c) + "/" + b + "/" + a; }
static int seven() { ++calls; return 7; }
static double quarter() { ++calls; return 0.25; }
static std::string hello() { ++calls; return "hello"; }

static std::vector<vd::FuncDesc> own;
static void makeOwn() {
  using namespace vd;
  auto add = [&](const char *n, Type r, std::vector<Type> a, std::function<Val(const std::vector<Val> &)> f) { FuncDesc d; d.name = n; d.result = r; d.args = a; d.exactF = f; own.push_back(d); };
  add("iadd", I, {I, I}, [](const std::vector<Val> &a) { if (std::labs(a[1].i) > 100000000) throw Unusable(); return Val::Int(a[0].i + 2 * a[1].i); });
  add("ineg", I, {F}, [](const std::vector<Val> &a) { if (std::fabs(a[0].d) < 1e-6 && a[0].err != 0) throw Unusable(); return Val::Int(a[0].d < 0 ? -1 : 1); });
  add("scat", S, {S, S}, [](const std::vector<Val> &a) { return Val::Str("<" + a[0].s + "|" + a[1].s + ">"); });
  add("srep", S, {I, S}, [](const std::vector<Val> &a) { if (a[0].i > 5) throw Unusable(); std::string r; for (int i = 0; i < a[0].i; ++i) r += a[1].s; return Val::Str(r); });
  add("slen", I, {S}, [](const std::vector<Val> &a) { return Val::Int(long(a[0].s.size())); });
  add("mix4", F, {F, I, F, I}, [](const std::vector<Val> &a) { double r = a[0].d + 10.0 * a[1].i - 100 * a[2].d + 1000.0 * a[3].i; bool ex = a[0].err == 0 && a[2].err == 0; return Val::Flt(r, ex ? 0 : a[0].err + 100 * a[2].err + 1e-15 * (std::fabs(a[0].d) + std::fabs(10.0 * a[1].i) + std::fabs(100 * a[2].d) + std::fabs(1000.0 * a[3].i))); });
  add("mix6", F, {F, I, F, I, F, I}, [](const std::vector<Val> &a) { double r = 0, err = 0, sz = 0, w = 1; for (auto &v : a) { double x = v.t == vd::I ? double(v.i) : v.d; r += w * x; sz += w * std::fabs(x); if (v.t != vd::I) err += w * v.err; w *= 2; } return Val::Flt(r, err + 1e-15 * sz); });
  add("scat6", S, {S, S, I, S, I, S}, [](const std::vector<Val> &a) { return Val::Str(a[5].s + "/" + std::to_string(a[4].i) + "/" + a[3].s + "/" + std::to_string(a[2].i) + "/" + a[1].s + "/" + a[0].s); });
  add("half", F, {F}, [](const std::vector<Val> &a) { return Val::Flt(a[0].d / 2, a[0].err / 2); });
  add("seven", I, {}, [](const std::vector<Val> &) { return Val::Int(7); });
  add("quarter", F, {}, [](const std::vector<Val> &) { return Val::Flt(.25); });
  add("hello", S, {}, [](const std::vector<Val> &) { return Val::Str("hello"); });
}
static void registerOwn(FunctionRegistry &fr) {
  fr.registerFunction("iadd", iadd); fr.registerFunction("ineg", ineg); fr.registerFunction("scat", scat); fr.registerFunction("srep", srep);
  fr.registerFunction("slen", slen); fr.registerFunction("mix4", mix4); fr.registerFunction("mix6", mix6); fr.registerFunction("scat6", scat6); fr.registerFunction("half", half); fr.registerFunction("seven", seven);
  fr.registerFunction("quarter", quarter); fr.registerFunction("hello", hello);
}

static std::string showVal(const Val &v) { std::ostringstream o; o.precision(17); if (v.t == vd::I) o << v.i; else if (v.t == vd::F) o << v.d; else o << "'" << v.s << "'"; return o.str(); }

// one assignment of the deck
struct Goal { vd::pNode e; vd::Type target; int slot; std::string decl; std::string txt; };

static bool isDivZero(const vd::Node &e, const vd::Env &env) { try { vd::eval(e, env); } catch (vd::DivZero &) { return true; } catch (vd::Unusable &) {} return false; }

struct RunResult { enum { Ok, Parser_, Eval, Other } how = Ok; std::string msg; };

static void checkGoal(vh::Case &c, const Goal &g, const Val &raw, const char *when) {
  Val want = vd::to(raw, g.target);
  if (g.target == vd::F) c.check(vd::agrees(want, pf[g.slot]), "value-float", [&](std::ostream &o) { o.precision(17); o << when << ": f" << g.slot << " = " << g.txt << " gave " << pf[g.slot] << ", expected " << want.d << " +- " << 1e3 * want.err; });
  else if (g.target == vd::I) c.check(pn[g.slot] == want.i, "value-int", [&](std::ostream &o) { o << when << ": n" << g.slot << " = " << g.txt << " gave " << pn[g.slot] << ", expected " << want.i; });
  else c.check(ps[g.slot] == want.s, "value-string", [&](std::ostream &o) { o << when << ": s" << g.slot << " = " << g.txt << " gave '" << ps[g.slot] << "', expected '" << want.s << "'"; });
  c.count(std::string("value:") + "IFS"[raw.t] + "to" + "IFS"[g.target]);
}

static void deckCase(vh::Case &c, bool dyn, int depth, int chain) {
  vh::Rng &r = c.rng;
  dynamic = dyn;
  cx = r.range(-40, 40) / 8.0; ci = r.range(-9, 9); cs = r.chance(1, 2) ? "const" : "";
  for (int i = 0; i < N; ++i) { pf[i] = 0; pn[i] = 0; ps[i] = ""; }
  vd::Env env;
  env.vars["cx"] = Val::Flt(cx); env.vars["ci"] = Val::Int(ci); env.vars["cs"] = Val::Str(cs);
  auto point = [&]() {
    vx = r.range(-64, 64) / 8.0; vy = r.range(1, 64) / 8.0; vn = r.range(-5, 9);
    env.vars["vx"] = Val::Flt(vx); env.vars["vy"] = Val::Flt(vy); env.vars["vn"] = Val::Int(vn);
  };
  point();
  vd::Gen g(r);
  g.maxChain = chain;
  g.vars = {{"cx", vd::F}, {"ci", vd::I}, {"cs", vd::S}};
  if (dyn) { g.vars.push_back({"vx", vd::F}); g.vars.push_back({"vy", vd::F}); g.vars.push_back({"vn", vd::I}); g.vars.push_back({"vx", vd::F}); g.vars.push_back({"vn", vd::I}); }
  for (auto &f : vd::library()) g.funcs.push_back(&f);
  for (auto &f : own) for (int k = 0; k < 2; ++k) g.funcs.push_back(&f);
  int noise = r.range(0, 2);
  std::vector<Goal> goals;
  int order[9]; for (int i = 0; i < 9; ++i) order[i] = i;
  for (int i = 8; i > 0; --i) std::swap(order[i], order[r.range(0, i)]);
  int want = r.range(1, 6);
  for (int k = 0; k < want; ++k) {
    Goal q; q.target = vd::Type(order[k] / 3); q.slot = order[k] % 3;
    vd::Type t = q.target;
    if (r.chance(1, 4)) t = q.target == vd::S ? vd::Type(r.range(0, 1)) : vd::Type(1 - int(q.target));
    for (int tries = 0; tries < 400; ++tries) {
      q.e = g.expr(t, depth);
      if (vd::stackNeed(*q.e) > 90) { c.count("generator:too-deep"); continue; }
      try { vd::to(vd::eval(*q.e, env), q.target); } catch (vd::Unusable &) { q.e.reset(); continue; } catch (vd::DivZero &) { q.e.reset(); continue; }
      break;
    }
    if (!q.e) continue;
    vd::Val v = vd::eval(*q.e, env);
    if (r.chance(1, 3)) q.decl = std::string(v.t == vd::I ? (r.chance(1, 2) ? "int" : "integer") : v.t == vd::F ? r.pick(std::vector<std::string>{"float", "double", "real"}) : "string");
    q.txt = vd::text(r, *q.e, noise);
    vd::shape(*q.e, c);
    goals.push_back(q);
  }
  if (goals.empty()) { c.nontrivial = false; return; }
  vd::Writer w(r, noise);
  w.gap();
  for (auto &q : goals) {
    std::string name = std::string(q.target == vd::F ? "f" : q.target == vd::I ? "n" : "s") + std::to_string(q.slot);
    if (!q.decl.empty()) { w.tok(q.decl + " "); w.tok("loc_" + name); w.tok("="); w.tok(q.txt); w.tok(";"); w.tok(name); w.tok("="); w.tok("loc_" + name); w.tok(";"); }
    else { w.tok(name); w.tok("="); w.tok(q.txt); w.tok(";"); }
  }
  c.desc << w.out;
  c.crumb(w.out);
  c.check(true, "", [](std::ostream &) {});
  try {
    BlockClasses bc; bc.registerBlock("app").setClass<App>();
    VariableStorage vars("App", "app");
    // the parser can be given its functions and blocks in several ways
    std::unique_ptr<Parser> pp; int route = r.range(0, 3);
    if (route == 0) { FunctionRegistry fr; registerAllFunctions(fr); registerOwn(fr); pp.reset(new Parser(vars, fr, bc)); }
    else if (route == 1) { pp.reset(new Parser("App", "app", bc)); registerAllFunctions(pp->getFunctionRegistry()); registerOwn(pp->getFunctionRegistry()); }
    else if (route == 2) { ParserSettings ps_("App", "app"); ps_.addBlockClass("app").setClass<App>(); registerAllFunctions(ps_.funcReg); registerOwn(ps_.funcReg); pp.reset(new Parser(ps_)); }
    else { FunctionRegistry fr; registerCMath(fr); pp.reset(new Parser(vars, fr, bc)); registerUtilityFunctions(pp->getFunctionRegistry()); registerSpecialFunctions(pp->getFunctionRegistry()); registerOwn(pp->getFunctionRegistry()); }
    c.count("route:" + std::to_string(route));
    Parser &P = *pp;
    std::istringstream is(w.out);
    pBlock b = P.parse(is, "deck");
    b->initAll();
    for (auto &q : goals) checkGoal(c, q, vd::eval(*q.e, env), "after init");
    bool set[3][N] = {};
    for (auto &q : goals) set[q.target][q.slot] = true;
    for (int i = 0; i < N; ++i)
      c.ok((set[1][i] || pf[i] == -999.0) && (set[0][i] || pn[i] == -999) && (set[2][i] || ps[i] == "unset"), "default", "a parameter the setup file does not set keeps its default value");
    if (dyn) {
      pDependencyMap m(new DependencyMap(P.getVariableStorage().getRootBlock()));
      DependencyUpdater u(m);
      u.addIndependent(qx); u.addIndependent(qy); u.addIndependent(qn);
      for (auto &q : goals) u.addDependent(q.target == vd::F ? qf[q.slot] : q.target == vd::I ? qi[q.slot] : qs[q.slot]);
      for (int k = 0; k < 6; ++k) {
        // the new point has to give every expression a well defined value
        bool good = false;
        for (int t = 0; t < 30 && !good; ++t) {
          point();
          good = true;
          for (auto &q : goals) try { vd::to(vd::eval(*q.e, env), q.target); } catch (vd::Unusable &) { good = false; } catch (vd::DivZero &) { good = false; }
        }
        if (!good) break;
        u.update();
        c.count("points:dynamic");
        for (auto &q : goals) checkGoal(c, q, vd::eval(*q.e, env), "after update");
      }
    }
  }
  catch (ParserError &e) { c.fail("rejected", "valid setup file rejected: line " + std::to_string(e.getLine()) + ": " + e.message); }
  catch (EvaluationException &e) { c.fail("rejected", "valid setup file not evaluated: " + e.getMessage()); }
  catch (SchnekException &e) { c.fail("rejected", std::string("valid setup file not evaluated: ") + typeid(e).name()); }
}

// a flat chain as long as the parser supports
static void longChain(vh::Case &c) {
  vh::Rng &r = c.rng;
  dynamic = false; cx = 1.5; ci = 3; cs = "k";
  for (int i = 0; i < N; ++i) { pf[i] = 0; pn[i] = 0; ps[i] = ""; }
  vd::Type t = vd::Type(c.index % 3);
  bool prod = t != vd::S && r.chance(1, 3);
  int n = r.range(10, 38);
  vd::Env env; env.vars["cx"] = Val::Flt(cx); env.vars["ci"] = Val::Int(ci); env.vars["cs"] = Val::Str(cs);
  vd::Gen g(r); g.vars = {{"cx", vd::F}, {"ci", vd::I}, {"cs", vd::S}};
  Goal q; q.target = t; q.slot = r.range(0, 2);
  for (int tries = 0; tries < 200; ++tries) {
    vd::pNode p(new vd::Node); p->k = prod ? vd::Node::Prod : vd::Node::Sum; p->t = t;
    std::vector<vd::Type> ty = g.chainTypes(t, n);
    for (int i = 0; i < n; ++i) {
      vd::pNode l = g.atom(ty[i], 0);
      if (prod) { l.reset(new vd::Node); l->k = vd::Node::Lit; l->t = ty[i]; int z = r.range(1, 3); if (ty[i] == vd::I) { l->v = Val::Int(z); l->text = std::to_string(z); } else { l->v = Val::Flt(z / 2.0); l->text = vd::fltText(z / 2.0); if (l->text.find('.') == std::string::npos) l->text += "."; } }
      p->kid.push_back(l);
      if (i) p->op.push_back(prod ? (r.chance(1, 2) ? '*' : '/') : t == vd::S || r.chance(1, 2) ? '+' : '-');
    }
    try { vd::to(vd::eval(*p, env), t); q.e = p; break; } catch (vd::Unusable &) {} catch (vd::DivZero &) {}
  }
  if (!q.e) { c.nontrivial = false; return; }
  q.txt = vd::text(r, *q.e, r.range(0, 1));
  std::string deck = std::string(t == vd::F ? "f" : t == vd::I ? "n" : "s") + std::to_string(q.slot) + "=" + q.txt + ";";
  c.desc << deck; c.crumb(deck);
  vd::shape(*q.e, c);
  try {
    BlockClasses bc; bc.registerBlock("app").setClass<App>();
    VariableStorage vars("App", "app"); FunctionRegistry fr; registerAllFunctions(fr);
    Parser P(vars, fr, bc);
    std::istringstream is(deck);
    pBlock b = P.parse(is, "deck");
    b->initAll();
    checkGoal(c, q, vd::eval(*q.e, env), "after init");
  }
  catch (ParserError &e) { c.fail("rejected", "valid setup file rejected: " + e.message); }
  catch (EvaluationException &e) { c.fail("rejected", "valid setup file not evaluated: " + e.getMessage()); }
}

// every library function over its domain
static void functionCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  dynamic = true; cx = 1.5; ci = 3; cs = "k"; vx = 0; vy = 0; vn = 0;
  for (int i = 0; i < N; ++i) { pf[i] = 0; pn[i] = 0; ps[i] = ""; }
  auto &lib = vd::library();
  const vd::FuncDesc &f = lib[c.index % lib.size()];
  vd::Env env; Goal q; q.target = vd::F; q.slot = 0;
  bool viaVars = r.chance(1, 2) && f.args.size() < 3;
  for (int tries = 0; tries < 300 && !q.e; ++tries) {
    vd::pNode n(new vd::Node); n->k = vd::Node::Call; n->t = vd::F; n->fn = &f; n->text = f.name;
    const char *fv[] = {"vx", "vy"}; int used = 0;
    for (vd::Type t : f.args) {
      double lo = std::max(f.lo, -50.0), hi = std::min(f.hi, 50.0);
      double d = std::round(r.real(lo, hi) * 64) / 64; int i = r.range(-4, 8);
      Val v = t == vd::F ? Val::Flt(d) : Val::Int(i);
      if (t == vd::F && r.chance(1, 8)) v = Val::Flt(std::round(d));
      vd::pNode k(new vd::Node);
      if (viaVars) { k->k = vd::Node::Var; k->t = t; k->text = t == vd::I ? "vn" : fv[used++]; env.vars[k->text] = v; n->kid.push_back(k); continue; }
      k->k = vd::Node::Lit; k->t = t; k->v = v; k->text = t == vd::I ? std::to_string(std::labs(v.i)) : vd::fltText(std::fabs(v.d));
      if (t == vd::F && k->text.find('.') == std::string::npos) k->text += ".0";
      k->v = t == vd::I ? Val::Int(std::labs(v.i)) : Val::Flt(std::fabs(v.d));
      vd::pNode sum(new vd::Node); sum->k = vd::Node::Sum; sum->t = t; sum->kid.push_back(k);
      if (t == vd::I ? v.i < 0 : v.d < 0) sum->sign = '-';
      n->kid.push_back(sum);
    }
    try { vd::eval(*n, env); q.e = n; } catch (vd::Unusable &) {}
  }
  if (!q.e) { c.nontrivial = false; return; }
  for (auto &v : env.vars) { if (v.first == "vx") vx = v.second.d; else if (v.first == "vy") vy = v.second.d; else vn = int(v.second.i); }
  q.txt = vd::text(r, *q.e, 0);
  std::string deck = "f0=" + q.txt + ";";
  c.desc << deck << " vx=" << vx << " vy=" << vy << " vn=" << vn; c.crumb(c.desc.str());
  vd::shape(*q.e, c);
  try {
    BlockClasses bc; bc.registerBlock("app").setClass<App>();
    VariableStorage vars("App", "app"); FunctionRegistry fr; registerAllFunctions(fr);
    Parser P(vars, fr, bc);
    std::istringstream is(deck);
    pBlock b = P.parse(is, "deck");
    b->initAll();
    checkGoal(c, q, vd::eval(*q.e, env), "after init");
  }
  catch (ParserError &e) { c.fail("rejected", "valid setup file rejected: " + e.message); }
  catch (EvaluationException &e) { c.fail("rejected", "valid setup file not evaluated: " + e.getMessage()); }
}

// text assigned to numbers, and evaluations that have no result
static void conversion(vh::Case &c) {
  vh::Rng &r = c.rng;
  dynamic = false; cx = 1.5; ci = 3; cs = "k";
  for (int i = 0; i < N; ++i) { pf[i] = 0; pn[i] = 0; ps[i] = ""; }
  std::string deck; bool refuse = false; double wf = 0; int wn = 0; bool toInt = r.chance(1, 2);
  switch (r.range(0, 3)) {
    case 0: { // readable text
      int v = r.range(-100000, 100000); std::string s = std::to_string(v);
      wn = v; wf = v;
      if (!toInt && r.chance(1, 2)) { wf = v / 8.0; s = vd::fltText(wf); }
      deck = std::string(toInt ? "n0" : "f0") + " = '" + s + "';"; break; }
    case 1: { // text pasted together from pieces
      int a = r.range(0, 99), b = r.range(0, 99);
      wn = atoi((std::to_string(a) + std::to_string(b)).c_str()); wf = wn;
      deck = std::string(toInt ? "n0" : "f0") + " = '" + std::to_string(a) + "' + " + std::to_string(b) + ";"; break; }
    case 2: { // text that is no number
      refuse = true;
      deck = std::string(toInt ? "n0" : "f0") + " = '" + r.pick(std::vector<std::string>{"", "x", "1x", "1 2", " 1", "1 ", "--1", "1e", "0x10", "1,5"}) + "';"; break; }
    default: { // integer division by zero
      refuse = true; toInt = r.chance(1, 2);
      static const std::vector<std::string> z = {"1/0", "7/(3-ci)", "ci/0*2", "1+2/(ci-3)", "(5/0)", "1/(1/2)", "0/0", "-3/0"};
      deck = std::string(toInt ? "n0" : "f0") + " = " + r.pick(z) + ";"; }
  }
  c.desc << deck; c.crumb(deck);
  bool refused = false;
  try {
    BlockClasses bc; bc.registerBlock("app").setClass<App>();
    VariableStorage vars("App", "app"); FunctionRegistry fr; registerAllFunctions(fr);
    Parser P(vars, fr, bc);
    std::istringstream is(deck);
    pBlock b = P.parse(is, "deck");
    b->initAll();
  }
  catch (SchnekException &e) { refused = true; }
  c.count(refuse ? "conversion:refused" : "conversion:done");
  c.ok(refused == refuse, "conversion-refusal", refuse ? "an expression without a value must be refused: " + deck : "refused: " + deck);
  if (!refuse && !refused) {
    if (toInt) c.check(pn[0] == wn, "conversion-int", [&](std::ostream &o) { o << deck << " gave " << pn[0]; });
    else c.check(pf[0] == wf, "conversion-float", [&](std::ostream &o) { o << deck << " gave " << pf[0]; });
  }
}

// values of any size and precision, names of any length
static std::string digits(vh::Rng &r, int n) { std::string s; for (int i = 0; i < n; ++i) s += char('0' + r.range(0, 9)); return s; }
static void magnitude(vh::Case &c) {
  vh::Rng &r = c.rng;
  dynamic = false; cx = std::ldexp(r.range(1, 1 << 20), r.range(-900, 900)); ci = r.chance(1, 2) ? 2147483647 - r.range(0, 5) : r.range(-1000000000, 1000000000); cs = std::string(r.range(0, 3000), 'c');
  for (int i = 0; i < N; ++i) { pf[i] = 0; pn[i] = 0; ps[i] = ""; }
  auto flt = [&](std::string &t) {
    t = r.chance(1, 2) ? digits(r, r.range(1, 25)) + "." + digits(r, r.range(0, 30)) : (r.chance(1, 2) ? digits(r, 1) : "") + "." + digits(r, r.range(1, 40));
    if (r.chance(2, 3)) t += std::string(r.chance(1, 2) ? "e" : "E") + r.pick(std::vector<std::string>{"", "+", "-"}) + (r.chance(1, 5) ? "0" : "") + std::to_string(r.range(0, 240));
    return strtod(t.c_str(), 0);
  };
  auto integer = [&](std::string &t) { int v = r.chance(1, 2) ? 2147483647 - r.range(0, 3) : int(std::ldexp(r.real(0.5, 1), r.range(16, 31))); t = std::to_string(v); return v; };
  std::string deck; double wf[N]; int wn[N]; std::string ws[N];
  for (int i = 0; i < N; ++i) {
    std::string k = std::to_string(i), a, b, name;
    double x = flt(a), y = flt(b);
    switch (r.range(0, 4)) {
      case 0: wf[i] = x; break;
      case 1: wf[i] = -x; a = "-" + a; break;
      case 2: wf[i] = cx; a = "cx"; break;
      case 3: { name = "v" + std::string(r.range(1, 200), "aZ_9"[r.range(0, 3)]); std::string other = name + r.pick(std::vector<std::string>{"x", "_", "1"}) + k; name += "y" + k; deck += "real " + name + " = " + a + "; real " + other + " = " + b + ";"; a = name; wf[i] = x; c.count("long-names"); break; }
      default: wf[i] = (x < y ? y : x) / 4 + (x < y ? x : y) / 4; a = a + " * 0.25 + " + b + "/4.";
    }
    deck += "f" + k + " = " + a + ";\n";
    int p = integer(a), q = integer(b);
    switch (r.range(0, 5)) {
      case 0: wn[i] = p; break;
      case 1: wn[i] = -p; a = "-" + a; break;
      case 2: wn[i] = p - q; a += " - " + b; break;
      case 3: wn[i] = p / 3 + q / 5; a += "/3 + " + b + "/5"; break;
      case 4: wn[i] = ci; a = "ci"; break;
      default: p = r.range(30000, 46340); q = r.range(-46340, 46340); wn[i] = p * q; a = std::to_string(p) + " * (" + std::to_string(q) + ")";
    }
    deck += "n" + k + " = " + a + ";\n";
    ws[i] = std::string(r.range(0, 5000), char('a' + i)) + cs; deck += "s" + k + " = '" + ws[i].substr(0, ws[i].size() - cs.size()) + "' + cs;\n";
  }
  c.desc << deck.substr(0, 400); c.crumb(deck);
  try {
    BlockClasses bc; bc.registerBlock("app").setClass<App>();
    VariableStorage vars("App", "app"); FunctionRegistry fr; registerAllFunctions(fr);
    Parser P(vars, fr, bc);
    std::istringstream is(deck);
    pBlock b = P.parse(is, "deck");
    b->initAll();
    for (int i = 0; i < N; ++i) {
      c.check(std::fabs(pf[i] - wf[i]) <= 1e-14 * std::fabs(wf[i]), "magnitude-float", [&](std::ostream &o) { o.precision(17); o << "f" << i << " gave " << pf[i] << ", expected " << wf[i] << " in\n" << deck.substr(0, 3000); });
      c.check(pn[i] == wn[i], "magnitude-int", [&](std::ostream &o) { o << "n" << i << " gave " << pn[i] << ", expected " << wn[i] << " in\n" << deck.substr(0, 3000); });
      c.check(ps[i] == ws[i], "magnitude-string", [&](std::ostream &o) { o << "s" << i << " has length " << ps[i].size() << ", expected " << ws[i].size(); });
    }
    c.count("magnitudes");
  }
  catch (ParserError &e) { c.fail("rejected", "valid setup file rejected: " + e.message); }
  catch (EvaluationException &e) { c.fail("rejected", "valid setup file not evaluated: " + e.getMessage()); }
}

int main(int argc, char **argv) {
  vh::Harness h(argc, argv);
  makeOwn();
  h.section("constant-small", 1500, 60000, [](vh::Case &c) { deckCase(c, false, 1, 3); });
  h.section("constant-deep", 900, 40000, [](vh::Case &c) { deckCase(c, false, 3, 4); });
  h.section("dynamic-small", 700, 30000, [](vh::Case &c) { deckCase(c, true, 1, 4); });
  h.section("dynamic-deep", 500, 20000, [](vh::Case &c) { deckCase(c, true, 2, 4); });
  h.section("long-chain", 250, 8000, longChain);
  h.section("functions", 580, 11600, functionCase);
  h.section("conversion", 250, 8000, conversion);
  h.section("magnitude", 250, 8000, magnitude);
  for (const char *k : {"magnitudes", "long-names", "chain:I", "chain:F", "chain:S", "chain:mixed-F", "chain:mixed-S", "node:power", "node:call", "value:ItoF", "value:FtoI", "value:ItoS", "value:FtoS", "points:dynamic", "conversion:refused", "conversion:done"}) h.require(k, 20);
  for (auto &f : vd::library()) h.require("function:" + f.name, 5);
  for (auto &f : own) h.require("function:" + f.name, 5);
  return h.finish();
}
