// C13: after an update every registered dependent variable has the value its formula gives for the current
// values of the variables it depends on.
#include "deckcommon.hpp"
#include "arrayparams.hpp"
#include "variables.hpp"
#include "parser.hpp"
#include "functions.hpp"
#include "variables/function_expression.hpp"
#include "variables/dependencies.hpp"
using namespace schnek;
using vd::Val;

static double vx, vy, vz; static int vn; static long ticks = 0;
static pParameter qx, qy, qz, qn;
struct Target { std::string key; vd::Type t; pParameter p; double *f = 0; int *i = 0; std::string *s = 0; };
static std::vector<Target> targets;
static int instances;

template<int K> class Blk : public Block {
    double f[3]; int i[2]; std::string s;
  protected:
    void initParameters(BlockParameters &p) {
      if (K == 0) {
        instances = 0;
        qx = p.addParameter("vx", &vx, BlockParameters::readonly); qy = p.addParameter("vy", &vy, BlockParameters::readonly);
        qz = p.addParameter("vz", &vz, BlockParameters::readonly); qn = p.addParameter("vn", &vn, BlockParameters::readonly);
        p.addConstant("pi", 3.125); p.addConstant("two", 2);
      }
      // globally unique names keep the model of scopes out of this check
      std::string k = std::to_string(instances++);
      for (int n = 0; n < 3; ++n) { Target t; t.key = "f" + std::to_string(n) + "_" + k; t.t = vd::F; f[n] = 0; t.f = &f[n]; t.p = p.addParameter(t.key, &f[n], 0.25); targets.push_back(t); }
      for (int n = 0; n < 2; ++n) { Target t; t.key = "i" + std::to_string(n) + "_" + k; t.t = vd::I; i[n] = 0; t.i = &i[n]; t.p = p.addParameter(t.key, &i[n], 2); targets.push_back(t); }
      Target t; t.key = "s_" + k; t.t = vd::S; t.s = &s; t.p = p.addParameter(t.key, &s, std::string("d")); targets.push_back(t);
    }
};
static double tick() { return double(++ticks); }
static double tickPlus(double a) { return double(++ticks) + a; }

struct Def { vd::Type t; vd::pNode e; Val v; bool constant; std::string owner; bool ro; };   // owner: path of the block
struct Model {
  std::map<std::string, Def> d;
  std::map<std::string, Val> indep;
  std::map<std::string, Val> memo;
  std::set<std::string> busy;
  static std::string last(const std::string &n) { size_t p = n.rfind(':'); return p == std::string::npos ? n : n.substr(p + 1); }
  Val value(const std::string &n) {
    auto it = indep.find(n); if (it != indep.end()) return it->second;
    auto m = memo.find(n); if (m != memo.end()) return m->second;
    Def &q = d.at(n);
    if (q.constant) return q.v;
    if (busy.count(n)) throw std::string("cycle");
    busy.insert(n);
    std::set<std::string> nm; vd::names(*q.e, nm);
    vd::Env env;
    try { for (auto &x : nm) env.vars[x] = value(last(x)); Val v = vd::to(vd::eval(*q.e, env), q.t); busy.erase(n); memo[n] = v; return v; }
    catch (...) { busy.erase(n); throw; }
  }
  bool deps(const std::string &n, std::set<std::string> &out) { // independent variables n depends on
    if (indep.count(n)) { out.insert(n); return true; }
    Def &q = d.at(n); if (q.constant) return true;
    std::set<std::string> nm; vd::names(*q.e, nm);
    for (auto &x : nm) deps(last(x), out);
    return true;
  }
  bool good() { memo.clear(); for (auto &x : d) try { value(x.first); } catch (vd::Unusable &) { return false; } catch (vd::DivZero &) { return false; } return true; }
};

struct Builder {
  vh::Case &c; vh::Rng &r; Model m; std::string text; int inst = 1, loc = 0;
  struct Sc { std::string name; std::vector<std::string> vars; std::vector<std::shared_ptr<Sc>> kids; Sc *up = nullptr; };
  std::shared_ptr<Sc> root{new Sc};
  Builder(vh::Case &c_) : c(c_), r(c_.rng) {}
  void addParams(Sc *s, int k) {
    std::string K = std::to_string(k);
    for (int n = 0; n < 3; ++n) { std::string x = "f" + std::to_string(n) + "_" + K; s->vars.push_back(x); m.d[x] = Def{vd::F, nullptr, Val::Flt(.25), true, "", false}; }
    for (int n = 0; n < 2; ++n) { std::string x = "i" + std::to_string(n) + "_" + K; s->vars.push_back(x); m.d[x] = Def{vd::I, nullptr, Val::Int(2), true, "", false}; }
    s->vars.push_back("s_" + K); m.d["s_" + K] = Def{vd::S, nullptr, Val::Str("d"), true, "", false};
  }
  void paths(Sc *k, const std::string &pre, std::vector<std::pair<std::string, vd::Type>> &l) { for (auto &v : k->vars) l.push_back({pre + ":" + v, m.d[v].t}); for (auto &q : k->kids) paths(q.get(), pre + ":" + q->name, l); }
  void refs(Sc *s, std::vector<std::pair<std::string, vd::Type>> &l) {
    for (Sc *q = s; q; q = q->up) { for (auto &v : q->vars) l.push_back({v, m.d[v].t}); for (auto &k : q->kids) paths(k.get(), k->name, l); }
    for (int i = 0; i < 4; ++i) { l.push_back({"vx", vd::F}); l.push_back({"vy", vd::F}); l.push_back({"vz", vd::F}); l.push_back({"vn", vd::I}); l.push_back({"vn", vd::I}); }
    l.push_back({"pi", vd::F}); l.push_back({"two", vd::I});
  }
  bool isConst(const vd::Node &e) { std::set<std::string> n; vd::names(e, n); for (auto &x : n) { std::string k = Model::last(x); if (m.indep.count(k) || !m.d.at(k).constant) return false; } return true; }
  // expression in scope s whose value converts to t; name: variable it will be assigned to (no cycles through it)
  vd::pNode expression(Sc *s, vd::Type t, vd::Type target, const std::string &name, Val &v) {
    vd::Gen g(r); g.maxChain = r.chance(1, 6) ? 14 : 3; refs(s, g.vars);
    static std::vector<const vd::FuncDesc *> fn; if (fn.empty()) for (auto &f : vd::library()) if (f.name == "sin" || f.name == "fabs" || f.name == "max" || f.name == "atan") fn.push_back(&f);
    g.funcs = fn;
    for (int k = 0; k < 200; ++k) {
      vd::pNode e = g.expr(t, r.range(0, 1));
      if (vd::stackNeed(*e) > 80) continue;
      Def old; bool had = m.d.count(name); if (had) old = m.d[name];
      try {
        m.memo.clear();
        vd::Env env; std::set<std::string> n; vd::names(*e, n);
        for (auto &x : n) env.vars[x] = m.value(Model::last(x));
        v = vd::to(vd::eval(*e, env), target);
        if (v.t == vd::S && v.s.size() > 60) continue;
        m.d[name] = Def{target, e, v, isConst(*e), "", false};
        m.memo.clear();
        for (auto &x : m.d) m.value(x.first);          // all formulas stay well defined
        return e;
      } catch (vd::Unusable &) {} catch (vd::DivZero &) {} catch (std::string &) {}
      if (had) m.d[name] = old; else m.d.erase(name);
    }
    return nullptr;
  }
  void body(Sc *s, int depth, int &budget) {
    int n = r.range(2, 7);
    for (int k = 0; k < n && budget > 0; ++k, --budget) {
      if (depth < 3 && r.chance(1, 4)) {
        std::shared_ptr<Sc> q(new Sc); q->name = "b" + std::to_string(inst); q->up = s;
        addParams(q.get(), inst++);
        s->kids.push_back(q);
        text += "K " + q->name + " {\n";
        body(q.get(), depth + 1, budget);
        text += "}\n";
        continue;
      }
      std::string name; vd::Type t; bool decl = r.chance(2, 5);
      if (decl) { t = vd::Type(r.chance(1, 6) ? 2 : r.range(0, 1)); name = "l" + std::to_string(loc++); }
      else {
        std::vector<std::string> cand; for (Sc *q = s; q; q = q->up) cand.insert(cand.end(), q->vars.begin(), q->vars.end());
        if (r.chance(3, 4)) cand = s->vars;
        name = r.pick(cand); t = m.d[name].t;
        if (m.d[name].e) c.count("redefinition");
      }
      vd::Type et = t; if (!decl && t != vd::S && r.chance(1, 4)) et = vd::Type(1 - int(t));
      Val v; vd::pNode e = expression(s, et, t, name, v);
      if (!e) continue;
      if (decl) { s->vars.push_back(name); text += std::string(t == vd::I ? "int " : t == vd::F ? "float " : "string ") + name + " = " + vd::text(r, *e, 1) + ";\n"; }
      else text += name + " = " + vd::text(r, *e, 1) + ";\n";
      c.count(m.d[name].constant ? "definition:constant" : "definition:formula");
    }
  }
  void point() {
    vx = r.range(-64, 64) / 8.0; vy = r.range(1, 64) / 8.0; vz = r.range(-16, 16) / 4.0; vn = r.range(-6, 9);
    m.indep["vx"] = Val::Flt(vx); m.indep["vy"] = Val::Flt(vy); m.indep["vz"] = Val::Flt(vz); m.indep["vn"] = Val::Int(vn);
  }
  void sync() { m.indep["vx"] = Val::Flt(vx); m.indep["vy"] = Val::Flt(vy); m.indep["vz"] = Val::Flt(vz); m.indep["vn"] = Val::Int(vn); }
};

static void compareTarget(vh::Case &c, Model &m, const Target &t, const char *when) {
  Val w = m.value(t.key);
  if (t.t == vd::F) c.check(vd::agrees(w, *t.f), "value-float", [&](std::ostream &o) { o.precision(17); o << when << ": " << t.key << " = " << *t.f << ", expected " << w.d << " (vx=" << vx << " vy=" << vy << " vz=" << vz << " vn=" << vn << ")"; });
  else if (t.t == vd::I) c.check(*t.i == w.i, "value-int", [&](std::ostream &o) { o << when << ": " << t.key << " = " << *t.i << ", expected " << w.i << " (vx=" << vx << " vy=" << vy << " vz=" << vz << " vn=" << vn << ")"; });
  else c.check(*t.s == w.s, "value-string", [&](std::ostream &o) { o << when << ": " << t.key << " = '" << *t.s << "', expected '" << w.s << "'"; });
}

static void setupClasses(BlockClasses &bc) {
  bc.registerBlock("app").setClass<Blk<0>>(); bc.registerBlock("K").setClass<Blk<1>>();
  bc("app").addChildren("K"); bc("K").addChildren("K");
}

static void graphCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  Builder b(c);
  b.m.d["pi"] = Def{vd::F, nullptr, Val::Flt(3.125), true, "", true}; b.m.d["two"] = Def{vd::I, nullptr, Val::Int(2), true, "", true};
  b.point();
  b.addParams(b.root.get(), 0);
  int budget = r.range(4, 25);
  b.body(b.root.get(), 0, budget);
  if (b.text.empty()) b.text = "f0_0 = vx;\n", b.m.d["f0_0"] = Def{vd::F, nullptr, Val::Flt(0), true, "", false}, c.nontrivial = false;
  if (!c.nontrivial) return;
  c.desc << b.text; c.crumb(b.text);
  targets.clear();
  double x0 = vx, y0 = vy, z0 = vz; int n0 = vn;
  try {
    BlockClasses bc; setupClasses(bc);
    VariableStorage vars("App", "app");
    FunctionRegistry fr; registerAllFunctions(fr); fr.registerFunction("tick", tick, true);
    Parser P(vars, fr, bc);
    std::istringstream is(b.text);
    pBlock blk = P.parse(is, "deck");
    c.ok(vx == x0 && vy == y0 && vz == z0 && vn == n0, "independent-changed", "reading must not change the values of read-only parameters");
    blk->initAll();
    b.m.memo.clear();
    for (auto &t : targets) compareTarget(c, b.m, t, "after init");
    // the program may have written to its variables; what is registered gets its value back by the next update
    if (r.chance(1, 3)) { for (auto &t : targets) { if (t.f) *t.f = -77; if (t.i) *t.i = -77; if (t.s) *t.s = "-77"; } c.count("overwritten"); }
    pDependencyMap map(new DependencyMap(vars.getRootBlock()));
    // one or two updaters over the same map, with different dependents
    struct U { DependencyUpdater u; std::set<std::string> ind; std::vector<Target> dep; };
    int nu = r.range(1, 2);
    std::vector<std::shared_ptr<U>> us;
    auto addInd = [&](U &u, const std::string &n) { u.u.addIndependent(n == "vx" ? qx : n == "vy" ? qy : n == "vz" ? qz : qn); u.ind.insert(n); };
    for (int k = 0; k < nu; ++k) {
      us.push_back(std::shared_ptr<U>(new U{DependencyUpdater(map), {}, {}}));
      for (const char *n : {"vx", "vy", "vz", "vn"}) if (r.chance(2, 3)) addInd(*us.back(), n);
      for (auto &t : targets) if (r.chance(1, 2)) { us.back()->u.addDependent(t.p); us.back()->dep.push_back(t); }
    }
    std::set<std::string> dirty;     // changed since the full evaluation, per updater irrelevant once updated
    int steps = r.range(3, 9);
    for (int k = 0; k < steps; ++k) {
      U &u = *r.pick(us);
      switch (r.range(0, 9)) {
        case 0: { u.u.clearDependent(); u.dep.clear(); for (auto &t : targets) if (r.chance(1, 2)) { u.u.addDependent(t.p); u.dep.push_back(t); } c.count("history:clear"); break; }
        case 1: { const char *n[] = {"vx", "vy", "vz", "vn"}; addInd(u, n[r.range(0, 3)]); c.count("history:add-independent"); break; }
        case 2: { Target t = r.pick(targets); u.u.addDependent(t.p); u.dep.push_back(t); c.count("history:add-dependent"); break; }
        case 3: map->recreate(); c.count("history:recreate"); break;
        default: break;
      }
      // move the independent variables of this updater, the others stay where they are
      bool good = false; double sx = vx, sy = vy, sz = vz; int sn = vn;
      for (int t = 0; t < 40 && !good; ++t) {
        vx = sx; vy = sy; vz = sz; vn = sn;
        if (u.ind.count("vx") && r.chance(2, 3)) vx = r.range(-64, 64) / 8.0;
        if (u.ind.count("vy") && r.chance(2, 3)) vy = r.range(1, 64) / 8.0;
        if (u.ind.count("vz") && r.chance(2, 3)) vz = r.range(-16, 16) / 4.0;
        if (u.ind.count("vn") && r.chance(2, 3)) vn = r.range(-6, 9);
        b.sync(); good = b.m.good();
      }
      if (!good) { vx = sx; vy = sy; vz = sz; vn = sn; b.sync(); b.m.good(); }
      if (r.chance(1, 5)) { map->updateAll(); c.count("history:updateAll"); for (auto &t : targets) { pVariable v = t.p->getVariable(); Val w = b.m.value(t.key);
          if (t.t == vd::F) c.check(vd::agrees(w, boost::get<double>(v->getValue())), "updateAll-float", [&](std::ostream &o) { o << t.key << " is " << boost::get<double>(v->getValue()) << ", expected " << w.d; });
          else if (t.t == vd::I) c.check(boost::get<int>(v->getValue()) == w.i, "updateAll-int", [&](std::ostream &o) { o << t.key << " is " << boost::get<int>(v->getValue()) << ", expected " << w.i; }); } }
      // an updater sees what its own independent variables changed; whatever changed elsewhere is brought in by updating all
      std::set<std::string> moved; if (vx != sx) moved.insert("vx"); if (vy != sy) moved.insert("vy"); if (vz != sz) moved.insert("vz"); if (vn != sn) moved.insert("vn");
      std::set<Parameter *> reg; for (auto &t : u.dep) reg.insert(t.p.get());
      std::vector<std::string> kept;
      auto shown = [](const Target &t) { std::ostringstream o; o.precision(17); if (t.f) o << *t.f; if (t.i) o << *t.i; if (t.s) o << *t.s; return o.str(); };
      for (auto &t : targets) kept.push_back(shown(t));
      u.u.update();
      c.count("updates");
      // what is not registered (any more) stays as it is
      for (size_t q = 0; q < targets.size(); ++q) if (!reg.count(targets[q].p.get()))
        c.check(shown(targets[q]) == kept[q], "unregistered-changed", [&](std::ostream &o) { o << targets[q].key << " is not among the dependents but changed from " << kept[q] << " to " << shown(targets[q]); });
      for (auto &t : u.dep) compareTarget(c, b.m, t, "after update");
      // the variables of the other updaters follow the same change only when they are told to: bring all to the same point
      for (auto &o : us) if (o.get() != &u) {
        bool knows = true; for (auto &x : moved) if (!o->ind.count(x)) knows = false;
        if (!knows) { map->updateAll(); for (auto &x : moved) if (!o->ind.count(x) && r.chance(1, 1)) addInd(*o, x); }
        o->u.update();
        for (auto &t : o->dep) compareTarget(c, b.m, t, "after update of the other updater");
      }
      c.ok(b.m.indep["vx"].d == vx && b.m.indep["vy"].d == vy && b.m.indep["vz"].d == vz && b.m.indep["vn"].i == vn, "independent-changed", "updating must not change the independent variables");
    }
  }
  catch (ParserError &e) { c.fail("rejected", "valid setup file rejected: line " + std::to_string(e.getLine()) + ": " + e.message); }
  catch (EvaluationException &e) { c.fail("rejected", "valid formulas not evaluated: " + e.getMessage()); }
  catch (SchnekException &e) { c.fail("rejected", std::string("valid formulas: ") + typeid(e).name()); }
}

// formulas whose value changes by itself are evaluated again at every update, once for all who use them
static void alwaysCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  vx = r.range(-8, 8); vy = 1; vz = 0; vn = 1;
  bool local = r.chance(1, 2), arg = r.chance(1, 2);
  int chain = r.range(0, 4);
  std::string call = arg ? "tickPlus(vx)" : "tick()", text, src = "r";
  if (local) text = "float r = " + call + ";\n"; else { text = "f2_0 = " + call + ";\n"; src = "f2_0"; }
  for (int i = 0; i < chain; ++i) { text += "float m" + std::to_string(i) + " = " + src + " + 0;\n"; src = "m" + std::to_string(i); }
  text += "f0_0 = " + src + " * 2;\nf1_0 = " + (local ? std::string("r") : std::string("f2_0")) + " + vy;\n";
  bool ind = r.chance(1, 2);
  c.desc << text << (ind ? "with independent" : "without independent"); c.crumb(c.desc.str());
  targets.clear();
  try {
    BlockClasses bc; setupClasses(bc);
    VariableStorage vars("App", "app");
    FunctionRegistry fr; fr.registerFunction("tick", tick, true); fr.registerFunction("tickPlus", tickPlus, true);
    Parser P(vars, fr, bc);
    std::istringstream is(text);
    pBlock blk = P.parse(is, "deck");
    blk->initAll();
    pDependencyMap map(new DependencyMap(vars.getRootBlock()));
    DependencyUpdater u(map);
    if (ind) { u.addIndependent(qx); u.addIndependent(qy); }
    u.addDependent(targets[0].p); u.addDependent(targets[1].p);
    for (int k = 0; k < 6; ++k) {
      if (ind && r.chance(1, 2)) { vx = r.range(-8, 8); vy = r.range(-4, 4); }
      long before = ticks;
      u.update();
      double f0 = *targets[0].f, f1 = *targets[1].f;
      c.check(ticks > before, "not-reevaluated", [&](std::ostream &o) { o << "update " << k << " did not evaluate the function again"; });
      double want = double(ticks) + (arg ? vx : 0);
      c.check(f0 == 2 * want, "stale-value", [&](std::ostream &o) { o << "update " << k << ": got " << f0 << ", expected " << 2 * want; });
      c.check(f1 == want + vy, "inconsistent-value", [&](std::ostream &o) { o << "update " << k << ": two users of one variable see " << f0 / 2 << " and " << f1 - vy; });
      c.count("updates:always");
    }
  }
  catch (SchnekException &e) { c.fail("rejected", std::string("exception ") + typeid(e).name()); }
}

// formulas that depend on themselves have no value: refused, never followed
static void cycleCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  vx = 1; vy = 2; vz = 3; vn = 1;
  int n = r.range(1, 5);
  std::string text;
  // the variables are formulas first, so that later definitions bind to them
  for (int i = 0; i < n; ++i) text += "float a" + std::to_string(i) + " = vx;\n";
  int open = r.chance(1, 2) ? -1 : r.range(0, n - 1);    // leave the cycle open somewhere
  for (int i = 0; i < n; ++i) if (i != open) text += "a" + std::to_string(i) + " = " + (r.chance(1, 2) ? "vy + " : "2 * ") + "a" + std::to_string((i + 1) % n) + ";\n";
  text += "f0_0 = a0;\n";
  c.desc << text; c.crumb(text);
  targets.clear();
  char got = 0;
  try {
    BlockClasses bc; setupClasses(bc);
    VariableStorage vars("App", "app");
    FunctionRegistry fr;
    Parser P(vars, fr, bc);
    std::istringstream is(text);
    pBlock blk = P.parse(is, "deck");
    blk->initAll();
    pDependencyMap map(new DependencyMap(vars.getRootBlock()));
    DependencyUpdater u(map); u.addIndependent(qx); u.addDependent(targets[0].p);
    vx = 5; u.update();
  }
  catch (ParserError &) { got = 'P'; }
  catch (EvaluationException &) { got = 'E'; }
  catch (SchnekException &) { got = 'S'; }
  bool cyc = open < 0;
  c.count(cyc ? "cycle:closed" : "cycle:open");
  if (cyc) c.check(got != 0, "cycle-accepted", [&](std::ostream &o) { o << "a variable that depends on itself was accepted"; });
  else c.check(got == 0, "cycle-refused", [&](std::ostream &o) { o << "refused although nothing depends on itself: " << got; });
}

// a formula that has no value does not keep the others from being updated
static void bulkheadCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  vx = 1; vy = 2; vz = 3; vn = 2;
  int n = r.range(2, 9); std::string text; std::vector<std::string> kind;
  struct Q { std::string name; int what; };    // 0 follows vx, 1 fails at vn = 0, 2 depends on one that fails
  std::vector<Q> q; std::vector<std::string> bad;
  for (int i = 0; i < n; ++i) {
    std::string nm = "w" + std::to_string(i);
    int k = i == 0 ? 1 : r.range(0, 2);
    if (k == 0) text += "float " + nm + " = vx + " + std::to_string(i) + ";\n";
    if (k == 1) { text += "int " + nm + " = 60 / vn;\n"; }
    if (k == 2) text += "int " + nm + " = 1 + " + r.pick(bad) + ";\n";
    if (k) bad.push_back(nm);
    q.push_back(Q{nm, k});
  }
  text += "f0_0 = vx + 1;\ni0_0 = 60 / vn;\nf1_0 = f0_0 * 2;\n";
  c.desc << text; c.crumb(text);
  targets.clear();
  try {
    BlockClasses bc; setupClasses(bc);
    VariableStorage vars("App", "app"); FunctionRegistry fr;
    Parser P(vars, fr, bc);
    std::istringstream is(text);
    pBlock blk = P.parse(is, "deck");
    blk->initAll();
    pDependencyMap map(new DependencyMap(vars.getRootBlock()));
    for (int k = 0; k < 6; ++k) {
      vn = r.range(0, 2); vx = r.range(-50, 50); c.desc << " " << vn << "/" << vx;
      try { map->updateAll(); } catch (EvaluationException &) { c.ok(vn == 0, "updateAll-threw", ""); }
      auto val = [&](int i) { return targets[i].p->getVariable(); };
      c.check(boost::get<double>(val(0)->getValue()) == vx + 1, "bulkhead", [&](std::ostream &o) { o << "f0 is " << boost::get<double>(val(0)->getValue()) << ", expected " << vx + 1; });
      c.check(boost::get<double>(val(1)->getValue()) == 2 * (vx + 1), "bulkhead", [&](std::ostream &o) { o << "f1 is " << boost::get<double>(val(1)->getValue()) << ", expected " << 2 * (vx + 1); });
      if (vn) c.check(boost::get<int>(val(3)->getValue()) == 60 / vn, "bulkhead-recovered", [&](std::ostream &o) { o << "i0 is " << boost::get<int>(val(3)->getValue()); });
      for (auto &x : q) if (x.what == 0) {
        pVariable v = vars.getRootBlock()->getVariable(x.name);
        c.check(boost::get<double>(v->getValue()) == vx + atoi(x.name.c_str() + 1), "bulkhead-local", [&](std::ostream &o) { o << x.name << " is " << boost::get<double>(v->getValue()); });
      }
      c.count(vn ? "bulkhead:fine" : "bulkhead:failing");
    }
  }
  catch (SchnekException &e) { c.fail("rejected", std::string("exception ") + typeid(e).name()); }
}

// an evaluation that fails at one point does not spoil the next
static void recoverCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  vx = 1; vy = 2; vz = 3; vn = 2;
  std::string text = "int d = 60 / vn;\nint h = d + 1;\ni0_0 = h * 2;\nf0_0 = vx + 1;\n";
  c.desc << text; c.crumb(text);
  targets.clear();
  try {
    BlockClasses bc; setupClasses(bc);
    VariableStorage vars("App", "app"); FunctionRegistry fr;
    Parser P(vars, fr, bc);
    std::istringstream is(text);
    pBlock blk = P.parse(is, "deck");
    blk->initAll();
    pDependencyMap map(new DependencyMap(vars.getRootBlock()));
    DependencyUpdater u(map); u.addIndependent(qn); u.addIndependent(qx);
    u.addDependent(targets[3].p); u.addDependent(targets[0].p);
    for (int k = 0; k < 8; ++k) {
      vn = r.range(-2, 2); vx = r.range(-5, 5); c.desc << " " << vn;
      bool threw = false;
      try { u.update(); } catch (EvaluationException &) { threw = true; }
      c.ok(threw == (vn == 0), "division-by-zero", "an update with an undefined formula must be reported, and no other");
      if (!threw) { c.check(*targets[3].i == (60 / vn + 1) * 2 && *targets[0].f == vx + 1, "value-after-failure", [&](std::ostream &o) { o << *targets[3].i << " for vn=" << vn; }); c.count("recovered"); }
      else c.count("failed-update");
    }
    // what was cleared is not evaluated any more
    if (r.chance(1, 2)) {
      vn = 2; u.update();
      u.clearDependent(); vn = 0; vx = 7; if (r.chance(1, 2)) u.addDependent(targets[0].p);
      bool threw = false; try { u.update(); } catch (EvaluationException &) { threw = true; }
      c.ok(!threw, "cleared-evaluated", "a dependent that was cleared is still evaluated");
      c.count("cleared");
    }
  }
  catch (SchnekException &e) { c.fail("rejected", std::string("exception ") + typeid(e).name()); }
}

static void groupCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  int n = r.range(1, 12);
  std::vector<pVariable> v; std::vector<bool> in; ParametersGroup g;
  c.desc << "group " << n << ":";
  for (int i = 0; i < n; ++i) { v.push_back(pVariable(new Variable(i))); in.push_back(r.chance(1, 2)); c.desc << in.back(); if (in.back()) g.add(v.back()); if (in.back() && r.chance(1, 4)) g.add(v.back()); }
  for (int i = 0; i < n; ++i) c.ok(g.isElement(v[i]) == bool(in[i]), "group-element", "");
  for (int k = 0; k < 4; ++k) {
    std::set<long> ids, rest; c.desc << "/";
    for (int i = 0; i < n; ++i) if (r.chance(1, 2)) { c.desc << i << ","; ids.insert(v[i]->getId()); if (!in[i]) rest.insert(v[i]->getId()); }
    bool all = g.hasElements(ids);
    c.ok(all == rest.empty(), "group-all", "hasElements tells whether the group holds all given variables");
    c.ok(ids == rest, "group-rest", "hasElements leaves the variables that are not in the group");
  }
  std::set<long> seen; for (auto &x : v) seen.insert(x->getId());
  c.ok(int(seen.size()) == n, "unique-id", "every variable has an id of its own");
}

// long chains and wide fans of formulas
static void largeCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  int n = r.range(40, 250);
  std::ostringstream o;
  struct L { double a, b, k; int i, j; };       // indices below zero: vx, vy, vz
  std::vector<L> l(n);
  auto nm = [](int i) { return i == -1 ? std::string("vx") : i == -2 ? std::string("vy") : i == -3 ? std::string("vz") : "l" + std::to_string(i); };
  int shape = r.range(0, 2);                    // chain, fan, random
  for (int k = 0; k < n; ++k) {
    L &q = l[k]; q.a = r.range(-4, 4) / 8.0; q.b = r.range(1, 3) / 8.0; q.k = r.range(-16, 16) / 4.0;
    if (k == 0 || shape == 1) q.i = -r.range(1, 3); else q.i = shape == 0 ? k - 1 : r.range(0, k - 1);
    if (shape == 0) q.a = r.chance(1, 2) ? 1 : -1;
    q.j = r.chance(1, 3) && k ? r.range(0, k - 1) : -r.range(1, 3);
    o << "float l" << k << " = " << q.k << (q.k == std::floor(q.k) ? ".0" : "") << " + " << nm(q.i) << "*(" << q.a << ") + " << nm(q.j) << "*" << q.b << ";\n";
  }
  int last = n - 1, mid = r.range(0, n - 1);
  // a sum over many of them, in parts the parser has room for
  int wideN = shape == 1 ? n : r.range(1, n);
  o << "f0_0 = l" << last << ";\nf1_0 = l" << mid << " - l0;\nfloat t0 = l0;\n";
  for (int k = 1; k < wideN; ++k) if (k % 16 == 0 || k == wideN - 1) { o << "float t" << k << " = t" << (k % 16 == 0 ? k - 16 : k - k % 16); for (int q = k % 16 == 0 ? k - 15 : k - k % 16 + 1; q <= k; ++q) o << " + l" << q; o << ";\n"; }
  o << "K b1 { f0_1 = t" << wideN - 1 << "; float u = l" << last << " + f1_0; f1_1 = u*0.5; }\n";
  std::string text = o.str();
  c.desc << text; c.crumb("formulas " + text);
  targets.clear();
  BlockClasses bc; setupClasses(bc);
  VariableStorage vars("App", "app");
  FunctionRegistry fr; registerAllFunctions(fr);
  Parser P(vars, fr, bc);
  std::istringstream is(text);
  auto point = [&] { vx = r.range(-64, 64) / 8.0; vy = r.range(1, 64) / 8.0; vz = r.range(-16, 16) / 4.0; };
  point();
  pBlock blk = P.parse(is, "deck");
  blk->initAll();
  auto check = [&](const char *when, bool all) {
    std::vector<double> v(n);
    auto at = [&](int i) { return i == -1 ? vx : i == -2 ? vy : i == -3 ? vz : v[i]; };
    for (int k = 0; k < n; ++k) v[k] = l[k].k + at(l[k].i) * l[k].a + at(l[k].j) * l[k].b;
    double sum = 0; for (int k = 0; k < wideN; ++k) sum += v[k];
    std::map<std::string, double> want{{"f0_0", v[last]}, {"f1_0", v[mid] - v[0]}, {"f0_1", sum}, {"f1_1", 0.5 * (v[last] + v[mid] - v[0])}};
    double big = 1; for (double q : v) big = std::max(big, std::fabs(q)); big = std::max(big, std::fabs(sum));
    for (auto &t : targets) if (want.count(t.key)) c.check(std::fabs(*t.f - want[t.key]) <= 1e-9 * big * n, "large-value", [&](std::ostream &o) { o.precision(17); o << when << ": " << t.key << " = " << *t.f << ", expected " << want[t.key] << " with " << n << " formulas"; });
    if (all) for (int k = 0; k < n; ++k) { double got = boost::get<double>(vars.getRootBlock()->getVariable("l" + std::to_string(k))->getValue()); c.check(std::fabs(got - v[k]) <= 1e-9 * big * n, "large-value", [&](std::ostream &o) { o << when << ": l" << k << " = " << got << ", expected " << v[k]; }); }
  };
  check("after init", false);
  pDependencyMap map(new DependencyMap(vars.getRootBlock()));
  DependencyUpdater u(map);
  u.addIndependent(qx); u.addIndependent(qy); u.addIndependent(qz);
  for (auto &t : targets) if (t.f) u.addDependent(t.p);
  for (int k = 0; k < 4; ++k) { point(); u.update(); check("after update", false); }
  point(); map->updateAll(); u.update(); check("after updateAll", true);
  c.count("large", n); c.count(shape == 0 ? "shape:chain" : shape == 1 ? "shape:fan" : "shape:random");
}

int main(int argc, char **argv) {
  vh::Harness h(argc, argv);
  h.section("graph", 1500, 40000, graphCase);
  h.section("always", 200, 3000, alwaysCase);
  h.section("cycle", 300, 3000, cycleCase);
  h.section("recover", 100, 1000, recoverCase);
  h.section("bulkhead", 100, 2000, bulkheadCase);
  h.section("group", 300, 6000, groupCase);
  va::sections(h, 40, 1000);
  for (const char *k : {"updates", "definition:formula", "definition:constant", "redefinition", "history:clear", "history:add-independent", "history:add-dependent", "history:recreate", "history:updateAll", "cycle:closed", "cycle:open", "updates:always", "failed-update", "recovered", "overwritten", "bulkhead:failing"}) h.require(k, 50);
  h.section("large", 60, 800, largeCase);
  for (const char *k : {"shape:chain", "shape:fan", "shape:random"}) h.require(k, 5);
  return h.finish();
}
