// C11: setup files build the block tree they spell out, names mean the nearest enclosing declaration,
// and faulty statements are reported where they stand.
#include "deckcommon.hpp"
#include "variables.hpp"
#include "parser.hpp"
#include "functions.hpp"
#include "variables/function_expression.hpp"
#include "variables/dependencies.hpp"
using namespace schnek;
using vd::Val;

struct Created { Block *self; std::string cls; std::map<std::string, double *> f; std::map<std::string, int *> i; std::map<std::string, std::string *> s; };
static std::vector<Created> created;

// what the block classes offer
struct Par { std::string name; vd::Type t; Val def; int constant; bool required; };   // constant: 1 a constant, 2 a read-only parameter
static const std::vector<Par> &params(const std::string &cls) {
  static std::map<std::string, std::vector<Par>> m;
  if (m.empty()) {
    m["app"] = {{"fa", vd::F, Val::Flt(1.25), false, false}, {"ia", vd::I, Val::Int(4), false, false}, {"sa", vd::S, Val::Str("root"), false, false},
                {"fsh", vd::F, Val::Flt(8.5), false, false}, {"ish", vd::I, Val::Int(11), false, false}, {"pi", vd::F, Val::Flt(3.125), true, false}, {"two", vd::I, Val::Int(2), true, false}, {"nm", vd::S, Val::Str("const"), true, false}};
    m["A"] = {{"fb", vd::F, Val::Flt(-2.5), false, false}, {"ib", vd::I, Val::Int(-3), false, false}, {"sb", vd::S, Val::Str(""), false, false},
              {"fsh", vd::F, Val::Flt(.75), false, false}, {"two", vd::I, Val::Int(22), false, false}, {"rof", vd::F, Val::Flt(6.5), 2, false}, {"roi", vd::I, Val::Int(-8), 2, false}};
    m["B"] = {{"fc", vd::F, Val::Flt(0), false, false}, {"ish", vd::I, Val::Int(5), false, false}, {"sa", vd::S, Val::Str("inB"), false, false}, {"e", vd::F, Val::Flt(2.75), true, false}, {"ros", vd::S, Val::Str("fix"), 2, false}};
    m["R"] = {{"req", vd::F, Val::Flt(0), false, true}, {"reqi", vd::I, Val::Int(0), false, true}, {"opt", vd::I, Val::Int(9), false, false}};
    m["G"] = {};
  }
  return m[cls];
}
// blocks that only group others have no class of their own
static bool hasClass(const std::string &cls) { return cls != "G" && cls != "H"; }

template<int K> class Blk : public Block {
    double f[8]; int i[8]; std::string s[8];
  protected:
    void initParameters(BlockParameters &p) {
      static const char *nm[] = {"app", "A", "B", "R"};
      Created c; c.self = this; c.cls = nm[K];
      int k = 0;
      for (auto &q : params(c.cls)) {
        if (q.constant == 1) { if (q.t == vd::F) p.addConstant(q.name, q.def.d); else if (q.t == vd::I) p.addConstant(q.name, int(q.def.i)); else p.addConstant(q.name, q.def.s); continue; }
        f[k] = -1e9; i[k] = -77777; s[k] = "?";
        if (q.constant == 2) {
          if (q.t == vd::F) { c.f[q.name] = &f[k]; p.addParameter(q.name, &f[k], q.def.d, BlockParameters::readonly); }
          else if (q.t == vd::I) { c.i[q.name] = &i[k]; p.addParameter(q.name, &i[k], int(q.def.i), BlockParameters::readonly); }
          else { c.s[q.name] = &s[k]; p.addParameter(q.name, &s[k], q.def.s, BlockParameters::readonly); }
          ++k; continue;
        }
        if (q.t == vd::F) { c.f[q.name] = &f[k]; q.required ? p.addParameter(q.name, &f[k]) : p.addParameter(q.name, &f[k], q.def.d); }
        else if (q.t == vd::I) { c.i[q.name] = &i[k]; q.required ? p.addParameter(q.name, &i[k]) : p.addParameter(q.name, &i[k], int(q.def.i)); }
        else { c.s[q.name] = &s[k]; p.addParameter(q.name, &s[k], q.def.s); }
        ++k;
      }
      created.push_back(c);
    }
  public:
    BlockList kids() { return getChildren(); }
};

struct V { vd::Type t; Val v; bool ro; bool set; bool param; };
struct Scope {
  std::string name, cls;
  Scope *up = nullptr;
  std::map<std::string, V> vars;
  std::vector<std::shared_ptr<Scope>> kids;
  std::string path() const { return up ? up->path() + "/" + name : name; }
};

struct Deck {
  vh::Case &c; vh::Rng &r;
  std::shared_ptr<Scope> root;
  std::string text;
  int noise, budget, injectAt, step = 0;
  std::string fault; int faultLine = 0; bool exactLine = true; char expect = 0;  // 'P' parser error, 'E' evaluation error, 'X' either
  std::vector<Scope *> order;     // blocks with a class, in the order they appear
  bool unrestricted = false;
  int fresh = 0, maxDepth = 4;
  Deck(vh::Case &c_) : c(c_), r(c_.rng) {}

  std::shared_ptr<Scope> make(const std::string &name, const std::string &cls, Scope *up) {
    std::shared_ptr<Scope> s(new Scope);
    s->name = name; s->cls = cls; s->up = up;
    if (hasClass(cls)) { for (auto &p : params(cls)) s->vars[p.name] = V{p.t, p.def, p.constant != 0, !p.required && p.constant != 2, true}; order.push_back(s.get()); }
    return s;
  }
  V *find(Scope *s, const std::string &n) { for (; s; s = s->up) { auto it = s->vars.find(n); if (it != s->vars.end()) return &it->second; } return nullptr; }
  // names an expression in scope s can use, with their values
  void visible(Scope *s, vd::Env &env, std::vector<std::pair<std::string, vd::Type>> &list) {
    for (Scope *q = s; q; q = q->up)
      for (auto &v : q->vars) if (!env.vars.count(v.first)) { env.vars[v.first] = v.second.v; if (v.second.set) list.push_back({v.first, v.second.t}); }
    // paths start at the first enclosing block that has a child of that name
    std::set<std::string> heads;
    for (Scope *q = s; q; q = q->up) {
      std::set<std::string> here;
      for (auto &k : q->kids) if (!heads.count(k->name)) { paths(k.get(), k->name, env, list, 0); here.insert(k->name); }
      heads.insert(here.begin(), here.end());
    }
  }
  void paths(Scope *k, const std::string &prefix, vd::Env &env, std::vector<std::pair<std::string, vd::Type>> &list, int d) {
    for (auto &v : k->vars) { env.vars[prefix + ":" + v.first] = v.second.v; if (v.second.set) list.push_back({prefix + ":" + v.first, v.second.t}); }
    if (d < maxDepth - 1) for (auto &q : k->kids) paths(q.get(), prefix + ":" + q->name, env, list, d + 1);
  }
  vd::pNode expression(Scope *s, vd::Type t, vd::Type target, Val &value) {
    vd::Gen g(r); g.maxChain = 3;
    vd::Env env;
    visible(s, env, g.vars);
    for (int tries = 0; tries < 200; ++tries) {
      vd::pNode e = g.expr(t, r.range(0, 1));
      if (vd::stackNeed(*e) > 80) continue;
      try { value = vd::to(vd::eval(*e, env), target); } catch (vd::Unusable &) { continue; } catch (vd::DivZero &) { continue; }
      if (value.t == vd::S && value.s.size() > 200) continue;
      std::set<std::string> nm; vd::names(*e, nm);
      for (auto &n : nm) c.count(n.find(':') != std::string::npos ? "reference:path" : s->vars.count(n) ? "reference:own" : "reference:enclosing");
      return e;
    }
    return vd::pNode();
  }
  int line() const { return 1 + int(std::count(text.begin(), text.end(), '\n')); }
  void gap() { vd::Writer w(r, noise); for (int i = r.range(0, 2); i > 0; --i) w.gap(); text += w.out; if (noise == 1) text += "\n"; }
  static const char *kw(vh::Rng &r, vd::Type t) {
    static const char *i[] = {"int", "integer"}, *f[] = {"float", "double", "real"};
    return t == vd::I ? i[r.range(0, 1)] : t == vd::F ? f[r.range(0, 2)] : "string";
  }
  std::string newName(Scope *s) {
    static const char *stem[] = {"loc", "x", "_v", "int1", "floaty", "strings", "e", "E5", "Integer", "realm"};
    for (;;) {
      std::string n;
      if (r.chance(1, 4)) { // hide a name of an enclosing block
        std::vector<std::string> c; for (Scope *q = s->up; q; q = q->up) for (auto &v : q->vars) c.push_back(v.first);
        if (!c.empty()) n = r.pick(c);
      }
      if (n.empty()) n = std::string(stem[r.range(0, 9)]) + (r.chance(1, 3) ? "" : std::to_string(r.range(0, 30)));
      if (r.chance(1, 12)) { n += r.chance(1, 2) ? "_" : "L"; for (int k = r.range(10, 120); k > 0; --k) n += "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_"[r.range(0, 42)]; }
      if (!s->vars.count(n)) return n;
    }
  }
  void statement(Scope *s) {
    gap();
    if (r.chance(1, 2)) { // declaration
      int n = r.chance(1, 5) ? r.range(2, 3) : 1;
      vd::Type t = vd::Type(r.range(0, 2));
      std::string line = std::string(kw(r, t)) + " ";
      std::map<std::string, V> add;
      for (int i = 0; i < n; ++i) {
        std::string nm; do nm = newName(s); while (add.count(nm));
        Val v; vd::pNode e = expression(s, t, t, v);
        if (!e) return;
        if (i) line += ", ";
        vd::Writer w(r, noise == 2 && r.chance(1, 3) ? 2 : r.range(0, 1));
        w.tok(nm); w.tok("="); w.node(*e);
        line += w.out;
        add[nm] = V{t, v, false, true, false};
      }
      text += line + ";";
      for (auto &a : add) { if (find(s, a.first)) c.count("declaration:hides"); s->vars[a.first] = a.second; }
      c.count("statement:declaration");
      if (n > 1) c.count("statement:multi-declaration");
    } else { // assignment to the nearest variable of that name
      std::vector<std::string> nm;
      for (Scope *q = s; q; q = q->up) for (auto &v : q->vars) if (find(s, v.first) == &v.second && !v.second.ro) nm.push_back(v.first);
      if (nm.empty()) return;
      std::string n = r.pick(nm);
      if (s->vars.size() && r.chance(1, 2)) for (auto &v : s->vars) if (!v.second.ro && r.chance(1, 3)) n = v.first;
      V *v = find(s, n);
      vd::Type t = v->t;
      if (r.chance(1, 4)) t = v->t == vd::S ? vd::Type(r.range(0, 1)) : vd::Type(1 - int(v->t));
      Val x; vd::pNode e = expression(s, t, v->t, x);
      if (!e) return;
      vd::Writer w(r, noise == 2 && r.chance(1, 3) ? 2 : r.range(0, 1));
      w.tok(n); w.tok("="); w.node(*e);
      text += w.out + ";";
      v->v = x; v->set = true;
      c.count(s->vars.count(n) ? "assignment:own" : "assignment:enclosing");
      c.count("statement:assignment");
    }
  }
  std::vector<std::string> allowed(const std::string &cls) {
    if (cls == "app") return {"A", "B", "G"};
    if (cls == "A") return {"A", "B"};
    if (cls == "B") return {"G"};
    if (cls == "G") return {"A", "G"};
    return {};
  }
  bool injectHere(Scope *s, int depth) {
    if (injectAt < 0 || step != injectAt) return false;
    if (noise == 2) gap();
    text += "\n";
    faultLine = line();
    expect = 'P'; exactLine = true;
    std::string own, ro; vd::Type ownT = vd::I;
    for (auto &v : s->vars) { own = v.first; ownT = v.second.t; if (r.chance(1, 3)) break; }
    for (Scope *q = s; q && ro.empty(); q = q->up) for (auto &v : q->vars) if (v.second.ro && find(s, v.first) == &v.second) { ro = v.first; if (r.chance(1, 2)) break; }
    std::string lv = "fa"; if (!find(s, lv) || find(s, lv)->t != vd::F) lv = "fa";
    switch (c.index % 16) {
      case 0: fault = lv + " = nosuch + 1;"; c.count("fault:undefined"); break;
      case 1: fault = "nosuch = 1;"; c.count("fault:undeclared"); break;
      case 2: if (own.empty()) { fault = "nosuch = 2;"; break; } fault = std::string(kw(r, ownT)) + " " + own + " = " + (ownT == vd::I ? "1" : ownT == vd::F ? "1.5" : "'x'") + ";"; c.count("fault:redeclared"); break;
      case 3: fault = ro + " = " + r.pick(std::vector<std::string>{"1", "2.5", "'3'"}) + ";"; c.count("fault:readonly"); break;
      case 4: fault = r.chance(1, 2) ? "Unknown zz {" : (s->cls == "B" ? "A" : s->cls == "A" ? "G" : s->cls == "G" ? "B" : "R") + std::string(" zz {"); c.count("fault:class"); break;
      case 5: if (s->kids.empty()) { fault = "nosuch = 3;"; break; } { auto k = r.pick(s->kids); fault = allowed(s->cls)[0] + " " + k->name + " {"; c.count("fault:duplicate-block"); } break;
      case 6: fault = r.pick(std::vector<std::string>{"int q9 = 1.5;", "float q9 = 1;", "string q9 = 1;", "int q9 = 'a';", "float q9 = '1.5';", "string q9 = 2.5;", "int q8 = 1, q9 = 2.0;"}); c.count("fault:type"); break;
      case 7: fault = r.pick(std::vector<std::string>{lv + " = ;", lv + " = 1 + ;", "= 3;", lv + " = (1;", lv + " = 1);", lv + " 1;", "int = 3;", lv + " = 2 * -3;", lv + " = 2 3;", "int 3 = 4;", lv + " = = 2;", ";", lv + " = fa fa;",
                                                      lv + " = sin(1,);", lv + " = sin(,1);", "a:b = 3;", lv + " = *2;", lv + " = 2^3^2;", "int float = 3;", ") ;", "{"}); c.count("fault:syntax"); break;
      case 8: fault = lv + " = " + r.pick(std::vector<std::string>{"nochild:x", "nochild:sub:x"}) + ";"; c.count("fault:path"); break;
      case 9: { // a local of a closed block is not visible outside
        std::string hidden, head;
        for (auto &k : s->kids) for (auto &v : k->vars) if (!find(s, v.first)) { hidden = v.first; head = k->name; }
        if (hidden.empty()) fault = lv + " = nosuch;"; else { fault = lv + " = " + hidden + ";"; c.count("fault:closed-scope"); }
        break; }
      case 10: fault = lv + " = nofunc(1);"; expect = 'X'; exactLine = false; c.count("fault:function"); break;
      case 11: fault = lv + r.pick(std::vector<std::string>{" = sin();", " = sin(1,2);", " = atan2(1);", " = five(1);"}); expect = 'X'; exactLine = false; c.count("fault:arguments"); break;
      case 12: fault = r.pick(std::vector<std::string>{"int q9;", "float q8, q9;", "string q9;"}); c.count("fault:no-initialiser"); break;
      case 13: fault = r.pick(std::vector<std::string>{"$", "fa = 1 ! 2;", "fa = 1 & 2;", "?", "fa = 3 % 2;", "@x = 1;", "fa = [1];", "fa = 1 < 2;"}); c.count("fault:character"); break;
      case 14: { // a path does not look upward again
        if (s->kids.empty() || s->kids[0]->vars.count("pi")) { fault = lv + " = nosuch2;"; break; }
        fault = lv + " = " + s->kids[0]->name + ":pi;"; c.count("fault:path-upward"); break; }
      default: fault = lv + " = 1"; for (int i = 0; i < 3; ++i) fault += "\n"; fault += lv + " = 2;"; exactLine = false; c.count("fault:no-semicolon");
    }
    text += fault;
    (void)depth;
    return true;
  }
  bool body(Scope *s, int depth) {
    const bool deep = maxDepth > 4;
    int n = r.range(depth == 0 ? 2 : deep ? 1 : 0, deep ? 4 : 6);
    for (int i = 0; i < n && budget > 0; ++i) {
      if (injectHere(s, depth)) return true;
      ++step; --budget;
      std::vector<std::string> al = allowed(s->cls);
      if (depth < maxDepth && !al.empty() && r.chance(deep ? 4 : 2, 5)) {
        std::string cls = r.pick(al), name;
        if (unrestricted && r.chance(1, 4)) cls = "H";
        do name = r.chance(1, 4) ? std::string(r.pick(std::vector<std::string>{"blk", "A", "inner", "fa"})) : "b" + std::to_string(fresh++); while (std::any_of(s->kids.begin(), s->kids.end(), [&](const std::shared_ptr<Scope> &k) { return k->name == name; }));
        if (r.chance(1, 15)) { name += "_" + std::to_string(fresh++); for (int k = r.range(20, 100); k > 0; --k) name += char('a' + r.range(0, 25)); c.count("block:long-name"); }
        bool anonymous = r.chance(1, 6) && std::none_of(s->kids.begin(), s->kids.end(), [&](const std::shared_ptr<Scope> &k) { return k->name == cls; });
        if (anonymous) name = cls;
        gap();
        text += cls + (anonymous ? "" : " " + name) + (r.chance(1, 2) ? " {" : "{");
        std::shared_ptr<Scope> k = make(name, cls, s);
        s->kids.push_back(k);
        c.count(anonymous ? "block:unnamed" : "block:named");
        if (body(k.get(), depth + 1)) return true;
        gap();
        text += "}";
      } else statement(s);
    }
    return false;
  }
  // many variables in one block
  void fill(Scope *s, int n) {
    for (int k = 0; k < n; ++k) {
      vd::Type t = vd::Type(r.range(0, 2)); std::string nm = newName(s); Val v = t == vd::I ? Val::Int(k) : t == vd::F ? Val::Flt(k + 0.5) : Val::Str("v" + std::to_string(k));
      text += std::string(kw(r, t)) + " " + nm + " = " + (t == vd::I ? std::to_string(k) : t == vd::F ? std::to_string(k) + ".5" : "'v" + std::to_string(k) + "'") + ";\n";
      s->vars[nm] = V{t, v, false, true, false};
    }
    c.count("wide");
  }
  void trailing(Scope *s, bool done) {
    if (done || injectAt < 0) return;
    step = injectAt;
    injectHere(s, 0);
  }
};

static void setupClasses(BlockClasses &bc) {
  bc.registerBlock("app").setClass<Blk<0>>(); bc.registerBlock("A").setClass<Blk<1>>(); bc.registerBlock("B").setClass<Blk<2>>();
  bc.registerBlock("G");
  bc("app").addChildren("A")("B")("G"); bc("A").addChildren("A")("B"); bc("B").addChildren("G"); bc("G").addChildren("A")("G");
}
static int five() { return 5; }

static bool same(const Val &w, const Variable &v) {
  Variable x(v);
  const ValueVariant &g = x.getValue();
  if (w.t == vd::I) return x.getType() == Variable::int_type && boost::get<int>(g) == w.i;
  if (w.t == vd::F) return x.getType() == Variable::float_type && vd::agrees(w, boost::get<double>(g));
  return x.getType() == Variable::string_type && boost::get<std::string>(g) == w.s;
}

static void compareScope(vh::Case &c, Scope *s, pBlockVariables bv) {
  c.ok(bv->getBlockName() == s->name && bv->getClassName() == s->cls, "block-name", s->path());
  c.check(bv->getVariables().size() == s->vars.size(), "variable-count", [&](std::ostream &o) { o << s->path() << " has " << bv->getVariables().size() << " variables, expected " << s->vars.size(); });
  for (auto &v : s->vars) {
    if (!c.ok(bv->exists(v.first), "variable-missing", s->path() + " " + v.first)) continue;
    c.check(same(v.second.v, *bv->getVariable(v.first)), "variable-value", [&](std::ostream &o) { o << s->path() << " " << v.first; });
  }
  auto kids = bv->getChildren();
  if (!c.ok(kids.size() == s->kids.size(), "block-children", s->path())) return;
  size_t i = 0;
  for (auto &k : kids) compareScope(c, s->kids[i++].get(), k);
}

static void validDeck(vh::Case &c, bool unrestricted) {
  vh::Rng &r = c.rng;
  Deck d(c);
  d.noise = r.range(0, 2); d.budget = r.range(3, 24); d.injectAt = -1; d.unrestricted = unrestricted;
  d.root = d.make("App", "app", nullptr);
  if (r.chance(1, 20)) { d.maxDepth = r.range(8, 16); d.budget = r.range(20, 40); c.count("deep"); }
  if (r.chance(1, 25)) d.fill(d.root.get(), r.range(50, 150));
  d.body(d.root.get(), 0);
  d.text += "\n";
  if (d.step == 0 || d.text.find_first_of(";}") == std::string::npos) { d.text += "ia = 1;"; d.root->vars["ia"].v = Val::Int(1); }
  c.desc << d.text; c.crumb(d.text);
  created.clear();
  try {
    BlockClasses bc(!unrestricted); setupClasses(bc);
    VariableStorage vars("App", "app");
    FunctionRegistry fr; registerAllFunctions(fr); fr.registerFunction("five", five);
    Parser P(vars, fr, bc);
    std::istringstream is(d.text);
    pBlock b = P.parse(is, "deck");
    b->initAll();
    compareScope(c, d.root.get(), vars.getRootBlock());
    if (!c.check(created.size() == d.order.size(), "blocks-created", [&](std::ostream &o) { o << created.size() << " blocks were created, expected " << d.order.size(); })) return;
    for (size_t k = 0; k < created.size(); ++k) {
      Created &q = created[k]; Scope *s = d.order[k];
      c.check(q.cls == s->cls && q.self->getName() == s->name, "block-order", [&](std::ostream &o) { o << "block " << k << " is " << q.cls << " " << q.self->getName() << ", expected " << s->cls << " " << s->name; });
      // the parent is the nearest enclosing block that has a class
      Scope *u = s->up; while (u && !hasClass(u->cls)) u = u->up;
      Block *want = nullptr;
      for (size_t j = 0; j < created.size(); ++j) if (d.order[j] == u) want = created[j].self;
      c.ok(q.self->getParent().get() == want, "block-parent", s->path());
      c.ok(q.self->getLocalVariables()->getBlockName() == s->name && q.self->getVariables() == vars.getRootBlock(), "block-variables", s->path());
      for (auto &p : q.f) c.check(vd::agrees(s->vars[p.first].v, *p.second), "parameter-float", [&](std::ostream &o) { o.precision(17); o << s->path() << " " << p.first << " is " << *p.second << ", expected " << s->vars[p.first].v.d; });
      for (auto &p : q.i) c.check(s->vars[p.first].v.i == *p.second, "parameter-int", [&](std::ostream &o) { o << s->path() << " " << p.first << " is " << *p.second << ", expected " << s->vars[p.first].v.i; });
      for (auto &p : q.s) c.check(s->vars[p.first].v.s == *p.second, "parameter-string", [&](std::ostream &o) { o << s->path() << " " << p.first << " is '" << *p.second << "', expected '" << s->vars[p.first].v.s << "'"; });
      c.count("blocks:" + q.cls);
    }
    c.ok(b.get() == created[0].self, "root-block", "the parser returns the root block");
    // lookups from every scope follow the same rule as expressions
    std::function<void(Scope *, pBlockVariables)> look = [&](Scope *s, pBlockVariables bv) {
      vd::Env env; std::vector<std::pair<std::string, vd::Type>> list;
      d.visible(s, env, list);
      int n = 0;
      for (auto &e : env.vars) if (n++ < 60) {
        bool ex = bv->exists(e.first);
        c.ok(ex, "lookup-exists", s->path() + " " + e.first);
        if (ex) c.check(same(e.second, *bv->getVariable(e.first)), "lookup-value", [&](std::ostream &o) { o << s->path() << " " << e.first; });
      }
      c.ok(!bv->exists("nosuch") && !bv->exists("nochild:fa"), "lookup-missing", s->path());
      // any path there could be
      for (int t = 0; t < 12; ++t) {
        std::string path; std::vector<Scope *> sc; for (Scope *q = s; q; q = q->up) sc.push_back(q);
        Scope *at = r.chance(1, 2) ? r.pick(sc) : sc.back(); int depth = r.range(0, d.maxDepth > 4 ? d.maxDepth : 3);
        for (int k = 0; k < depth && !at->kids.empty(); ++k) { at = r.pick(at->kids).get(); path += at->name + ":"; }
        Scope *from = r.chance(1, 2) ? at : r.chance(1, 2) ? d.root.get() : s;
        if (from->vars.empty()) continue;
        auto it = from->vars.begin(); std::advance(it, r.range(0, int(from->vars.size()) - 1));
        path += it->first;
        const bool want = env.vars.count(path) > 0;
        c.check(bv->exists(path) == want, "lookup-path", [&](std::ostream &o) { o << s->path() << " " << path << (want ? " exists" : " does not exist"); });
        bool got = true; pVariable pv;
        try { pv = bv->getVariable(path); } catch (VariableNotFoundException &) { got = false; }
        c.check(got == want, "lookup-path", [&](std::ostream &o) { o << s->path() << " " << path << (want ? " is not found" : " is found"); });
        if (got && want) c.check(same(env.vars[path], *pv), "lookup-value", [&](std::ostream &o) { o << s->path() << " " << path; });
        c.count(want ? "lookup:found" : "lookup:missing");
      }
      bool threw = false;
      try { bv->getVariable("nosuch"); } catch (VariableNotFoundException &) { threw = true; }
      c.ok(threw, "lookup-missing", "a missing variable must be reported");
      size_t i = 0;
      for (auto &k : bv->getChildren()) if (i < s->kids.size()) { look(s->kids[i].get(), k); ++i; }
    };
    look(d.root.get(), vars.getRootBlock());
  }
  catch (ParserError &e) { c.fail("rejected", "valid setup file rejected: line " + std::to_string(e.getLine()) + ": " + e.message); }
  catch (EvaluationException &e) { c.fail("rejected", "valid setup file not evaluated: " + e.getMessage()); }
  catch (SchnekException &e) { c.fail("rejected", std::string("valid setup file: ") + typeid(e).name()); }
}

static void faultyDeck(vh::Case &c) {
  vh::Rng &r = c.rng;
  Deck d(c);
  d.noise = r.range(0, 2); d.budget = r.range(3, 16);
  // faults that need an earlier block come late
  d.injectAt = r.range(c.index % 16 == 5 || c.index % 16 == 9 || c.index % 16 == 14 ? 3 : 0, d.budget);
  d.root = d.make("App", "app", nullptr);
  d.trailing(d.root.get(), d.body(d.root.get(), 0));
  if (r.chance(1, 2)) d.text += "\n fa = 3;\n";
  c.desc << d.text << " # fault at line " << d.faultLine; c.crumb(c.desc.str());
  created.clear();
  std::string fname = r.pick(std::vector<std::string>{"deck", "setup file.cfg", ""});
  char got = 0; int line = 0; std::string msg, file;
  try {
    BlockClasses bc; setupClasses(bc); bc.registerBlock("R").setClass<Blk<3>>();
    VariableStorage vars("App", "app");
    FunctionRegistry fr; registerAllFunctions(fr); fr.registerFunction("five", five);
    Parser P(vars, fr, bc);
    std::istringstream is(d.text);
    pBlock b = P.parse(is, fname);
    b->initAll();
  }
  catch (ParserError &e) { got = 'P'; line = e.getLine(); msg = e.message; file = e.getFilename(); }
  catch (EvaluationException &e) { got = 'E'; msg = e.getMessage(); }
  catch (SchnekException &e) { got = 'S'; msg = typeid(e).name(); }
  bool ok = d.expect == 'X' ? got == 'P' || got == 'E' : got == d.expect;
  if (!c.check(ok, "fault-reported", [&](std::ostream &o) { o << "'" << d.fault << "' at line " << d.faultLine << " gave " << (got ? std::string(1, got) : "no error") << " " << msg; })) return;
  if (got == 'P') {
    c.ok(file == fname, "fault-file", "the error names file '" + file + "'");
    c.ok(!msg.empty(), "fault-message", "no message");
    if (d.exactLine) c.check(line == d.faultLine, "fault-line", [&](std::ostream &o) { o << "'" << d.fault << "' at line " << d.faultLine << " was reported at line " << line << ": " << msg; });
    else c.check(line >= 1, "fault-line", [&](std::ostream &o) { o << "line " << line; });
  }
}

// structure faults that concern the whole file
static void structureFault(vh::Case &c) {
  vh::Rng &r = c.rng;
  Deck d(c);
  d.noise = r.range(0, 1); d.budget = r.range(1, 8); d.injectAt = -1;
  d.root = d.make("App", "app", nullptr);
  d.body(d.root.get(), 0);
  int kind = int(c.index % 4);
  bool required = false; std::string missing;
  switch (kind) {
    case 0: d.text += "\n}"; break;                                        // more ends than blocks
    case 1: d.text += "\nfa = 1"; break;                                   // ends within a statement
    case 2: d.text = r.pick(std::vector<std::string>{"", " \n\t", "// only a comment\n", "/* c */"}); break;
    default: { required = true; bool a = r.chance(1, 2), b = r.chance(1, 2); missing = !a ? "req" : !b ? "reqi" : "";
      d.text += std::string("\nR zz { opt = 3; ") + (a ? "req = 2.5;" : "") + (b ? " reqi = 7;" : "") + "}"; }
  }
  c.desc << d.text; c.crumb(d.text);
  created.clear();
  char got = 0; std::string var;
  try {
    BlockClasses bc; setupClasses(bc); bc.registerBlock("R").setClass<Blk<3>>(); bc("app").addChildren("R");
    VariableStorage vars("App", "app");
    FunctionRegistry fr; registerAllFunctions(fr);
    Parser P(vars, fr, bc);
    std::istringstream is(d.text);
    pBlock b = P.parse(is, "deck");
    b->initAll();
  }
  catch (ParserError &e) { got = 'P'; }
  catch (VariableNotInitialisedException &e) { got = 'V'; var = e.getVarName(); }
  catch (SchnekException &e) { got = 'S'; }
  if (!required) c.check(got == 'P', "structure-reported", [&](std::ostream &o) { o << "kind " << kind << " gave " << (got ? got : '-'); });
  else if (missing.empty()) { if (c.check(got == 0, "required-given", [&](std::ostream &o) { o << "gave " << got; })) { Created &q = created.back(); c.ok(*q.f["req"] == 2.5 && *q.i["reqi"] == 7 && *q.i["opt"] == 3, "required-value", ""); } c.count("required:given"); }
  else { c.check(got == 'V' && (var == "req" || var == "reqi"), "required-missing", [&](std::ostream &o) { o << "parameter " << missing << " was not set, but gave " << (got ? got : '-') << " " << var; }); c.count("required:missing"); }
}

int main(int argc, char **argv) {
  vh::Harness h(argc, argv);
  h.section("valid", 1400, 30000, [](vh::Case &c) { validDeck(c, false); });
  h.section("valid-unrestricted", 300, 6000, [](vh::Case &c) { validDeck(c, true); });
  h.section("faulty", 1280, 25600, faultyDeck);
  h.section("structure", 240, 4000, structureFault);
  for (const char *k : {"undefined", "undeclared", "redeclared", "readonly", "class", "duplicate-block", "type", "syntax", "path", "closed-scope", "function", "arguments", "no-initialiser", "character", "path-upward", "no-semicolon"}) h.require(std::string("fault:") + k, 10);
  for (const char *k : {"reference:own", "reference:enclosing", "reference:path", "assignment:own", "assignment:enclosing", "declaration:hides", "statement:multi-declaration", "block:unnamed", "blocks:A", "blocks:B", "required:given", "required:missing", "deep", "wide", "block:long-name", "lookup:found", "lookup:missing"}) h.require(k, 10);
  return h.finish();
}
