// C14: every block goes through the initialisation phases in order, each phase over the whole hierarchy before the next,
// and block containers hold exactly the child blocks of their type in the order of the setup file.
#include "common.hpp"
#include "variables.hpp"
#include "parser.hpp"
#include "functions.hpp"
#include "variables/blockcontainer.hpp"
#include "variables/function_expression.hpp"
using namespace schnek;

struct Boom : public std::runtime_error { Boom() : std::runtime_error("boom") {} };
enum Phase { CREATED, PARAMS, REGISTER, PREINIT, INIT, POSTINIT };
static const char *phaseName[] = {"created", "initParameters", "registerData", "preInit", "init", "postInit"};
struct Event { int phase; const void *who; };
struct Probe;
static std::vector<Event> trace;
static std::vector<Probe *> probes;           // in the order of creation
static int throwPhase = -1; static const void *thrower = nullptr; static int throwAt = -1;
static std::function<void(int, Probe *)> online;

struct Probe {
  std::string cls;
  double f = -1; int i = -1; std::string s = "?";
  Block *self = nullptr;
  virtual ~Probe() {}
  virtual std::vector<std::vector<Block *>> held() { return {}; }
  void ev(int phase) {
    trace.push_back(Event{phase, this});
    if (online) online(phase, this);
    if (phase == throwPhase && throwAt-- == 0) { thrower = this; throw Boom(); }
  }
  void pars(BlockParameters &p) { ev(PARAMS); p.addParameter("f", &f, 0.5); p.addParameter("i", &i, 7); p.addParameter("s", &s, std::string("none")); }
};
template<class C> std::vector<Block *> listed(const C &r) { std::vector<Block *> v; for (auto &p : r) v.push_back(p.get()); return v; }

#define HOOKS(BASE) \
    void initParameters(BlockParameters &p) { pars(p); } \
    void registerData() { ev(REGISTER); } \
    void preInit() { ev(PREINIT); BASE::preInit(); } \
    void init() { ev(INIT); BASE::init(); } \
    void postInit() { ev(POSTINIT); BASE::postInit(); }
#define BORN(name) cls = name; self = this; probes.push_back(this);

class A; class Base;
class Root : public Block, public Probe, public BlockContainer<A>, public BlockContainer<Base> {
  protected: HOOKS(Block)
    std::vector<std::vector<Block *>> held() {
      auto a = listed(BlockContainer<A>::childBlocks()), b = listed(BlockContainer<Base>::childBlocks());
      if (a.size() != BlockContainer<A>::numChildren() || b.size() != BlockContainer<Base>::numChildren()) return {};
      return {a, b}; }
  public: Root(pBlock p = pBlock()) : Block(p) { BORN("app") } BlockList kids() { return getChildren(); }
};
class A : public ChildBlock<A>, public Probe, public BlockContainer<A>, public BlockContainer<Base> {
  protected: HOOKS(ChildBlock<A>)
    std::vector<std::vector<Block *>> held() {
      auto a = listed(BlockContainer<A>::childBlocks()), b = listed(BlockContainer<Base>::childBlocks());
      if (a.size() != BlockContainer<A>::numChildren() || b.size() != BlockContainer<Base>::numChildren()) return {};
      return {a, b}; }
  public: A(pBlock p = pBlock()) : ChildBlock<A>(p) { BORN("A") }
};
class Base : public ChildBlock<Base>, public Probe {
  protected: HOOKS(ChildBlock<Base>)
  public: Base(pBlock p = pBlock()) : ChildBlock<Base>(p) { self = this; probes.push_back(this); }
};
class D1 : public Base { public: D1(pBlock p = pBlock()) : Base(p) { cls = "D1"; } };
class D2 : public Base, public BlockContainer<A> {
  protected: std::vector<std::vector<Block *>> held() { auto a = listed(childBlocks()); if (a.size() != numChildren()) return {}; return {a, {}}; }
  public: D2(pBlock p = pBlock()) : Base(p) { cls = "D2"; }
};
class P : public Block, public Probe { protected: HOOKS(Block) public: P(pBlock p = pBlock()) : Block(p) { BORN("P") } };

static bool holdsA(const std::string &c) { return c == "app" || c == "A" || c == "D2"; }
static bool holdsBase(const std::string &c) { return c == "app" || c == "A"; }
static bool isBase(const std::string &c) { return c == "D1" || c == "D2"; }

struct Node { std::string cls, name; Node *up = nullptr; std::vector<std::unique_ptr<Node>> kids; double f = 0.5; int i = 7; std::string s = "none"; };

struct Tree {
  vh::Rng &r;
  Node root;
  std::string text;
  std::vector<Node *> order;       // blocks with a class, in order
  int fresh = 0, budget, maxDepth = 7, wide = 4;
  Tree(vh::Rng &r_, int b) : r(r_), budget(b) { root.cls = "app"; root.name = "App"; }
  void assign(Node *n) {
    if (n->cls == "G") return;
    int k = r.range(0, 3);
    if (k == 0) { n->f = r.range(-40, 40) / 8.0; std::ostringstream o; o << "f = " << n->f << ";"; text += o.str(); }
    if (k == 1) { n->i = r.range(0, 99); text += "i = " + std::to_string(n->i) + ";"; }
    if (k == 2) { n->s = "t" + std::to_string(r.range(0, 99)); text += "s = \"" + n->s + "\";"; }
  }
  void body(Node *n, int depth) {
    if (n->cls != "G") order.push_back(n);
    assign(n);
    int k = r.range(depth == 0 || maxDepth > 7 ? 1 : 0, depth == 0 ? std::max(6, wide) : maxDepth > 7 ? 2 : r.chance(1, 4) ? wide : std::min(4, wide));
    if (depth == 0 && wide > 6) k = wide;
    for (int j = 0; j < k && budget > 0 && depth < maxDepth; ++j) {
      --budget;
      std::unique_ptr<Node> x(new Node);
      static const std::vector<std::string> cl{"A", "A", "D1", "D2", "P", "G"};
      x->cls = r.pick(cl);
      x->name = (r.chance(1, 3) ? "z" : "b") + std::to_string(fresh++);
      if (r.chance(1, 3)) x->name = r.pick(std::vector<std::string>{"z", "m", "a"}) + std::to_string(1000 - fresh++);
      x->up = n;
      text += std::string("\n") + x->cls + " " + x->name + " {";
      Node *p = x.get();
      n->kids.push_back(std::move(x));
      body(p, depth + 1);
      text += "}\n";
      if (r.chance(1, 4)) assign(n);
    }
  }
  static Node *owner(Node *n) { for (n = n->up; n && n->cls == "G"; n = n->up) {} return n; }
};

static void classes(BlockClasses &bc) {
  bc.registerBlock("app").setClass<Root>(); bc.registerBlock("A").setClass<A>(); bc.registerBlock("D1").setClass<D1>(); bc.registerBlock("D2").setClass<D2>();
  bc.registerBlock("P").setClass<P>(); bc.registerBlock("G");
  for (const char *p : {"app", "A", "D1", "D2", "P", "G"}) bc(p).addChildren("A")("D1")("D2")("P")("G");
}
struct Run { BlockClasses bc; VariableStorage vars{"App", "app"}; FunctionRegistry fr; pBlock root; };
static pBlock parse(Run &run, const std::string &text) {
  classes(run.bc); registerAllFunctions(run.fr);
  Parser p(run.vars, run.fr, run.bc);
  std::istringstream is(text);
  return run.root = p.parse(is, "deck");
}
static std::string show(const std::vector<Event> &t, size_t i, const std::map<const void *, std::string> &nm) {
  if (i >= t.size()) return "<end>";
  auto it = nm.find(t[i].who);
  return std::string(phaseName[t[i].phase]) + " " + (it == nm.end() ? "?" : it->second);
}
static void compare(vh::Case &c, const char *key, const std::vector<Event> &got, const std::vector<Event> &want, const std::map<const void *, std::string> &nm) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i].phase == want[i].phase && got[i].who == want[i].who) ++i;
  c.events += long(i); c.count("hook-calls", long(got.size()));
  c.check(i == got.size() && i == want.size(), key, [&](std::ostream &o) { o << "call " << i << " was " << show(got, i, nm) << ", expected " << show(want, i, nm) << " (" << got.size() << " calls, expected " << want.size() << ")"; });
}
static void reset() { trace.clear(); probes.clear(); throwPhase = -1; thrower = nullptr; online = nullptr; }

static void containers(vh::Case &c, std::vector<Node *> &order, std::vector<Probe *> &ps, bool complete, const char *when) {
  for (size_t k = 0; k < order.size(); ++k) {
    Node *n = order[k];
    if (!holdsA(n->cls) && !holdsBase(n->cls)) continue;
    std::vector<Block *> wa, wb;
    if (complete) for (size_t j = 0; j < order.size(); ++j) if (Tree::owner(order[j]) == n) {
      if (order[j]->cls == "A" && holdsA(n->cls)) wa.push_back(ps[j]->self);
      if (isBase(order[j]->cls) && holdsBase(n->cls)) wb.push_back(ps[j]->self);
    }
    auto h = ps[k]->held();
    c.check(h.size() == 2 && h[0] == wa && h[1] == wb, "container-children", [&](std::ostream &o) {
      o << when << ": " << n->cls << " " << n->name << " holds " << (h.size() == 2 ? h[0].size() : 9999) << " + " << (h.size() == 2 ? h[1].size() : 9999) << " children, expected " << wa.size() << " + " << wb.size() << " (or their order differs)"; });
    c.count(wa.size() + wb.size() ? "containers:filled" : "containers:empty");
    if (wa.size() > 1 || wb.size() > 1) c.count("containers:ordered");
  }
}

static void lifecycle(vh::Case &c) {
  vh::Rng &r = c.rng;
  reset();
  Tree t(r, r.range(0, 25));
  if (r.chance(1, 25)) { t.maxDepth = r.range(10, 18); t.budget = r.range(20, 50); c.count("deep"); }
  else if (r.chance(1, 25)) { t.wide = r.range(15, 70); t.budget = r.range(60, 120); c.count("wide"); }
  t.body(&t.root, 0);
  if (t.text.empty()) t.text = "i = 7;";   // an empty file is refused (C11)
  c.desc << t.text; c.crumb(t.text);
  Run run;
  pBlock root = parse(run, t.text);
  std::vector<Event> want;
  std::map<const void *, std::string> nm;
  size_t n = t.order.size();
  if (!c.ok(probes.size() == n, "instances", "number of block instances")) return;
  for (size_t k = 0; k < n; ++k) { nm[probes[k]] = t.order[k]->cls + " " + t.order[k]->name; want.push_back(Event{PARAMS, probes[k]}); }
  compare(c, "parse-phase", trace, want, nm);
  for (size_t k = 0; k < n; ++k) {
    Node *o = Tree::owner(t.order[k]); Block *p = nullptr;
    for (size_t j = 0; j < n; ++j) if (t.order[j] == o) p = probes[j]->self;
    c.ok(probes[k]->cls == t.order[k]->cls && probes[k]->self->getName() == t.order[k]->name && probes[k]->self->getParent().get() == p, "instance", t.order[k]->name);
  }
  std::set<long> ids; for (auto p : probes) ids.insert(p->self->getId());
  c.ok(ids.size() == n, "unique-id", "");
  // a second hierarchy is not affected
  Run other; std::vector<Probe *> mine = probes;
  bool two = r.chance(1, 4);
  if (two) { parse(other, "A q { D1 w {} f = 3; }"); probes = mine; }
  trace.clear(); want.clear();
  bool first = true;
  int worst = PARAMS;
  online = [&](int phase, Probe *p) {
    (void)p;
    worst = std::max(worst, phase);
    if (phase == REGISTER && first) {
      first = false;
      // all parameters of all blocks have been evaluated
      for (size_t k = 0; k < n; ++k) {
        Node *q = t.order[k];
        c.check(mine[k]->f == q->f && mine[k]->i == q->i && mine[k]->s == q->s, "parameters-before-register", [&](std::ostream &o) { o << q->cls << " " << q->name << ": f=" << mine[k]->f << " i=" << mine[k]->i << " s=" << mine[k]->s; });
      }
      containers(c, t.order, mine, false, "before preInit");
    }
    if (phase == INIT && r.chance(1, 4)) containers(c, t.order, mine, true, "in init");
    if (phase == POSTINIT && r.chance(1, 6)) containers(c, t.order, mine, true, "in postInit");
  };
  int deepest = 0, d0 = 0;
  size_t start = r.chance(1, 2) ? 0 : r.range(0, int(n) - 1);
  for (Node *q = t.order[start]; q->up; q = Tree::owner(q)) ++d0;
  deepest = std::max(deepest, d0);
  c.count(d0 == 0 ? "initAll:root" : d0 == 1 ? "initAll:child" : "initAll:deep");
  c.desc << " # initAll from " << t.order[start]->name;
  c.crumb(c.desc.str());
  int mode = r.range(0, 3);
  for (int ph = REGISTER; ph <= POSTINIT; ++ph) for (size_t k = 0; k < n; ++k) want.push_back(Event{ph, probes[k]});
  if (mode == 0) {
    // a hook that fails: the failure comes out of initAll and nothing runs after it
    throwPhase = r.range(REGISTER, POSTINIT); throwAt = r.range(0, int(n) - 1);
    size_t stop = size_t(throwPhase - REGISTER) * n + size_t(throwAt) + 1;
    want.resize(stop);
    bool threw = false;
    try { probes[start]->self->initAll(); } catch (Boom &) { threw = true; }
    c.ok(threw && thrower == want.back().who, "hook-exception", "the exception of a hook must come out of initAll");
    compare(c, "trace-until-exception", trace, want, nm);
    c.count("failing-hooks");
  } else {
    probes[start]->self->initAll();
    compare(c, "trace", trace, want, nm);
    online = nullptr;
    containers(c, t.order, mine, true, "after initAll");
    c.count("lifecycles");
  }
  if (two) { bool quiet = true; for (auto &e : trace) if (!nm.count(e.who)) quiet = false; c.ok(quiet, "other-hierarchy", "initAll must not run hooks of another hierarchy"); c.count("two-hierarchies"); }
  reset();
}

// a fault in the file: blocks that were opened before have been given the chance to declare parameters, nothing else happened
static void brokenFile(vh::Case &c) {
  vh::Rng &r = c.rng;
  reset();
  Tree t(r, r.range(2, 15));
  t.body(&t.root, 0);
  if (t.text.empty()) t.text = "i = 7;";   // an empty file is refused (C11)
  // cut after a random block opening
  std::vector<size_t> opens;
  for (size_t p = 0; p < t.text.size(); ++p) if (t.text[p] == '{') opens.push_back(p);
  if (opens.empty()) { c.nontrivial = false; return; }
  size_t k = r.range(0, int(opens.size()) - 1);
  std::string text = t.text.substr(0, opens[k] + 1) + " nosuch = 1; }";
  // names are in deck order; count those with a class
  std::vector<std::string> names{"App"};
  std::istringstream is(text); std::string a, b;
  { std::string prev2, prev; while (is >> a) { if (a[0] == '{' || a.find('{') != std::string::npos) { if (prev2.find("G") == std::string::npos) names.push_back(prev); } prev2 = prev; prev = a; } }
  c.desc << text; c.crumb(text);
  Run run; bool threw = false;
  try { parse(run, text); } catch (ParserError &) { threw = true; }
  c.ok(threw, "fault-refused", "");
  bool only = true; for (auto &e : trace) only = only && e.phase == PARAMS;
  c.ok(only, "only-parameters", "hooks other than initParameters ran while parsing");
  c.check(trace.size() == names.size(), "opened-blocks", [&](std::ostream &o) { o << trace.size() << " blocks declared parameters, expected " << names.size(); });
  c.count("broken-files");
  reset();
}

// hierarchies built by hand
static void manual(vh::Case &c) {
  vh::Rng &r = c.rng;
  reset();
  BlockTree tree;
  struct Q { Block *b; int parent; };
  std::vector<pBlock> all; std::vector<int> par;
  std::vector<int> stack;    // -1: group, else index
  VariableStorage vs("x", "y");
  auto make = [&](int kind) { pBlock b; if (kind == 0) b.reset(new A); else if (kind == 1) b.reset(new D1); else if (kind == 2) b.reset(new D2); else b.reset(new P); return b; };
  pBlock rootB(new Root); tree.addChild(rootB); all.push_back(rootB); par.push_back(-1); stack.push_back(0);
  size_t most = r.chance(1, 8) ? 40 : 8;
  int n = most > 8 ? r.range(40, 150) : r.range(0, 40);
  c.desc << "manual ";
  for (int k = 0; k < n; ++k) {
    int what = most > 8 && r.chance(1, 3) ? 0 : r.range(0, 4);
    if (what <= 1 && stack.size() < most) {
      pBlock b = make(r.range(0, 3)); c.desc << "+" << dynamic_cast<Probe *>(b.get())->cls;
      int p = -1; for (int j = int(stack.size()) - 1; j >= 0; --j) if (stack[j] >= 0) { p = stack[j]; break; }
      tree.addChild(b); stack.push_back(int(all.size())); all.push_back(b); par.push_back(p);
    } else if (what == 2 && stack.size() < most) { tree.moveDown(); stack.push_back(-1); c.desc << "g"; }
    else if (stack.size() > 1) { tree.moveUp(); stack.pop_back(); c.desc << "^"; }
  }
  c.ok(tree.getRoot() == rootB, "tree-root", "");
  for (size_t k = 0; k < all.size(); ++k) c.check(all[k]->getParent().get() == (par[k] < 0 ? nullptr : all[par[k]].get()), "tree-parent", [&](std::ostream &o) { o << "block " << k; });
  // blocks are not contiguous in order of creation here, so phases follow the tree
  std::vector<std::vector<int>> kids(all.size()); for (size_t k = 1; k < all.size(); ++k) kids[par[k]].push_back(int(k));
  std::vector<int> pre; std::function<void(int)> walk = [&](int k) { pre.push_back(k); for (int j : kids[k]) walk(j); };
  walk(0);
  std::vector<Event> want; std::map<const void *, std::string> nm;
  for (size_t k = 0; k < all.size(); ++k) { Probe *p = dynamic_cast<Probe *>(all[k].get()); nm[p] = p->cls + std::to_string(k); all[k]->setContext(vs.createBlock("b" + std::to_string(k), p->cls)); vs.cursorUp(); }
  for (int ph = PARAMS; ph <= POSTINIT; ++ph) for (int k : pre) want.push_back(Event{ph, dynamic_cast<Probe *>(all[k].get())});
  rootB->setup();
  all[r.range(0, int(all.size()) - 1)]->initAll();
  compare(c, "trace-manual", trace, want, nm);
  c.count("manual-trees");
  reset();
}

int main(int argc, char **argv) {
  vh::Harness h(argc, argv);
  h.section("lifecycle", 3000, 60000, lifecycle);
  h.section("broken-file", 500, 5000, brokenFile);
  h.section("manual", 800, 16000, manual);
  for (const char *k : {"lifecycles", "failing-hooks", "two-hierarchies", "initAll:root", "initAll:child", "initAll:deep", "containers:filled", "containers:ordered", "containers:empty", "broken-files", "manual-trees", "deep", "wide"}) h.require(k, 50);
  return h.finish();
}
