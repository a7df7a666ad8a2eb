// C15: data shared between blocks is found by key, type and place in the hierarchy.
#include "common.hpp"
#include "variables.hpp"
#include "parser.hpp"
#include "functions.hpp"
#include "grid/grid.hpp"
#include "variables/function_expression.hpp"
using namespace schnek;
typedef Grid<double, 1> G1;
typedef Array<double, 3> Vec;

enum Type { INT, DBL, VEC, GRD, PINT, PGRD, NTYPES };
struct Item { Type t; std::string key; int slot; };
class Node;
struct MNode { std::string name; bool group = false; MNode *up = nullptr; std::vector<std::unique_ptr<MNode>> kids; std::vector<Item> items; Node *block = nullptr; };

class Node : public Block {
  public:
    int ints[4]; double dbls[4]; Vec vecs[4]; G1 grids[4]; int *pints[4]; G1 *pgrids[4];
    MNode *model = nullptr;
    int regs = 0;
    static int serial;
    static std::vector<Node *> made;
    Node(pBlock p = pBlock()) : Block(p) {
      for (int k = 0; k < 4; ++k) {
        ++serial;
        ints[k] = serial; dbls[k] = serial + 0.5; for (int j = 0; j < 3; ++j) vecs[k][j] = serial * 10 + j;
        grids[k].resize(Array<int, 1>(0), Array<int, 1>(2)); grids[k] = double(serial);
        pints[k] = &ints[k]; pgrids[k] = &grids[k];
      }
      made.push_back(this);
    }
    void put(const Item &i) {
      switch (i.t) {
        case INT: addData(i.key, ints[i.slot]); break;
        case DBL: addData(i.key, dbls[i.slot]); break;
        case VEC: addData(i.key, vecs[i.slot]); break;
        case GRD: addData(i.key, grids[i.slot]); break;
        case PINT: addData(i.key, pints[i.slot]); break;
        default: addData(i.key, pgrids[i.slot]);
      }
    }
  protected:
    void registerData() { ++regs; for (auto &i : model->items) put(i); }
};
int Node::serial = 0;
std::vector<Node *> Node::made;

// the specification: 0 not found, 1 found, 2 ambiguous
struct Found { int state = 0; const void *addr = nullptr; };
static const void *address(Node *b, Type t, int slot) {
  switch (t) { case INT: return &b->ints[slot]; case DBL: return &b->dbls[slot]; case VEC: return &b->vecs[slot]; case GRD: return &b->grids[slot]; case PINT: return &b->pints[slot]; default: return &b->pgrids[slot]; }
}
static std::vector<MNode *> children(MNode *n) { std::vector<MNode *> v; for (auto &k : n->kids) if (k->group) { auto w = children(k.get()); v.insert(v.end(), w.begin(), w.end()); } else v.push_back(k.get()); return v; }
static MNode *owner(MNode *n) { for (n = n->up; n && n->group; n = n->up) {} return n; }
static Found look(MNode *n, Type t, const std::string &key, bool upward) {
  Found f;
  for (auto &i : n->items) if (i.t == t && i.key == key) { f.state = 1; f.addr = address(n->block, t, i.slot); }   // the last registration counts
  if (f.state) return f;
  size_t dot = key.find('.');
  if (dot != std::string::npos) {
    int count = 0;
    for (MNode *k : children(n)) if (k->name == key.substr(0, dot)) { Found g = look(k, t, key.substr(dot + 1), false); if (g.state == 2) return g; if (g.state == 1) { ++count; f = g; } }
    if (count > 1) { f.state = 2; return f; }
    if (count == 1) return f;
  }
  if (upward && owner(n)) return look(owner(n), t, key, true);
  int count = 0;
  for (MNode *k : children(n)) { Found g = look(k, t, key, false); if (g.state == 2) return g; if (g.state == 1) { ++count; f = g; } }
  if (count > 1) f.state = 2;
  return f;
}

struct Tree {
  vh::Rng &r; std::string text; std::vector<MNode *> order; int fresh = 0, budget; MNode root;
  Tree(vh::Rng &r_, int b) : r(r_), budget(b) { root.name = "App"; }
  int wide = 5, maxDepth = 6;
  static std::string longName(int k) { return "thePositionsOfAllTheParticlesInTheWholeOfTheSystem" + std::string(k > 1 ? 100 : 0, 'q') + std::to_string(k); }
  std::string key() { if (r.chance(1, 8)) return longName(r.range(0, 3)); return r.pick(std::vector<std::string>{"x", "y", "pos", "a"}); }
  void body(MNode *n, int depth) {
    if (!n->group) {
      order.push_back(n);
      int k = r.chance(1, 2) ? 0 : r.range(1, 3);
      for (int j = 0; j < k; ++j) n->items.push_back(Item{Type(r.range(0, NTYPES - 1)), r.chance(1, 4) ? "u" + std::to_string(r.range(0, 12)) : key(), r.range(0, 3)});
    }
    int k = r.range(depth == 0 || maxDepth > 6 ? 1 : 0, depth == 0 ? wide : maxDepth > 6 ? 2 : 3);
    if (depth == 0 && wide > 5) k = wide;
    for (int j = 0; j < k && budget > 0 && depth < maxDepth; ++j) {
      --budget;
      std::unique_ptr<MNode> x(new MNode);
      x->group = r.chance(1, 5); x->up = n;
      do x->name = r.chance(1, 12) ? longName(r.range(0, 5)) : r.chance(1, 2) ? r.pick(std::vector<std::string>{"A", "B", "C", "x"}) : "n" + std::to_string(fresh++); while (std::any_of(n->kids.begin(), n->kids.end(), [&](const std::unique_ptr<MNode> &q) { return q->name == x->name; }));
      text += (x->group ? " G " : " N ") + x->name + " {";
      MNode *p = x.get(); n->kids.push_back(std::move(x));
      body(p, depth + 1);
      text += "}";
    }
  }
};
struct Run { BlockClasses bc; VariableStorage vars{"App", "app"}; FunctionRegistry fr; pBlock root; };
static bool build(vh::Case &c, Run &run, Tree &t) {
  run.bc.registerBlock("app").setClass<Node>(); run.bc.registerBlock("N").setClass<Node>(); run.bc.registerBlock("G");
  for (const char *p : {"app", "N", "G"}) run.bc(p).addChildren("N")("G");
  Parser p(run.vars, run.fr, run.bc);
  Node::made.clear();
  std::istringstream is(t.text);
  run.root = p.parse(is, "deck");
  if (!c.ok(Node::made.size() == t.order.size(), "instances", "")) return false;
  for (size_t k = 0; k < t.order.size(); ++k) { t.order[k]->block = Node::made[k]; Node::made[k]->model = t.order[k]; }
  run.root->initAll();
  return true;
}

template<class T> struct Res { int state; T *ptr; T val; };
template<class T> void askPointer(vh::Case &c, MNode *n, const std::string &key, Type t, Type tp) {
  Found f; bool indirect = false;
  if (tp != NTYPES) { f = look(n, tp, key, true); if (f.state == 1) indirect = true; }
  if (f.state == 0) f = look(n, t, key, true);
  T *p = nullptr; int got = 1;
  try { n->block->retrieveData(key, p); } catch (VariableNotFoundException &) { got = 0; } catch (DuplicateVariableException &) { got = 2; }
  const void *want = f.state != 1 ? nullptr : indirect ? *(T *const *)f.addr : f.addr;
  c.check(got == f.state && (got != 1 || p == want), "retrieve-pointer", [&](std::ostream &o) {
    o << n->name << " asks for " << key << " type " << t << ": outcome " << got << ", expected " << f.state << " (0 not found, 1 found, 2 ambiguous)" << (got == 1 && f.state == 1 ? " at another place" : ""); });
  c.count(indirect ? "pointer:indirect" : "pointer:direct");
  c.count("outcome:" + std::to_string(f.state));
}
template<class T> void askValue(vh::Case &c, MNode *n, const std::string &key, Type t) {
  Found f = look(n, t, key, true);
  T v{}; int got = 1;
  try { n->block->retrieveData(key, v); } catch (VariableNotFoundException &) { got = 0; } catch (DuplicateVariableException &) { got = 2; }
  bool same = got != 1 || f.state != 1;
  if (!same) { const T *w = (const T *)f.addr;
    if constexpr (std::is_same<T, G1>::value) { same = v.getRawData() == w->getRawData() && v(0) == (*w)(0) && v.getHi(0) == 2; }
    else if constexpr (std::is_same<T, Vec>::value) same = v[0] == (*w)[0] && v[2] == (*w)[2];
    else same = v == *w; }
  c.check(got == f.state && same, "retrieve-value", [&](std::ostream &o) { o << n->name << " asks for " << key << " type " << t << ": outcome " << got << ", expected " << f.state << (same ? "" : ", wrong value"); });
  c.count("value-outcome:" + std::to_string(f.state));
}
static void ask(vh::Case &c, MNode *n, const std::string &key, int kind) {
  switch (kind) {
    case 0: askPointer<int>(c, n, key, INT, PINT); break;
    case 1: askPointer<double>(c, n, key, DBL, NTYPES); break;
    case 2: askPointer<Vec>(c, n, key, VEC, NTYPES); break;
    case 3: askPointer<G1>(c, n, key, GRD, PGRD); break;
    case 4: askValue<int>(c, n, key, INT); break;
    case 5: askValue<double>(c, n, key, DBL); break;
    case 6: askValue<Vec>(c, n, key, VEC); break;
    default: askValue<G1>(c, n, key, GRD);
  }
}
static void sharing(vh::Case &c) {
  vh::Rng &r = c.rng;
  static std::vector<std::unique_ptr<Run>> earlier;       // hierarchies of earlier cases stay alive for a while
  Tree t(r, r.range(1, 22));
  if (r.chance(1, 25)) { t.wide = r.range(12, 60); t.budget = r.range(40, 80); c.count("wide"); }
  else if (r.chance(1, 25)) { t.maxDepth = r.range(8, 16); t.budget = r.range(16, 30); c.count("deep"); }
  t.body(&t.root, 0);
  if (t.text.empty()) t.text = "N only {}", t.order.clear(), t.budget = 0;
  if (t.order.empty()) { c.nontrivial = false; return; }
  c.desc << t.text;
  for (auto n : t.order) for (auto &i : n->items) c.desc << " " << n->name << "." << i.key << ":" << i.t << "/" << i.slot;
  c.crumb(c.desc.str());
  std::unique_ptr<Run> run(new Run);
  if (!build(c, *run, t)) return;
  int queries = c.h.thorough ? 120 : 60;
  for (int q = 0; q < queries; ++q) {
    MNode *n = r.pick(t.order);
    std::string key;
    int kind = r.range(0, 7);
    if (r.chance(2, 3)) {
      // aim at an existing item, spelled with a suffix of its path
      MNode *m = r.pick(t.order);
      for (int k = 0; k < 5 && m->items.empty(); ++k) m = r.pick(t.order);
      if (m->items.empty()) key = t.key();
      else {
        const Item &i = r.pick(m->items); key = i.key;
        switch (i.t) { case INT: kind = r.chance(1, 2) ? 0 : 4; break; case DBL: kind = r.chance(1, 2) ? 1 : 5; break; case VEC: kind = r.chance(1, 2) ? 2 : 6; break; case GRD: kind = r.chance(1, 2) ? 3 : 7; break; case PINT: kind = 0; break; default: kind = 3; }
        for (MNode *u = m; u && owner(u) && r.chance(1, 2); u = owner(u)) key = u->name + "." + key;
      }
    } else { key = t.key(); for (int k = r.range(0, 2); k > 0; --k) key = r.pick(std::vector<std::string>{"A", "B", "C", "x", "n0", "n1"}) + "." + key; if (r.chance(1, 20)) key = r.pick(std::vector<std::string>{"", ".", "A.", ".x", "A..x", "nosuch"}); }
    if (key.find('.') != std::string::npos) c.count("query:path"); else c.count("query:plain");
    c.crumb(c.desc.str() + " # " + n->name + " asks " + key + " kind " + std::to_string(kind));
    ask(c, n, key, kind);
    // later registrations are seen, too
    if (r.chance(1, 30)) { MNode *m = r.pick(t.order); Item i{Type(r.range(0, NTYPES - 1)), t.key(), r.range(0, 3)}; m->items.push_back(i); m->block->put(i); c.desc << " +" << m->name << "." << i.key << ":" << i.t; c.count("late-registrations"); }
  }
  // a retrieved pointer is the data itself
  for (auto n : t.order) for (auto &i : n->items) if (i.t == DBL) {
    double *p = nullptr;
    n->block->retrieveData(i.key, p);
    *p += 1000; double v = 0; n->block->retrieveData(i.key, v);
    c.ok(v == *p && p >= &n->block->dbls[0] && p < &n->block->dbls[4], "shared-not-copied", "");
  }
  earlier.push_back(std::move(run));
  if (earlier.size() > 8) earlier.erase(earlier.begin());
}

int main(int argc, char **argv) {
  vh::Harness h(argc, argv);
  h.section("sharing", 1200, 20000, sharing);
  for (const char *k : {"query:path", "query:plain", "outcome:0", "outcome:1", "outcome:2", "value-outcome:0", "value-outcome:1", "value-outcome:2", "pointer:indirect", "late-registrations"}) h.require(k, 100);
  h.require("wide", 5); h.require("deep", 5);
  return h.finish();
}
