// Random setup-file expressions with an independent reference evaluator.
#ifndef VH_DECKCOMMON_HPP
#define VH_DECKCOMMON_HPP
#include "common.hpp"
#include <memory>
#include <cmath>
#include <cstdio>
namespace vd {

enum Type { I = 0, F = 1, S = 2 };

// value with a bound for the rounding differences any sensible evaluation may show
struct Val {
  Type t = I;
  long i = 0;
  double d = 0;
  std::string s;
  double err = 0;
  static Val Int(long v) { Val r; r.t = I; r.i = v; return r; }
  static Val Flt(double v, double e = 0) { Val r; r.t = F; r.d = v; r.err = e; return r; }
  static Val Str(const std::string &v) { Val r; r.t = S; r.s = v; return r; }
};

struct Unusable {};   // the case has no well defined result (overflow, ill conditioned, ...): generate another one
struct DivZero {};    // integer division by zero: evaluation must be refused

inline std::string fltText(double d) {   // text of a real number that is a short binary fraction
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

inline Val to(const Val &v, Type t) {
  if (v.t == t) return v;
  if (t == F && v.t == I) return Val::Flt(double(v.i));
  if (t == S && v.t == I) return Val::Str(std::to_string(v.i));
  if (t == S && v.t == F) {
    // only short exact fractions have one obvious text form
    if (v.err != 0 || std::fabs(v.d) > 1e6 || v.d * 64 != std::floor(v.d * 64)) throw Unusable();
    if (v.d == 0) throw Unusable();   // the sign of zero shows in its text
    return Val::Str(fltText(v.d));
  }
  if (t == I && v.t == F) {
    if (!(std::fabs(v.d) < 1e9)) throw Unusable();
    double f = std::floor(v.d), c = std::ceil(v.d);
    if (v.err != 0 && (v.d - f < 1e3 * v.err || c - v.d < 1e3 * v.err || f == c)) throw Unusable();
    return Val::Int(long(v.d));
  }
  throw Unusable();
}

inline long clampInt(long v) { if (v > 1000000000L || v < -1000000000L) throw Unusable(); return v; }
inline Val clampF(double d, double err, bool exact) {
  if (std::isnan(d) || std::fabs(d) > 1e12) throw Unusable();
  if (exact && d * 4096 == std::floor(d * 4096) && std::fabs(d) < 1e9) return Val::Flt(d, 0);
  double e = err + 4e-16 * std::fabs(d);
  if (e > 1e-7 * std::max(1e-3, std::fabs(d))) throw Unusable();
  return Val::Flt(d, e);
}
inline Val apply(char op, const Val &a, const Val &b) {
  if (a.t == S) { if (op != '+') throw Unusable(); return Val::Str(a.s + b.s); }
  if (a.t == I) {
    switch (op) {
      case '+': return Val::Int(clampInt(a.i + b.i));
      case '-': return Val::Int(clampInt(a.i - b.i));
      case '*': return Val::Int(clampInt(a.i * b.i));
      default: if (b.i == 0) throw DivZero(); return Val::Int(a.i / b.i);
    }
  }
  bool ex = a.err == 0 && b.err == 0;
  switch (op) {
    case '+': return clampF(a.d + b.d, a.err + b.err, ex);
    case '-': return clampF(a.d - b.d, a.err + b.err, ex);
    case '*': return clampF(a.d * b.d, std::fabs(a.d) * b.err + std::fabs(b.d) * a.err, ex);
    default:
      if (std::fabs(b.d) < 1e-6) throw Unusable();
      return clampF(a.d / b.d, (a.err + std::fabs(a.d / b.d) * b.err) / std::fabs(b.d), false);
  }
}

struct Env;   // values of the named variables
struct Node;
typedef std::shared_ptr<Node> pNode;
struct FuncDesc { std::string name; Type result; std::vector<Type> args; std::function<double(const std::vector<Val> &)> f; std::function<Val(const std::vector<Val> &)> exactF; double lo = -20, hi = 20, accuracy = 1e-14; };

struct Node {
  enum Kind { Lit, Var, Paren, Sum, Prod, Pow, Call } k;
  Type t = I;
  Val v;                       // Lit
  std::string text;            // literal text or variable name
  std::vector<pNode> kid;
  std::vector<char> op;        // operators between the kids of Sum, Prod
  char sign = 0;               // leading sign of a Sum, sign of the exponent in Pow
  const FuncDesc *fn = nullptr;
};

struct Env {
  std::map<std::string, Val> vars;
};

inline Val eval(const Node &n, const Env &e) {
  switch (n.k) {
    case Node::Lit: return n.v;
    case Node::Var: { auto it = e.vars.find(n.text); if (it == e.vars.end()) throw Unusable(); return it->second; }
    case Node::Paren: return eval(*n.kid[0], e);
    case Node::Sum: case Node::Prod: {
      std::vector<Val> v;
      for (auto &k : n.kid) v.push_back(eval(*k, e));
      Type t = I;
      for (auto &x : v) t = std::max(t, x.t);
      if (n.sign == '-') { if (v[0].t == S) throw Unusable(); if (v[0].t == I) v[0].i = -v[0].i; else v[0].d = -v[0].d; }
      Val r = to(v[0], t);
      for (size_t i = 1; i < v.size(); ++i) r = apply(n.op[i - 1], r, to(v[i], t));
      return r;
    }
    case Node::Pow: {
      Val a = eval(*n.kid[0], e), b = eval(*n.kid[1], e);
      if (n.sign == '-') { if (b.t == I) b.i = -b.i; else if (b.t == F) b.d = -b.d; else throw Unusable(); }
      Type t = std::max(a.t, b.t);
      if (t == S) throw Unusable();
      if (t == I) {
        if (b.i < 0) { if (a.i == 0) throw Unusable(); return Val::Int(a.i == 1 ? 1 : a.i == -1 ? (b.i % 2 ? -1 : 1) : 0); }
        long r = 1;
        for (long i = 0; i < b.i; ++i) { r = clampInt(r * a.i); if (i > 40) throw Unusable(); }
        return Val::Int(r);
      }
      a = to(a, F); b = to(b, F);
      bool ib = b.err == 0 && b.d == std::floor(b.d);
      if (a.d <= 1e-3 && !(ib && b.d >= 0)) throw Unusable();
      if (std::fabs(b.d) > 12) throw Unusable();
      double r = std::pow(a.d, b.d), la = std::fabs(a.d) > 1e-3 ? std::fabs(std::log(std::fabs(a.d))) : 0;
      return clampF(r, std::fabs(r) * (std::fabs(b.d) * (a.err / std::max(1e-3, std::fabs(a.d))) + la * b.err), ib && b.d >= 0 && b.d <= 3 && a.err == 0);
    }
    case Node::Call: {
      std::vector<Val> a;
      for (size_t i = 0; i < n.kid.size(); ++i) a.push_back(to(eval(*n.kid[i], e), n.fn->args[i]));
      if (n.fn->exactF) { Val r = n.fn->exactF(a); if (r.t == I) clampInt(r.i); if (r.t == F) return clampF(r.d, r.err, r.err == 0); return r; }
      double er = 0;
      for (auto &x : a) if (x.t == F && (x.d < n.fn->lo || x.d > n.fn->hi)) throw Unusable();
      double r = n.fn->f(a);
      for (auto &x : a) if (x.t == F) {
        double d = x.d, h = 1e-6;
        x.d = d + h; double u = n.fn->f(a);
        x.d = d - h; double l = n.fn->f(a);
        x.d = d;
        if (std::isnan(u) || std::isnan(l)) throw Unusable();
        er += (std::fabs(u - r) + std::fabs(r - l)) / h * (x.err + 1e-16 * std::fabs(d));
      }
      return clampF(r, er + n.fn->accuracy * std::fabs(r), false);
    }
  }
  throw Unusable();
}

struct Gen {
  vh::Rng &r;
  std::vector<std::pair<std::string, Type>> vars;   // usable names
  std::vector<const FuncDesc *> funcs;
  int maxChain = 4;
  Gen(vh::Rng &r_) : r(r_) {}
  pNode lit(Type t) {
    pNode n(new Node); n->k = Node::Lit; n->t = t;
    if (t == I) {
      long v = r.chance(1, 8) ? r.range(0, 100000) : r.range(0, 12);
      n->v = Val::Int(v);
      n->text = std::string(r.chance(1, 10) ? r.range(1, 3) : 0, '0') + std::to_string(v);
    } else if (t == F) {
      char b[64];
      switch (r.range(0, 7)) {
        case 0: snprintf(b, sizeof b, "%d.", r.range(0, 40)); break;
        case 1: snprintf(b, sizeof b, ".%d", r.pick(std::vector<int>{5, 25, 125, 75, 375, 3, 17})); break;
        case 2: snprintf(b, sizeof b, "%d%c%d", r.range(1, 9), r.chance(1, 2) ? 'e' : 'E', r.range(0, 4)); break;
        case 3: snprintf(b, sizeof b, "%d.%de%c%d", r.range(0, 9), r.range(0, 99), r.chance(1, 2) ? '+' : '-', r.range(0, 3)); break;
        case 4: snprintf(b, sizeof b, "%d.e%d", r.range(1, 9), r.range(0, 3)); break;
        case 5: snprintf(b, sizeof b, ".%dE%d", r.range(1, 99), r.range(0, 3)); break;
        case 6: snprintf(b, sizeof b, "%d.%03d", r.range(0, 30), r.range(0, 999)); break;
        default: snprintf(b, sizeof b, "%d.%s", r.range(0, 20), r.pick(std::vector<std::string>{"0", "5", "25", "75", "125", "875", "50"}).c_str());
      }
      double d = strtod(b, 0);
      n->text = b;
      n->v = Val::Flt(d, d * 64 == std::floor(d * 64) ? 0 : 1e-17 * d);
    } else {
      static const std::string alphabet = "abcXYZ 019_+-*/(){};,.=:#$!?@%&|~<>[]";
      int len = r.range(0, 8);
      std::string s;
      for (int i = 0; i < len; ++i) s += alphabet[r.range(0, int(alphabet.size()) - 1)];
      char q = r.chance(1, 2) ? '"' : '\'';
      if (r.chance(1, 4)) s += q == '"' ? "it's" : "a\"b";
      if (r.chance(1, 12)) s += std::string(r.range(100, 300), 'z');
      if (r.chance(1, 12)) s += "\nnext line";
      n->text = q + s + q;
      n->v = Val::Str(s);
    }
    return n;
  }
  pNode atom(Type t, int depth) {
    int k = r.range(0, 9);
    if (k < 3 || depth <= 0) {
      std::vector<std::string> c;
      for (auto &v : vars) if (v.second == t) c.push_back(v.first);
      if (!c.empty() && r.chance(1, 2)) { pNode n(new Node); n->k = Node::Var; n->t = t; n->text = r.pick(c); return n; }
      return lit(t);
    }
    if (k < 5 && !funcs.empty()) {
      std::vector<const FuncDesc *> c;
      for (auto f : funcs) if (f->result == t) c.push_back(f);
      if (!c.empty()) {
        pNode n(new Node); n->k = Node::Call; n->t = t; n->fn = r.pick(c); n->text = n->fn->name;
        for (Type a : n->fn->args) n->kid.push_back(expr(argType(a), depth - 1));
        return n;
      }
    }
    if (k < 8) { pNode n(new Node); n->k = Node::Paren; n->t = t; n->kid.push_back(expr(t, depth - 1)); return n; }
    return lit(t);
  }
  Type argType(Type a) {
    if (a == F && r.chance(1, 3)) return I;
    if (a == S && r.chance(1, 4)) return r.chance(1, 2) ? I : F;
    if (a == I && r.chance(1, 5)) return F;
    return a;
  }
  pNode power(Type t, int depth) {
    if (t == S || !r.chance(1, 8)) return atom(t, depth);
    pNode n(new Node); n->k = Node::Pow; n->t = t;
    if (t == I) { n->kid.push_back(atom(I, depth - 1)); pNode x = lit(I); x->v = Val::Int(r.range(0, 5)); x->text = std::to_string(x->v.i); n->kid.push_back(x); if (r.chance(1, 6)) n->sign = '-'; else if (r.chance(1, 8)) n->sign = '+'; }
    else {
      bool bi = r.chance(1, 3), ei = !bi && r.chance(1, 2);
      n->kid.push_back(atom(bi ? I : F, depth - 1));
      if (ei) { pNode x = lit(I); x->v = Val::Int(r.range(0, 4)); x->text = std::to_string(x->v.i); n->kid.push_back(x); } else n->kid.push_back(atom(F, depth - 1));
      if (r.chance(1, 3)) n->sign = '-'; else if (r.chance(1, 8)) n->sign = '+';
    }
    return n;
  }
  // operand types of a chain whose widest type is t
  std::vector<Type> chainTypes(Type t, int n) {
    std::vector<Type> v(n, t);
    if (t != I && n > 1 && r.chance(1, 2)) {
      for (auto &x : v) if (r.chance(1, 2)) x = Type(r.range(0, int(t) - 1));
      v[r.range(0, n - 1)] = t;
    }
    return v;
  }
  pNode term(Type t, int depth) {
    int n = t == S || r.chance(1, 2) ? 1 : r.range(2, maxChain);
    if (n == 1) return power(t, depth);
    pNode p(new Node); p->k = Node::Prod; p->t = t;
    std::vector<Type> ty = chainTypes(t, n);
    for (int i = 0; i < n; ++i) { p->kid.push_back(power(ty[i], depth)); if (i) p->op.push_back(r.chance(1, 2) ? '*' : '/'); }
    return p;
  }
  pNode expr(Type t, int depth) {
    int n = r.chance(1, 3) ? 1 : r.range(2, maxChain);
    pNode p(new Node); p->k = Node::Sum; p->t = t;
    std::vector<Type> ty = chainTypes(t, n);
    for (int i = 0; i < n; ++i) { p->kid.push_back(term(ty[i], depth)); if (i) p->op.push_back(t == S || r.chance(1, 2) ? '+' : '-'); }
    if (ty[0] != S) { if (r.chance(1, 6)) p->sign = '-'; else if (r.chance(1, 12)) p->sign = '+'; }
    return p;
  }
};

// parser stack entries the expression needs at most (the parser supports 100)
inline int stackNeed(const Node &n) {
  switch (n.k) {
    case Node::Lit: case Node::Var: return 2;
    case Node::Paren: return 2 + stackNeed(*n.kid[0]);
    case Node::Sum: case Node::Prod: { int m = 0; for (size_t i = 0; i < n.kid.size(); ++i) m = std::max(m, 2 * int(i) + 2 + stackNeed(*n.kid[i])); return m; }
    case Node::Pow: return std::max(stackNeed(*n.kid[0]), 3 + stackNeed(*n.kid[1]));
    case Node::Call: { int m = 3; for (auto &k : n.kid) m = std::max(m, 4 + stackNeed(*k)); return m; }
  }
  return 0;
}

struct Writer {
  vh::Rng &r;
  std::string out;
  int noise;         // 0: compact, 1: spaces, 2: anything
  Writer(vh::Rng &r_, int noise_) : r(r_), noise(noise_) {}
  void gap() {
    if (noise == 0) return;
    if (noise == 1) { if (r.chance(1, 2)) out += " "; return; }
    switch (r.range(0, 9)) {
      case 0: out += "\n"; break;
      case 1: out += "\t "; break;
      case 2: out += " /* c * / ; } x=1; // */ "; break;
      case 3: out += " // comment ; } \" ' /* \n"; break;
      case 4: out += "  "; break;
      case 5: out += "\r\n"; break;
      case 6: if (r.chance(1, 6)) out += " /* " + std::string(r.range(100, 400), '*') + "\n" + std::string(r.range(1, 200), '/') + " */ "; break;
      default: break;
    }
  }
  void tok(const std::string &s) { out += s; gap(); }
  void node(const Node &n) {
    switch (n.k) {
      case Node::Lit: case Node::Var: tok(n.text); break;
      case Node::Paren: tok("("); node(*n.kid[0]); tok(")"); break;
      case Node::Sum: case Node::Prod:
        if (n.sign) tok(std::string(1, n.sign));
        for (size_t i = 0; i < n.kid.size(); ++i) { if (i) tok(std::string(1, n.op[i - 1])); node(*n.kid[i]); }
        break;
      case Node::Pow: node(*n.kid[0]); tok("^"); if (n.sign) tok(std::string(1, n.sign)); node(*n.kid[1]); break;
      case Node::Call: tok(n.text); tok("("); for (size_t i = 0; i < n.kid.size(); ++i) { if (i) tok(","); node(*n.kid[i]); } tok(")"); break;
    }
  }
};
inline std::string text(vh::Rng &r, const Node &n, int noise) { Writer w(r, noise); w.node(n); return w.out; }

inline void names(const Node &n, std::set<std::string> &s) { if (n.k == Node::Var) s.insert(n.text); for (auto &k : n.kid) names(*k, s); }
inline void shape(const Node &n, vh::Case &c) {
  static const char *nm[] = {"literal", "variable", "parentheses", "sum", "product", "power", "call"};
  c.count(std::string("node:") + nm[n.k]);
  if (n.k == Node::Call) c.count("function:" + n.text);
  if ((n.k == Node::Sum || n.k == Node::Prod) && n.kid.size() > 1) {
    bool mixed = false;
    for (auto &k : n.kid) if (k->t != n.t) mixed = true;
    c.count(std::string(mixed ? "chain:mixed-" : "chain:") + "IFS"[n.t]);
  }
  for (auto &k : n.kid) shape(*k, c);
}

// the result agrees with the reference up to rounding
inline bool agrees(const Val &want, double got) { return std::fabs(got - want.d) <= 1e3 * want.err; }

inline const std::vector<FuncDesc> &library() {
  static std::vector<FuncDesc> v;
  if (!v.empty()) return v;
#define F1(nm, lo_, hi_) { FuncDesc d; d.name = #nm; d.result = F; d.args = {F}; d.lo = lo_; d.hi = hi_; d.f = [](const std::vector<Val> &a) { return std::nm(a[0].d); }; v.push_back(d); }
#define F2(nm, lo_, hi_) { FuncDesc d; d.name = #nm; d.result = F; d.args = {F, F}; d.lo = lo_; d.hi = hi_; d.f = [](const std::vector<Val> &a) { return std::nm(a[0].d, a[1].d); }; v.push_back(d); }
  F1(cos, -20, 20) F1(sin, -20, 20) F1(tan, -1.5, 1.5) F1(acos, -.99, .99) F1(asin, -.99, .99) F1(atan, -20, 20) F2(atan2, .01, 20)
  F1(cosh, -8, 8) F1(sinh, -8, 8) F1(tanh, -20, 20) F1(exp, -10, 10) F1(log, .01, 1e6) F1(log10, .01, 1e6) F1(sqrt, .01, 1e6) F1(fabs, -1e6, 1e6)
  { FuncDesc d; d.name = "ldexp"; d.result = F; d.args = {F, I}; d.exactF = [](const std::vector<Val> &a) { if (std::labs(a[1].i) > 20) throw Unusable(); double m = std::pow(2.0, double(a[1].i)); return Val::Flt(a[0].d * m, a[0].err * m + 1e-16 * std::fabs(a[0].d * m)); }; v.push_back(d); }
  { FuncDesc d; d.name = "pow"; d.result = F; d.args = {F, F}; d.lo = .01; d.hi = 6; d.f = [](const std::vector<Val> &a) { return std::pow(a[0].d, a[1].d); }; v.push_back(d); }
  { FuncDesc d; d.name = "ceil"; d.result = F; d.args = {F}; d.exactF = [](const std::vector<Val> &a) { double f = std::floor(a[0].d); if (a[0].err != 0 && (a[0].d - f < 1e3 * a[0].err || f + 1 - a[0].d < 1e3 * a[0].err)) throw Unusable(); return Val::Flt(a[0].d == f ? f : f + 1); }; v.push_back(d); }
  { FuncDesc d; d.name = "floor"; d.result = F; d.args = {F}; d.exactF = [](const std::vector<Val> &a) { double f = std::floor(a[0].d); if (a[0].err != 0 && (a[0].d - f < 1e3 * a[0].err || f + 1 - a[0].d < 1e3 * a[0].err)) throw Unusable(); return Val::Flt(f); }; v.push_back(d); }
  { FuncDesc d; d.name = "fmod"; d.result = F; d.args = {F, F}; d.exactF = [](const std::vector<Val> &a) { if (a[0].err != 0 || a[1].err != 0 || a[1].d == 0) throw Unusable(); double q = std::trunc(a[0].d / a[1].d); return Val::Flt(a[0].d - q * a[1].d, 1e-13 * std::max(1.0, std::fabs(a[0].d))); }; v.push_back(d); }
  { FuncDesc d; d.name = "min"; d.result = F; d.args = {F, F}; d.exactF = [](const std::vector<Val> &a) { return a[0].d < a[1].d ? a[0] : a[1]; }; v.push_back(d); }
  { FuncDesc d; d.name = "max"; d.result = F; d.args = {F, F}; d.exactF = [](const std::vector<Val> &a) { return a[0].d < a[1].d ? a[1] : a[0]; }; v.push_back(d); }
  { FuncDesc d; d.name = "gamma"; d.result = F; d.args = {F}; d.lo = .1; d.hi = 8; d.f = [](const std::vector<Val> &a) { return std::tgamma(a[0].d); }; v.push_back(d); }
  { FuncDesc d; d.name = "lgamma"; d.result = F; d.args = {F}; d.lo = .1; d.hi = 30; d.f = [](const std::vector<Val> &a) { return std::lgamma(a[0].d) + 0.0; }; v.push_back(d); }
  { FuncDesc d; d.name = "besselj"; d.accuracy = 1e-11; d.result = F; d.args = {I, F}; d.lo = .1; d.hi = 20; d.f = [](const std::vector<Val> &a) { if (a[0].i < 0 || a[0].i > 8) throw Unusable(); double z = std::cyl_bessel_j(double(a[0].i), a[1].d); if (std::fabs(z) < .02) throw Unusable(); return z; }; v.push_back(d); }
  { FuncDesc d; d.name = "bessely"; d.accuracy = 1e-11; d.result = F; d.args = {I, F}; d.lo = 1; d.hi = 20; d.f = [](const std::vector<Val> &a) { if (a[0].i < 0 || a[0].i > 4) throw Unusable(); double z = std::cyl_neumann(double(a[0].i), a[1].d); if (std::fabs(z) < .02) throw Unusable(); return z; }; v.push_back(d); }
  { FuncDesc d; d.name = "normal"; d.result = F; d.args = {F, F, F}; d.lo = .5; d.hi = 6; d.f = [](const std::vector<Val> &a) { double y = (a[0].d - a[2].d) / a[1].d; return std::exp(-0.5 * y * y); }; v.push_back(d); }
  { FuncDesc d; d.name = "minI"; d.result = F; d.args = {I, I}; d.exactF = [](const std::vector<Val> &a) { return Val::Flt(double(a[0].i < a[1].i ? a[0].i : a[1].i)); }; v.push_back(d); }
  { FuncDesc d; d.name = "maxI"; d.result = F; d.args = {I, I}; d.exactF = [](const std::vector<Val> &a) { return Val::Flt(double(a[0].i < a[1].i ? a[1].i : a[0].i)); }; v.push_back(d); }
  { FuncDesc d; d.name = "digamma"; d.result = F; d.args = {F}; d.lo = .5; d.hi = 20; d.accuracy = 1e-10;
    d.f = [](const std::vector<Val> &a) { if (std::fabs(a[0].d - 1.4616) < .3) throw Unusable(); long double x = a[0].d, s = 0; while (x < 20) { s -= 1 / x; x += 1; }
      long double q = 1 / (x * x); return double(s + std::log(x) - 0.5L / x - q * (1.0L / 12 - q * (1.0L / 120 - q * (1.0L / 252 - q / 240)))); }; v.push_back(d); }
#undef F1
#undef F2
  return v;
}
} // namespace vd
#endif
