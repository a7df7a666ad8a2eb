// C12: whatever the setup file contains, reading it either works or raises one of the library's own exceptions.
#include "deckcommon.hpp"
#include "variables.hpp"
#include "parser.hpp"
#include "functions.hpp"
#include "variables/function_expression.hpp"
#include "variables/dependencies.hpp"
using namespace schnek;

static double fa, fb, fz, vx = 0.5; static int ia, vn = 3; static std::string sa;
class Root : public Block {
  protected:
    void initParameters(BlockParameters &p) {
      p.addConstant("pi", 3.125); p.addConstant("two", 2); p.addConstant("nm", std::string("7"));
      p.addParameter("vx", &vx, BlockParameters::readonly); p.addParameter("vn", &vn, BlockParameters::readonly);
      p.addParameter("fa", &fa, 0.0); p.addParameter("fb", &fb, 0.0); p.addParameter("fz", &fz, 0.0); p.addParameter("ia", &ia, 1); p.addParameter("sa", &sa, std::string("1"));
    }
};
class Kid : public Block {
    double q; int n; Array<double, 3> a;
  protected:
    void initParameters(BlockParameters &p) { p.addParameter("q", &q, 1.5); p.addParameter("n", &n, 2); p.addArrayParameter("r", a, 0.5); }
};
static double twice(double x) { return 2 * x; }
static double drift() { static double d = 0; return d += 1; }

struct Outcome { char how = 0; std::string what; int line = 0; double f[3]; int i; std::string s;
  bool same(const Outcome &o) const {
    if (how != o.how || what != o.what || line != o.line) return false;
    if (how) return true;
    for (int k = 0; k < 3; ++k) if (!(f[k] == o.f[k] || (std::isnan(f[k]) && std::isnan(o.f[k])))) return false;
    return i == o.i && s == o.s; } };

static Outcome read(const std::string &deck, bool randomFunction = false) {
  Outcome o;
  fa = fb = fz = 0; ia = 0; sa = "";
  try {
    BlockClasses bc;
    bc.registerBlock("app").setClass<Root>(); bc.registerBlock("K").setClass<Kid>(); bc.registerBlock("G");
    bc("app").addChildren("K")("G"); bc("K").addChildren("K")("G"); bc("G").addChildren("K")("G");
    VariableStorage vars("App", "app");
    FunctionRegistry fr; registerCMath(fr); registerUtilityFunctions(fr); fr.registerFunction("twice", twice);
    if (randomFunction) fr.registerFunction("drift", drift, true);
    Parser P(vars, fr, bc);
    std::istringstream is(deck);
    pBlock b = P.parse(is, "deck");
    if (!b) { o.how = '0'; return o; }
    b->initAll();
  }
  catch (ParserError &e) { o.how = 'P'; o.what = e.message; o.line = e.getLine(); if (e.getFilename() != "deck") o.how = 'F'; }
  catch (EvaluationException &e) { o.how = 'E'; o.what = e.getMessage(); }
  catch (SchnekException &e) { o.how = 'S'; o.what = typeid(e).name(); }
  catch (std::exception &e) { o.how = '!'; o.what = std::string(typeid(e).name()) + " " + e.what(); }
  catch (...) { o.how = '?'; }
  o.f[0] = fa; o.f[1] = fb; o.f[2] = fz; o.i = ia; o.s = sa;
  return o;
}

static void judge(vh::Case &c, const std::string &deck, const Outcome &o) {
  std::string k = o.how == 0 ? "accepted" : std::string(1, o.how);
  c.count("outcome:" + k);
  c.check(o.how != '!' && o.how != '?' && o.how != '0' && o.how != 'F', "foreign-exception", [&](std::ostream &s) { s << "reading failed with " << o.how << " " << o.what; });
  if (o.how == 'P') {
    int lines = 1 + int(std::count(deck.begin(), deck.end(), '\n'));
    c.check(o.line >= 0 && o.line <= lines + 1, "line-range", [&](std::ostream &s) { s << "line " << o.line << " of " << lines; });
  }
}

// --- token level ---------------------------------------------------------------------------------
struct Recogniser {
  const std::vector<std::string> &t; size_t p = 0; int depth = 0;
  Recogniser(const std::vector<std::string> &t_) : t(t_) {}
  static bool isType(const std::string &s) { return s == "int" || s == "integer" || s == "float" || s == "double" || s == "real" || s == "string"; }
  static bool isPath(const std::string &s) { return (isalpha((unsigned char)s[0]) || s[0] == '_') && s.find(':') != std::string::npos; }
  static bool isIdent(const std::string &s) { return (isalpha((unsigned char)s[0]) || s[0] == '_') && !isType(s) && !isPath(s); }
  static bool isLit(const std::string &s) { return isdigit((unsigned char)s[0]) || (s[0] == '.' && s.size() > 1) || s[0] == '"' || s[0] == '\''; }
  bool is(const char *s) const { return p < t.size() && t[p] == s; }
  bool eat(const char *s) { if (is(s)) { ++p; return true; } return false; }
  bool ident() { if (p < t.size() && isIdent(t[p])) { ++p; return true; } return false; }
  bool atom() {
    if (eat("(")) return expr() && eat(")");
    if (p >= t.size()) return false;
    if (isLit(t[p]) || isPath(t[p])) { ++p; return true; }
    if (ident()) {
      if (!eat("(")) return true;
      if (eat(")")) return true;
      do if (!expr()) return false; while (eat(","));
      return eat(")");
    }
    return false;
  }
  bool power() { if (!atom()) return false; if (eat("^")) { if (!eat("+")) eat("-"); return atom(); } return true; }
  bool term() { do if (!power()) return false; while (eat("*") || eat("/")); return true; }
  bool expr() { if (!eat("+")) eat("-"); do if (!term()) return false; while (eat("+") || eat("-")); return true; }
  bool statement() {
    if (eat("}")) return --depth >= 0;
    if (p < t.size() && isType(t[p])) {
      ++p;
      do { if (!ident()) return false; if (eat("=") && !expr()) return false; } while (eat(","));
      return eat(";");
    }
    if (!ident()) return false;
    if (eat("=")) return expr() && eat(";");
    if (eat("{")) { ++depth; return true; }
    if (ident() && eat("{")) { ++depth; return true; }
    return false;
  }
  bool deck() { if (t.empty()) return false; while (p < t.size()) if (!statement()) return false; return true; }
};

static std::string join(vh::Rng &r, const std::vector<std::string> &t) {
  std::string s; int style = r.range(0, 2);
  for (auto &x : t) { s += x; s += style == 0 ? " " : style == 1 ? "\n" : r.pick(std::vector<std::string>{" ", "\n", "\t", " // x\n", " /* y */ "}); }
  return s;
}
static const std::vector<std::string> &alphabet() {
  static const std::vector<std::string> v = {"=", "{", "}", "(", ")", ";", ",", "+", "-", "*", "/", "^", "int", "integer", "float", "double", "real", "string", "fa", "fb", "ia", "sa", "vx", "vn", "pi", "two", "nm",
    "sin", "atan2", "twice", "K", "G", "k1", "x", "e", "E1", "k1:q", "a:b", "::", "0", "1", "7", "2147483647", "0.5", ".25", "3.", "1e3", "1e300", "'a'", "\"12\"", "''", "9999999999"};
  return v;
}
static std::vector<std::string> seedDeck(vh::Rng &r) {
  std::vector<std::string> t;
  int n = r.range(1, 6);
  auto expr = [&]() {
    int k = r.range(1, 4);
    for (int i = 0; i < k; ++i) {
      if (i) t.push_back(r.pick(std::vector<std::string>{"+", "-", "*", "/"}));
      switch (r.range(0, 5)) {
        case 0: t.push_back("("); t.push_back("1"); t.push_back("+"); t.push_back("vx"); t.push_back(")"); break;
        case 1: t.push_back("sin"); t.push_back("("); t.push_back("pi"); t.push_back(")"); break;
        case 2: t.push_back("atan2"); t.push_back("("); t.push_back("vx"); t.push_back(","); t.push_back("2"); t.push_back(")"); break;
        case 3: t.push_back("2"); t.push_back("^"); t.push_back("two"); break;
        default: t.push_back(r.pick(std::vector<std::string>{"1", "2.5", "fa", "ia", "vx", "vn", "pi", "two"}));
      }
    }
  };
  int open = 0, names = 0;
  for (int i = 0; i < n; ++i) {
    switch (r.range(0, 4)) {
      case 0: t.push_back("float"); t.push_back("l" + std::to_string(names++)); t.push_back("="); t.push_back("1.5"); t.push_back("*"); expr(); t.push_back(";"); break;
      case 1: t.push_back("K"); t.push_back("k" + std::to_string(names++)); t.push_back("{"); ++open; break;
      case 2: if (open) { t.push_back("}"); --open; } break;
      default: t.push_back(r.pick(std::vector<std::string>{"fa", "fb", "ia"})); t.push_back("="); expr(); t.push_back(";");
    }
  }
  while (open-- > 0) t.push_back("}");
  if (t.empty()) { t = {"fa", "=", "1", ";"}; }
  return t;
}
static void mutateTokens(vh::Rng &r, std::vector<std::string> &t, int n) {
  for (int i = 0; i < n; ++i) {
    size_t p = t.empty() ? 0 : r.next() % t.size();
    switch (r.range(0, 5)) {
      case 0: if (!t.empty()) t.erase(t.begin() + p); break;
      case 1: t.insert(t.begin() + p, r.pick(alphabet())); break;
      case 2: if (!t.empty()) t[p] = r.pick(alphabet()); break;
      case 3: if (!t.empty()) t.insert(t.begin() + p, t[p]); break;
      case 4: if (t.size() > 1) std::swap(t[p], t[r.next() % t.size()]); break;
      default: if (t.size() > 2 && r.chance(1, 3)) t.resize(p + 1); break;
    }
  }
}
static void tokenCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  std::vector<std::string> t;
  if (r.chance(1, 6)) { int n = r.range(1, 30); for (int i = 0; i < n; ++i) t.push_back(r.pick(alphabet())); }
  else { t = seedDeck(r); mutateTokens(r, t, r.range(0, 4)); }
  // whatever was accepted must have been read up to its last statement
  bool sentinel = r.chance(2, 3);
  if (sentinel && !t.empty() && t.back() != ";" && t.back() != "}" && t.back() != "{") sentinel = false;   // it would become part of another statement
  if (sentinel) for (auto &x : {"fz", "=", "4242.5", ";"}) t.push_back(x);
  std::string deck = join(r, t);
  c.desc << deck; c.crumb(deck);
  Recogniser rec(t);
  bool syntax = rec.deck();
  Outcome o = read(deck);
  judge(c, deck, o);
  c.count(syntax ? "syntax:good" : "syntax:bad");
  if (!syntax) c.check(o.how != 0, "bad-syntax-accepted", [&](std::ostream &s) { s << "no error for a text that is not in the language (from token " << rec.p << ")"; });
  if (sentinel && o.how == 0) { c.check(o.f[2] == 4242.5, "silently-truncated", [&](std::ostream &s) { s << "reading succeeded but the last statement had no effect: fz = " << o.f[2]; }); c.count("sentinel:seen"); }
  if (r.chance(1, 4)) { Outcome p = read(deck); c.check(o.same(p), "not-repeatable", [&](std::ostream &s) { s << "reading twice gave " << o.how << o.what << " and " << p.how << p.what; }); c.count("repeated"); }
}
// --- byte level ----------------------------------------------------------------------------------
static std::string randomBytes(vh::Rng &r, int n) { std::string s; for (int i = 0; i < n; ++i) s += char(r.range(0, 255)); return s; }
static void byteCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  std::string d;
  if (r.chance(1, 8)) d = randomBytes(r, r.range(0, 300));
  else if (r.chance(1, 8)) { int n = r.range(0, 200); static const std::string cs = "={}();,+-*/^'\"\\ \n\t:._eE0123456789aifxK"; for (int i = 0; i < n; ++i) d += cs[r.range(0, int(cs.size()) - 1)]; }
  else {
    std::vector<std::string> t = seedDeck(r);
    d = join(r, t);
    int n = r.range(1, 6);
    for (int i = 0; i < n; ++i) {
      size_t p = d.empty() ? 0 : r.next() % d.size();
      switch (r.range(0, 8)) {
        case 0: if (!d.empty()) d.erase(p, 1); break;
        case 1: d.insert(p, 1, char(r.range(0, 255))); break;
        case 2: if (!d.empty()) d[p] = char(r.range(32, 126)); break;
        case 3: d.insert(p, r.pick(std::vector<std::string>{"'", "\"", "/*", "*/", "//", "\\", ":", "::", "\0", "\r", "\xff", "{", "}", "((((", "))))", "1e", ".", "e+", "'\\'"})); break;
        case 4: if (!d.empty()) d.resize(p); break;
        case 5: d.insert(p, std::string(r.range(1, 3000), r.pick(std::vector<char>{'a', '1', ' ', '\n', '(', '-', '/', '*', '"', '\'', '.'}))); break;
        case 6: { size_t q = d.empty() ? 0 : r.next() % d.size(), l = r.range(1, 40); d.insert(p, d.substr(q, l)); break; }
        case 7: if (!d.empty()) d[p] = char(d[p] ^ (1 << r.range(0, 7))); break;
        default: d.insert(p, randomBytes(r, r.range(1, 10)));
      }
    }
  }
  c.desc << vh::jesc(d.substr(0, 3000)); c.crumb(c.desc.str());
  Outcome o = read(d);
  judge(c, d, o);
  if (r.chance(1, 5)) { Outcome p = read(d); c.check(o.same(p), "not-repeatable", [&](std::ostream &s) { s << "reading twice gave " << o.how << o.what << " and " << p.how << p.what; }); c.count("repeated"); }
}
// --- size and nesting ----------------------------------------------------------------------------
static void sizeCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  std::string d; int n;
  // expect: 1 must work, 0 must be refused, -1 either
  int expect = -1; double want = 0; bool haveWant = false; std::string text; bool haveText = false;
  switch (c.index % 14) {
    case 0: n = r.range(1, 400); d = "fa = " + std::string(n, '(') + "1" + std::string(n, ')') + ";"; if (n < 30) { expect = 1; want = 1; haveWant = true; } break;
    case 1: n = r.range(1, 400); d = "fa = 1"; for (int i = 0; i < n; ++i) d += "+1"; d += ";"; if (n < 40) { expect = 1; want = n + 1; haveWant = true; } break;
    case 2: n = r.range(1, 300); for (int i = 0; i < n; ++i) d += "K k" + std::to_string(i) + " {\n"; d += "fa = 2.5;"; if (r.chance(1, 2)) d += std::string(n, '}'); expect = 1; want = 2.5; haveWant = true; break;
    case 3: n = r.range(1, 5000); d = "float " + std::string(n, 'v') + " = 3.5; fa = " + std::string(n, 'v') + ";"; expect = 1; want = 3.5; haveWant = true; break;
    case 4: n = r.range(1, 20000); text = std::string(n, 's'); haveText = true; d = "sa = '" + text + "'; fa = 1.25;"; expect = 1; want = 1.25; haveWant = true; break;
    case 12: { // a text of arbitrary bytes is taken whole or refused; one of printable characters is taken
      n = r.range(1, 60); bool plain = r.chance(1, 2); char q = r.chance(1, 2) ? '\'' : '"';
      for (int i = 0; i < n; ++i) { char ch = char(plain ? r.range(32, 126) : r.chance(1, 4) ? 0 : r.range(0, 255)); if (ch == q || ch == '\\' || ch == '\n') ch = '_'; text += ch; }
      haveText = true; d = std::string("sa = ") + q + text + q + "; fa = 1.25;"; if (plain) expect = 1; want = 1.25; haveWant = true; c.count(plain ? "text:plain" : "text:bytes"); break; }
    case 5: n = r.range(1, 1500); for (int i = 0; i < n; ++i) d += "fa = " + std::to_string(i) + ";\n"; expect = 1; want = n - 1; haveWant = true; break;
    case 6: n = r.range(9, 400); d = "ia = " + std::string(n, '9') + ";"; expect = n > 9 ? 0 : 1; break;
    case 7: n = r.range(1, 200); d = "fa = 1." + std::string(n, '0') + "5;"; expect = 1; break;
    case 8: n = r.range(1, 20000); d = "/*" + std::string(n, r.chance(1, 2) ? '*' : 'x') + "*/ fa = 6.5; //" + std::string(n, '/'); expect = 1; want = 6.5; haveWant = true; break;
    case 9: { d = "ia = " + r.pick(std::vector<std::string>{"2147483647 + 1", "-2147483647 - 2", "65536 * 65536", "2 ^ 31", "10 ^ 20", "1 / 0", "3000000000", "1e10", "-1e10", "'99999999999'", "(-2147483647 - 1) / -1 + 0", "0 ^ -1"}) + ";"; if (d.find("/ -1") != std::string::npos) d = "ia = (-2147483647-1)/(0-1);"; expect = 0; break; }
    case 10: { // real numbers beyond the range of the type
      std::string m = r.pick(std::vector<std::string>{"1", "2.5", "9.", ".5", "1.8", "0.001", "100000"}) ; int e = r.range(320, 5000);
      d = std::string("fa = ") + (r.chance(1, 3) ? "-" : "") + m + r.pick(std::vector<std::string>{"e", "E", "e+"}) + std::to_string(e) + r.pick(std::vector<std::string>{"", "*0.5", " - 1", "/vx"}) + ";"; expect = 0; break; }
    case 11: { int e = r.range(-290, 300); std::string m = r.pick(std::vector<std::string>{"1", "2.5", "9.", ".5", "1.75"}) + (r.chance(1, 2) ? "e" : "E") + (e >= 0 && r.chance(1, 2) ? "+" : "") + std::to_string(e);
      d = "fa = " + m + ";"; expect = 1; want = strtod(m.c_str(), 0); haveWant = true; break; }
    default: { d = r.pick(std::vector<std::string>{"fa = 1", "fa = 1 +", "K k {", "K", "fa", "fa = (1", "'", "\"abc", "fa = '1;", "int", "int a = 1,", "fa = sin(", "fa = sin(1", "fa = 1; fb", "fa = a:"}); expect = d == "K k {" ? 1 : 0; }
  }
  c.desc << vh::jesc(d.substr(0, 200)) << " (" << d.size() << " bytes)"; c.crumb(c.desc.str());
  Outcome o = read(d);
  judge(c, d, o);
  if (expect == 1) { c.check(o.how == 0, "size-refused", [&](std::ostream &s) { s << "refused: " << o.how << " " << o.what; }); if (haveWant && o.how == 0) c.check(o.f[0] == want, "size-value", [&](std::ostream &s) { s << "fa = " << o.f[0] << ", expected " << want; }); }
  if (haveText && o.how == 0) c.check(o.s == text && o.f[0] == want, "text-changed", [&](std::ostream &s) { s << "text is " << vh::jesc(o.s.substr(0, 200)) << " (" << o.s.size() << " bytes), given with " << text.size() << " bytes"; });
  if (expect == 0) c.check(o.how != 0, "no-value-accepted", [&](std::ostream &s) { s << "accepted, ia = " << o.i << " fa = " << o.f[0]; });
  c.count(expect == 1 ? "size:works" : expect == 0 ? "size:refused" : "size:either");
}
// a good file read after a bad one is not affected by it
static void afterFailure(vh::Case &c) {
  vh::Rng &r = c.rng;
  std::vector<std::string> g = seedDeck(r);
  std::string good = join(r, g);
  Outcome a = read(good);
  std::vector<std::string> b = seedDeck(r);
  mutateTokens(r, b, 4);
  std::string bad = join(r, b);
  if (r.chance(1, 2)) bad.resize(r.next() % (bad.size() + 1));
  c.desc << good << " | " << bad; c.crumb(c.desc.str());
  Outcome x = read(bad);
  judge(c, bad, x);
  Outcome z = read(good);
  c.check(a.same(z), "affected-by-earlier-file", [&](std::ostream &s) { s << a.how << a.what << " became " << z.how << z.what << " after reading another file"; });
  c.count(x.how ? "before:failed" : "before:worked");
}

int main(int argc, char **argv) {
  vh::Harness h(argc, argv);
  h.section("tokens", 6000, 120000, tokenCase);
  h.section("bytes", 5000, 120000, byteCase);
  h.section("sizes", 700, 7000, sizeCase);
  h.section("after-failure", 400, 8000, afterFailure);
  for (const char *k : {"outcome:accepted", "outcome:P", "outcome:E", "syntax:good", "syntax:bad", "sentinel:seen", "repeated", "size:works", "size:refused", "before:failed", "text:plain"}) h.require(k, 20);
  return h.finish();
}
