// C04: arrays behave element by element like their element type, whatever expression they are combined in.
#ifndef C04_HPP
#define C04_HPP
#include "common.hpp"
#include "grid/array.hpp"
#include "grid/arrayexpression.hpp"
using namespace schnek;
template<size_t n> using NoChk = ArrayNoArgCheck<n>;
template<size_t n> using AsChk = ArrayAssertArgCheck<n>;

template<class X, class Y> bool close(X x, Y y) {
  if constexpr (std::is_integral<X>::value && std::is_integral<Y>::value) return x == y;
  else {
    long double a = x, b = y, eps = (sizeof(X) == 4 || sizeof(Y) == 4) ? 1e-5L : 1e-12L;
    if (a == b) return true;
    return std::fabs(a - b) <= eps * std::max<long double>(1, std::max(std::fabs(a), std::fabs(b)));
  }
}

void cmp(vh::Case &k, const char *key, const char *name, size_t i, long double got, long double want, int precision);
void cmpRel(vh::Case &k, const char *key, const char *name, size_t i, long double got, long double want, int precision);
template<class X> constexpr int prec() { return std::is_integral<X>::value ? 0 : sizeof(X) == 4 ? 1 : 2; }

template<class T, class U, size_t L> struct Env {
  Array<T, L, NoChk> a, c;
  Array<T, L, AsChk> b;
  Array<U, L, NoChk> p;
  Array<U, L, AsChk> q;
  T s; U u;
  T va[L], vb[L], vc[L]; U vp[L], vq[L];
  template<class X> static X val(vh::Rng &r) {
    int k = r.range(1, 9) * (r.chance(1, 2) ? 1 : -1);
    X v = X(k);
    if (!std::is_integral<X>::value && r.chance(1, 2)) v += X(r.range(1, 7)) / X(8);
    if (v == X(0)) v = X(1);
    return v;
  }
  Env(vh::Case &k) {
    for (size_t i = 0; i < L; ++i) {
      a[i] = va[i] = val<T>(k.rng); b[i] = vb[i] = val<T>(k.rng); c[i] = vc[i] = val<T>(k.rng);
      p[i] = vp[i] = val<U>(k.rng); q[i] = vq[i] = val<U>(k.rng);
    }
    s = val<T>(k.rng); u = val<U>(k.rng);
    k.desc << typeid(T).name() << "/" << typeid(U).name() << "x" << L << " a=";
    for (size_t i = 0; i < L; ++i) k.desc << va[i] << ",";
    k.desc << " b="; for (size_t i = 0; i < L; ++i) k.desc << vb[i] << ",";
    k.desc << " p="; for (size_t i = 0; i < L; ++i) k.desc << vp[i] << ",";
    k.desc << " s=" << s << " u=" << u;
  }
  bool pristine() const {
    for (size_t i = 0; i < L; ++i) if (a[i] != va[i] || b[i] != vb[i] || c[i] != vc[i] || p[i] != vp[i] || q[i] != vq[i]) return false;
    return true;
  }
};

// f is applied to the arrays and, as the oracle, to the single elements
template<class T, class U, size_t L, class F> void expr(vh::Case &k, const char *name, Env<T, U, L> &e, F f) {
  auto ex = f(e.a, e.b, e.c, e.p, e.q, e.s, e.u);
  typedef decltype(f(e.va[0], e.vb[0], e.vc[0], e.vp[0], e.vq[0], e.s, e.u)) W;
  W want[L];
  for (size_t i = 0; i < L; ++i) want[i] = f(e.va[i], e.vb[i], e.vc[i], e.vp[i], e.vq[i], e.s, e.u);
  constexpr int pw = prec<W>(), pt = pw == 1 ? 1 : prec<T>();
  for (size_t i = 0; i < L; ++i) cmp(k, "expression", name, i, ex[i], want[i], pw);
  k.ok(e.pristine(), "operands-unchanged", name);
  // converted to an array, by construction and by assignment
  Array<W, L> w(ex), w2; w2 = ex;
  for (size_t i = 0; i < L; ++i) { cmp(k, "construct-from-expression", name, i, w[i], want[i], pw); cmp(k, "assign-expression", name, i, w2[i], want[i], pw); }
  // the assigned array may be an operand itself
#define COMPOUND(sym, key) { Env<T, U, L> x(e); x.a sym f(x.a, x.b, x.c, x.p, x.q, x.s, x.u); \
    for (size_t i = 0; i < L; ++i) { T t = e.va[i]; t sym want[i]; cmp(k, key, name, i, x.a[i], t, pt); } }
  switch ((k.index / 4) % 5) {
    case 0: COMPOUND(=, "aliased-assignment") break;
    case 1: COMPOUND(+=, "plus-assign-expression") break;
    case 2: COMPOUND(-=, "minus-assign-expression") break;
    case 3: COMPOUND(*=, "times-assign-expression") break;
    default: { bool nz = true; for (size_t i = 0; i < L; ++i) if (want[i] == W(0)) nz = false;
      if (nz) COMPOUND(/=, "divide-assign-expression") }
  }
#undef COMPOUND
  k.count(std::string("expr:") + name);
}
#define EX(code) expr<T, U, L>(k, #code, e, [](const auto &a, const auto &b, const auto &c, const auto &p, const auto &q, const auto &s, const auto &u) { (void)a; (void)b; (void)c; (void)p; (void)q; (void)s; (void)u; return code; });

template<class T, class U, size_t L> void exprSame(vh::Case &k) {
  Env<T, U, L> e(k);
  switch (k.index % 4) {
    case 0: EX(a+b) EX(a-b) EX(a*b) EX(a/b) EX(-a) EX(+b) EX(a+s) EX(a-s) EX(a*s) EX(a/s) break;
    case 1: EX(s+a) EX(s-a) EX(s*a) EX(s/a) EX(a-b-c) EX(a-(b-c)) EX(a/b/c) EX(b-a*c) EX((a+b)*(b-c)) EX((a-b)-(c-a)) break;
    case 2: EX(a*b/c) EX(s-(a+b)) EX((a*b)-s) EX(s/(a*b)) EX((a*b)/s) EX(-(a-b)) EX(-(a+b)*c) EX(+(a-b)) EX((a*b)/(b*c)) EX(a/(b*c)) break;
    default: EX((a+b)+s) EX(s+(a-b)) EX(s*(a-b)) EX((a-b)*s) EX(a+a*a-a) EX(-(-a)) EX((s-a)-(a-s)) EX((a+b)-c) EX((a*b)/c) EX(a-(-b)) break;
  }
}
template<class T, class U, size_t L> void exprMixed(vh::Case &k) {
  Env<T, U, L> e(k);
  switch (k.index % 2) {
    case 0: EX((a+b)*p) EX(p-(a+b)) EX((a-b)-p) EX((a*b)/(p*q)) EX((p-q)*(a-b)) EX((a*b)/u) EX(u/(a*b)) break;
    default: EX((a*b)/p) EX(p/(a*b)) EX((a+b)+(p+q)) EX((p+q)-a) EX(u-(a-b)) EX((a-b)*u) EX(u+(-a)) break;
  }
}

// an expression may be kept and evaluated after the statement that made it, scalars need not outlive it
template<class T> volatile T *scribble() { static volatile T sink; volatile T a[96]; for (int i = 0; i < 96; ++i) a[i] = T(100 + i % 20); sink = a[5]; return &sink; }
#define KEPT(code) { auto make = [](const auto &a, const auto &b, auto s) __attribute__((noinline)) { (void)b; return code; }; \
    auto ex = make(e.a, e.b, e.s); scribble<T>(); Array<T, L> x; x = ex; \
    for (size_t i = 0; i < L; ++i) { cmp(k, "kept-expression", #code, i, x[i], T(make(e.va[i], e.vb[i], e.s)), prec<T>()); } }
template<class T, class U, size_t L> void keptCase(vh::Case &k) {
  Env<T, U, L> e(k);
  KEPT(a+s) KEPT(s-a) KEPT(a*s+b) KEPT((a-b)*s) KEPT(s/(a*a)) KEPT(s*(a-b)+a) KEPT((s+a)-(b-s)) KEPT(-(a*s)) KEPT((a-b)-s)
  k.count("kept");
}
template<class T, class U, size_t L> void direct(vh::Case &k) {
  Env<T, U, L> e(k);
  vh::Rng &r = k.rng;
  auto show = [&](const char *w, size_t i) { return [=](std::ostream &o) { o << w << " element " << i; }; };
#define OP(sym, name) \
  { auto x = e.a; x sym e.b; for (size_t i = 0; i < L; ++i) { T t = e.va[i]; t sym e.vb[i]; cmp(k, name "-array", "", i, x[i], t, prec<T>()); } } \
  { auto x = e.b; x sym e.p; for (size_t i = 0; i < L; ++i) { T t = e.vb[i]; t sym e.vp[i]; cmp(k, name "-array-mixed", "", i, x[i], t, prec<T>()); } } \
  { auto x = e.a; x sym x; for (size_t i = 0; i < L; ++i) { T t = e.va[i]; t sym e.va[i]; cmp(k, name "-self", "", i, x[i], t, prec<T>()); } } \
  { auto x = e.a; x sym e.s; for (size_t i = 0; i < L; ++i) { T t = e.va[i]; t sym e.s; cmp(k, name "-scalar", "", i, x[i], t, prec<T>()); } } \
  { auto x = e.a; x sym e.u; for (size_t i = 0; i < L; ++i) { T t = e.va[i]; t sym e.u; cmp(k, name "-scalar-mixed", "", i, x[i], t, prec<T>()); } } \
  { auto x = e.a; size_t j = r.range(0, int(L) - 1); x sym x[j]; for (size_t i = 0; i < L; ++i) { T t = e.va[i]; t sym e.va[j]; cmp(k, name "-own-element", "", i, x[i], t, prec<T>()); } }
  OP(+=, "plus-assign") OP(-=, "minus-assign") OP(*=, "times-assign") OP(/=, "divide-assign")
#undef OP
  { // assignment converts, copies are independent
    Array<T, L> x; x = e.p; Array<U, L> y; y = e.a; Array<T, L> z(e.b); Array<T, L> w(z); w = w;
    for (size_t i = 0; i < L; ++i) k.check(x[i] == T(e.vp[i]) && y[i] == U(e.va[i]) && z[i] == e.vb[i] && w[i] == e.vb[i], "assign", show("assignment", i));
    w[r.range(0, int(L) - 1)] = T(77);
    for (size_t i = 0; i < L; ++i) k.check(z[i] == e.vb[i], "copy-independent", show("copy", i));
  }
  { T pr = T(1), su = T(0), sq = T(0);
    bool fits = true; long double lp = 1;
    Array<T, L> x;
    for (size_t i = 0; i < L; ++i) { T v = T(r.range(-3, 3)); x[i] = v; lp *= v; pr = T(lp); su += v; sq += v * v; }
    if (fits) k.check(close(x.product(), pr), "product", [&](std::ostream &o) { o << x.product() << ", expected " << pr; });
    k.check(close(x.sum(), su), "sum", [&](std::ostream &o) { o << x.sum() << ", expected " << su; });
    k.check(close(x.sqr(), sq), "sqr", [&](std::ostream &o) { o << x.sqr() << ", expected " << sq; }); }
  { Array<T, L> x(e.a), y(e.a), f1(e.s);
    auto &rx = x.clear(); auto &ry = y.fill(e.s);
    auto z = Array<T, L>::Zero(), o1 = Array<T, L>::Ones();
    for (size_t i = 0; i < L; ++i) k.check(x[i] == T(0) && y[i] == e.s && f1[i] == e.s && z[i] == T(0) && o1[i] == T(1), "fill", show("clear/fill/Zero/Ones/one-value constructor", i));
    k.ok(&rx == &x && &ry == &y, "fill-returns-self", ""); }
  if constexpr (L > 1) {
    size_t d = r.range(0, int(L) - 1);
    auto pd = e.a.projectDim(d);
    for (size_t i = 0, j = 0; i < L; ++i) if (i != d) { k.check(pd[j] == e.va[i], "projectDim", show("projectDim", j)); ++j; }
    auto pp = e.b.template project<L - 1>();
    for (size_t i = 0; i + 1 < L; ++i) k.check(pp[i] == e.vb[i], "project", show("project", i));
    auto p1 = e.b.template project<1>();
    k.check(p1[0] == e.vb[0], "project", show("project<1>", 0));
  }
  { auto full = e.a.template project<L>(); for (size_t i = 0; i < L; ++i) k.check(full[i] == e.va[i], "project", show("project<length>", i)); }
  { const auto &ca = e.a; for (size_t i = 0; i < L; ++i) { e.a.at(i) = e.a[i]; k.check(ca.at(i) == e.va[i] && ca[i] == e.va[i] && e.a.at(i) == e.va[i] && &e.a.at(i) == &e.a[i], "access", show("access", i)); }
    for (size_t i = 1; i < L; ++i) k.check(&e.a[i] == &e.a[0] + i, "contiguous", show("address", i)); }
  k.ok(e.pristine(), "operands-unchanged", "");
}

template<class T, class U, size_t L> void compareCase(vh::Case &k) {
  vh::Rng &r = k.rng;
  Array<T, L, NoChk> x; Array<U, L, AsChk> y;
  bool eq = true, lt = true, le = true;
  int style = r.range(0, 4);
  size_t odd = r.range(0, int(L) - 1);
  k.desc << "compare L=" << L;
  for (size_t i = 0; i < L; ++i) {
    int v = r.range(-4, 4), w;
    switch (style) { case 0: w = v; break; case 1: w = v + r.range(0, 1); break; case 2: w = v + 1; break;
      case 3: w = i == odd ? v + r.range(-1, 1) : v + r.range(0, 1) * (odd % 2); break; default: w = v + r.range(-1, 1) * (i == odd) + 1 * (i != odd && odd % 2); }
    x[i] = T(v); y[i] = U(w); k.desc << " " << v << ":" << w;
    eq = eq && v == w; lt = lt && v < w; le = le && v <= w;
  }
  k.count(eq ? "cmp:eq" : "cmp:ne"); k.count(lt ? "cmp:lt" : "cmp:notlt"); k.count(le ? "cmp:le" : "cmp:notle");
  k.ok((x == y) == eq, "equal"); k.ok((x != y) == !eq, "not-equal"); k.ok((x < y) == lt, "less"); k.ok((x <= y) == le, "less-equal");
}

// values of the magnitude their type allows, where narrower intermediate types would show
template<class T> T wide(vh::Rng &r, bool factor) {
  // factors are kept small enough for one product (or a sum of squares) to fit
  if constexpr (!std::is_integral<T>::value) {
    double e = sizeof(T) == 4 ? 15 : 120;
    T v = T(std::ldexp(r.real(0.5, 1.0), int(r.real(-e, e)))) * (r.chance(1, 2) ? 1 : -1);
    return v;
  } else {
    int bits = int(sizeof(T) * 8 - 2) / (factor ? 2 : 1) - (factor ? 4 : 7);
    long lim = 1L << (r.chance(2, 3) ? bits : r.range(1, bits));
    long v = lim - 1 - long(r.next() % (unsigned long)(lim / 2 + 1));
    if (v == 0) v = 1;
    return T(r.chance(1, 2) ? v : -v);
  }
}
template<class T, size_t L> void wideCase(vh::Case &k) {
  vh::Rng &r = k.rng;
  Array<T, L> a, b, f, g;
  T va[L], vb[L], vf[L], vg[L];
  for (size_t i = 0; i < L; ++i) {
    a[i] = va[i] = wide<T>(r, false); b[i] = vb[i] = wide<T>(r, false);
    f[i] = vf[i] = wide<T>(r, true); g[i] = vg[i] = wide<T>(r, true);
  }
  T s = wide<T>(r, true);
  k.desc << "wide " << typeid(T).name() << "x" << L << " a=";
  for (size_t i = 0; i < L; ++i) k.desc << va[i] << ",";
  k.desc << " f="; for (size_t i = 0; i < L; ++i) k.desc << vf[i] << ",";
#define WIDE(code, one) { Array<T, L> x; x = code; for (size_t i = 0; i < L; ++i) cmpRel(k, "wide-expression", #code, i, x[i], T(one), prec<T>()); }
  WIDE(a + b, va[i] + vb[i]) WIDE(a - b, va[i] - vb[i]) WIDE(f * g, vf[i] * vg[i]) WIDE(a / g, va[i] / vg[i]) WIDE(-a, -va[i])
  WIDE(a + s, va[i] + s) WIDE(s - a, s - va[i]) WIDE(f * s, vf[i] * s) WIDE(s * f, s * vf[i]) WIDE(a / s, va[i] / s) WIDE(s / g, s / vg[i])
#undef WIDE
#define WIDEOP(sym, x0, v0, y, vy) { Array<T, L> x(x0); x sym y; for (size_t i = 0; i < L; ++i) { T t = v0[i]; t sym vy; cmpRel(k, "wide-assign", #x0 #sym #y, i, x[i], t, prec<T>()); } }
  WIDEOP(+=, a, va, b, vb[i]) WIDEOP(-=, a, va, b, vb[i]) WIDEOP(*=, f, vf, g, vg[i]) WIDEOP(/=, a, va, g, vg[i])
  WIDEOP(+=, a, va, s, s) WIDEOP(-=, a, va, s, s) WIDEOP(*=, f, vf, s, s) WIDEOP(/=, a, va, s, s)
#undef WIDEOP
  { Array<T, L> x(a), y; y = a; Array<T, L> z(s); z.fill(va[0]);
    for (size_t i = 0; i < L; ++i) k.ok(x[i] == va[i] && y[i] == va[i] && z[i] == va[0], "wide-copy", "copies of large values"); }
  { T su = 0, sq = 0; long double asu = 0; for (size_t i = 0; i < L; ++i) { su += va[i]; asu += std::fabs((long double)va[i]); sq += vf[i] * vf[i]; }
    if constexpr (std::is_integral<T>::value) k.check(a.sum() == su, "wide-sum", [&](std::ostream &o) { o << a.sum() << ", expected " << su; });
    else k.check(std::fabs((long double)a.sum() - su) <= (sizeof(T) == 4 ? 1e-5L : 1e-13L) * asu, "wide-sum", [&](std::ostream &o) { o << a.sum() << ", expected " << su; });
    cmpRel(k, "wide-sqr", "sqr", 0, f.sqr(), sq, prec<T>()); }
  { Array<T, L> x(T(1)); size_t i = r.range(0, int(L) - 1), j = r.range(0, int(L) - 1); x[i] = vf[0]; T want = vf[0]; if (j != i) { x[j] = vg[0]; want = T(want * vg[0]); }
    cmpRel(k, "wide-product", "product", 0, x.product(), want, prec<T>()); }
  { // nearest neighbours are told apart
    Array<T, L> x(a), y(a); size_t j = r.range(0, int(L) - 1);
    if constexpr (std::is_integral<T>::value) y[j] = T(y[j] + 1); else y[j] = std::nextafter(va[j], std::numeric_limits<T>::infinity());
    k.ok(x == a && !(x != a) && x <= a && !(x < a), "wide-equal", "an array equals its copy");
    k.ok(x != y && !(x == y) && x <= y && !(y <= x) && !(y < x) && (x < y) == (L == 1), "wide-neighbour", "arrays that differ by the least amount in one element");
    for (size_t i = 0; i < L; ++i) if (i != j) { if constexpr (std::is_integral<T>::value) y[i] = T(y[i] + 1); else y[i] = std::nextafter(va[i], std::numeric_limits<T>::infinity()); }
    k.ok(x < y && !(y < x), "wide-neighbour", "arrays that differ by the least amount in every element"); }
  k.count("wide");
}
// real valued arrays with elements that are infinite or not a number
template<class T, size_t L> void unorderedCase(vh::Case &k) {
  vh::Rng &r = k.rng;
  const T nan = std::numeric_limits<T>::quiet_NaN(), inf = std::numeric_limits<T>::infinity();
  Array<T, L> x, y;
  bool eq = true, lt = true, le = true, special = false;
  k.desc << "unordered L=" << L;
  int style = r.range(0, 2);
  for (size_t i = 0; i < L; ++i) {
    T v = T(r.range(-3, 3)), w = style == 0 ? v : T(v + r.range(style == 1 ? 1 : 0, 2));
    switch (r.range(0, int(L) + 6)) { case 0: v = nan; special = true; break; case 1: w = nan; special = true; break; case 2: v = w = nan; special = true; break; case 3: w = inf; break; case 4: v = -inf; break; case 5: v = w = inf; break; }
    x[i] = v; y[i] = w; k.desc << " " << v << ":" << w;
    eq = eq && v == w; lt = lt && v < w; le = le && v <= w;
  }
  if (special) k.count("cmp:nan");
  k.ok((x == y) == eq, "unordered-equal"); k.ok((x != y) == !eq, "unordered-not-equal"); k.ok((x < y) == lt, "unordered-less"); k.ok((x <= y) == le, "unordered-less-equal");
}

template<class T, size_t L, size_t... I> Array<T, L> ctorN(const T *v, std::index_sequence<I...>) { return Array<T, L>(v[I]...); }
template<class T, size_t L> void ctorCase(vh::Case &k) {
  T v[L];
  k.desc << "ctor L=" << L;
  for (size_t i = 0; i < L; ++i) { v[i] = T(k.rng.range(-1000, 1000)); k.desc << " " << v[i]; }
  Array<T, L> x = ctorN<T, L>(v, std::make_index_sequence<L>());
  for (size_t i = 0; i < L; ++i) k.check(x[i] == v[i], "constructor", [&](std::ostream &o) { o << "element " << i << " of " << L << " is " << x[i] << ", expected " << v[i]; });
}
// the asserting policy stops the process on any index outside the array and on no other
template<size_t L> void assertCase(vh::Case &k) {
  long i = k.rng.chance(1, 2) ? k.rng.range(0, int(L) - 1) : k.rng.chance(1, 2) ? long(L) + k.rng.range(0, 3) : -long(k.rng.range(1, 5));
  bool viaAt = k.rng.chance(1, 2), constant = k.rng.chance(1, 2);
  k.desc << "assert L=" << L << " i=" << i << (viaAt ? " at" : " []") << (constant ? " const" : "");
  vh::ChildResult cr = vh::inChild([&]() {
    Array<int, L, ArrayAssertArgCheck> x(3);
    const auto &cx = x;
    volatile int z = constant ? (viaAt ? cx.at(size_t(i)) : cx[size_t(i)]) : (viaAt ? x.at(size_t(i)) : x[size_t(i)]);
    return z == 3 ? 0 : 5;
  });
  bool in = i >= 0 && i < long(L);
  k.count(in ? "assert:in" : "assert:out");
  if (in) k.ok(cr.exited && cr.code == 0, "assert-policy-in-range", "an index inside the array must be accepted");
  else k.ok(!cr.exited && cr.sig == SIGABRT, "assert-policy-out-of-range", "an index outside the array must stop the program");
}
#define C04_PAIR(T, U, L, n) \
  h.section("same-" #T "-" #U "-" #L, n, n * 20, exprSame<T, U, L>); \
  h.section("mixed-" #T "-" #U "-" #L, n, n * 20, exprMixed<T, U, L>); \
  h.section("kept-" #T "-" #U "-" #L, n, n * 10, keptCase<T, U, L>); \
  h.section("direct-" #T "-" #U "-" #L, n, n * 20, direct<T, U, L>); \
  h.section("compare-" #T "-" #U "-" #L, n * 2, n * 20, compareCase<T, U, L>);
#endif
