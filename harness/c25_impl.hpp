#include "c25.hpp"
template<size_t R> bool same(double v, double w) { return std::fabs(v - w) <= 1e-9 * (1 + std::fabs(w)); }

template<size_t R> void compare(vh::Case &c, Sim<R> &s, const Ref<R> &ref, const std::string &when) {
  Box<R> in = vm::boxOf<R>(s.sub->getInnerDomain());
  each<R>(in, [&](const long *q) {
    double a = s.A[arr<R>(q)], b = s.B[arr<R>(q)], wa = ref.A[ref.at(q)], wb = ref.B[ref.at(q)];
    c.check(same<R>(a, wa) && same<R>(b, wb), "result", [&](std::ostream &o) { o << when << " process " << vm::rank() << " " << in.str() << " at " << pos<R>(q) << ": A=" << a << " (" << wa << ") B=" << b << " (" << wb << ")"; });
  });
}

// each particle is exactly once where it belongs
// the ghost cells of B hold the value of the cell they image on the periodic domain
template<size_t R> void compareGhosts(vh::Case &c, Sim<R> &s, const Ref<R> &ref, const std::string &when) {
  Box<R> all = vm::boxOf<R>(s.sub->getDomain());
  each<R>(all, [&](const long *q) {
    double b = s.B[arr<R>(q)], w = ref.B[ref.at(q)];
    c.check(same<R>(b, w), "accumulated-ghost", [&](std::ostream &o) { o << when << " process " << vm::rank() << " " << all.str() << " at " << pos<R>(q) << ": B=" << b << " (" << w << ")"; });
  });
}
template<size_t R> void compareParticles(vh::Case &c, Sim<R> &s, const Ref<R> &ref, const std::string &when) {
  Box<R> in = vm::boxOf<R>(s.sub->getInnerDomain());
  std::map<int, const Part<R> *> want;
  for (auto &t : ref.parts) { bool mine = true; for (size_t d = 0; d < R; ++d) { long q = cellOf(t.x[d]); mine = mine && q >= in.lo[d] && q <= in.hi[d]; } if (mine) want[t.id] = &t; }
  c.check(want.size() == s.parts.size(), "particle-count", [&](std::ostream &o) { o << when << " process " << vm::rank() << " " << in.str() << " holds " << s.parts.size() << " particles instead of " << want.size(); });
  for (auto &t : s.parts) {
    auto w = want.find(t.id);
    bool ok = w != want.end() && t.q == w->second->q;
    for (size_t d = 0; ok && d < R; ++d) ok = t.x[d] == w->second->x[d] && t.v[d] == w->second->v[d];
    c.check(ok, "particle", [&](std::ostream &o) { o << when << " process " << vm::rank() << " " << in.str() << ": particle " << t.id; });
    if (w != want.end()) want.erase(w);
  }
  c.count("particles", ref.parts.size());
}
template<size_t R> void takeParticles(Sim<R> &s, const Ref<R> &ref) {
  Box<R> in = vm::boxOf<R>(s.sub->getInnerDomain());
  s.parts.clear();
  for (auto &t : ref.parts) { bool mine = true; for (size_t d = 0; d < R; ++d) { long q = cellOf(t.x[d]); mine = mine && q >= in.lo[d] && q <= in.hi[d]; } if (mine) s.parts.push_back(t); }
}

template<size_t R> pBlock start(const std::string &deck) {
  outputs.clear(); inputs.clear(); Live<R>::sim = nullptr;
  BlockClasses bc; FunctionRegistry fr; registerAllFunctions(fr);
  VariableStorage vars("sim", "Sim");
  bc.registerBlock("Sim").setClass<Sim<R>>();
  bc.registerBlock("Out").template setClass<Out<R, IntervalDiagnostic>>(); bc.registerBlock("OutTime").template setClass<Out<R, DeltaTimeDiagnostic>>(); bc.registerBlock("In").template setClass<In<R>>();
  bc("Sim").addChildren("Out")("OutTime")("In");
  Parser p(vars, fr, bc);
  std::istringstream in(deck);
  pBlock b = p.parse(in, "setup");
  b->initAll();
  return b;
}

template<size_t R> void whole(vh::Case &c) {
  vh::Rng &r = c.rng;
  const int np = vm::size(), me = vm::rank();
  static const char *ax[] = {"x", "y", "z"};
  Plan<R> &p = Now<R>::plan;
  p = Plan<R>();
  p.ghost = r.range(1, R == 3 ? 2 : 3);
  bool zero = r.chance(1, 2);
  for (size_t d = 0; d < R; ++d) {
    // room for pieces that are at least twice as wide as the ghost cells
    p.n[d] = np * 2 * p.ghost + 2 + r.range(0, R == 1 ? 60 : R == 2 ? 8 : 3);
    if (R == 3 && np > 4) p.n[d] = std::max<long>(p.n[d], 1);
    p.lo[d] = zero ? 0 : r.range(-20, 20);
    p.L[d] = r.range(5, 200) / 20.0; p.L0[d] = r.range(-40, 40) / 10.0;
    p.stA[d] = r.chance(1, 2); p.stB[d] = r.chance(1, 2);
  }
  p.serial = np == 1 && r.chance(1, 2);
  p.early = r.chance(1, 2); p.filler = r.chance(1, 2);
  double k = r.range(-10, 10) / 10.0 + 0.05; int mAxis = r.range(0, int(R) - 1);
  p.c1 = r.range(1, 8) / 10.0; p.c2 = k * 0.5;
  Poly<R> pa = Poly<R>::draw(r, true), pb = Poly<R>::draw(r, true);
  char num[64];
  std::ostringstream deck;
  auto n2 = [&](double v) { snprintf(num, sizeof num, "%.3f", std::fabs(v)); return std::string(v < 0 ? "-" : "") + num; };
  deck << "float k = " << n2(k) << ";\n";
  deck << "float m = " << ax[mAxis] << "*k + 1.0;\n";
  for (size_t d = 0; d < R; ++d) { deck << "N" << ax[d] << " = " << p.n[d] << ";\n"; deck << "L" << ax[d] << " = " << n2(p.L[d]) << ";\n"; }
  deck << "c1 = " << n2(p.c1) << "; c2 = k/2.0;\n";
  deck << "A0 = " << pa.text() << ";\nB0 = " << pb.text() << ";\n";
  // output
  struct O { bool field, time, append; int every; double dt; std::string file; int n = 0; double next = 0; std::vector<std::pair<std::string, std::pair<std::string, std::vector<double>>>> want; };
  std::vector<O> outs(r.range(1, 2));
  std::string base = "s" + std::to_string(c.index) + "_";
  for (size_t i = 0; i < outs.size(); ++i) {
    O &o = outs[i];
    o.field = r.chance(1, 2); o.time = r.chance(1, 2); o.append = r.chance(1, 3); o.every = r.range(1, 3); o.dt = r.range(1, 4) / 2.0;
    o.file = base + std::to_string(i) + (o.append ? ".h5" : "_#t.h5");
    deck << (o.time ? "OutTime" : "Out") << " o" << i << " { file = \"" << o.file << "\"; field = \"" << (o.field ? "A" : "B") << "\"; append = " << int(o.append) << "; ";
    if (o.time) deck << "deltaTime = " << n2(o.dt) << "; }\n"; else deck << "interval = " << o.every << "; }\n";
  }
  int steps = r.range(2, 6); std::vector<int> rules(steps * 2);
  bool swarm = r.chance(1, 4);
  for (int &q : rules) q = swarm && r.chance(3, 4) ? 5 : r.range(0, 5);
  c.desc << np << (p.serial ? " process (serial)" : " processes") << " rank " << R << " " << p.glob().str() << " ghost " << p.ghost << " rules";
  for (int s = 0; s < steps; ++s) c.desc << " " << rules[s];
  c.desc << (p.early ? " early" : "") << (p.filler ? " filler" : "") << " " << deck.str();
  c.crumb(c.desc.str());

  DiagnosticManager &dm = DiagnosticManager::instance();
  int step = 0; double time = 0;
  dm.setMaster(me == 0); dm.setRank(me); dm.setTimeCounter(&step); dm.setPhysicalTime(&time);
  pBlock root = start<R>(deck.str());
  Sim<R> *sim = Live<R>::sim;
  if (!c.ok(sim && outputs.size() == outs.size() && sim->filled == 1, "set-up", "blocks of the setup file")) return;
  Ref<R> ref(p);
  each<R>(ref.g, [&](const long *q) {
    double xa[R], xb[R];
    for (size_t d = 0; d < R; ++d) { double dx = p.L[d] / p.n[d]; xa[d] = p.L0[d] + dx * (q[d] - p.lo[d] + (p.stA[d] ? 0.5 : 0)); xb[d] = p.L0[d] + dx * (q[d] - p.lo[d] + (p.stB[d] ? 0.5 : 0)); }
    ref.A[ref.at(q)] = pa.at(xa, k, xa[mAxis] * k + 1); ref.B[ref.at(q)] = pb.at(xb, k, xb[mAxis] * k + 1);
  });
  compare<R>(c, *sim, ref, "initially");
  int np_ = swarm ? r.range(50, 300) : r.chance(1, 4) ? r.range(0, 3) : r.range(5, 60);
  bool bunch = r.chance(1, 2); long cx[R], cv[R];
  for (size_t d = 0; d < R; ++d) { cx[d] = r.range(0, int(p.n[d]) - 1); cv[d] = r.range(-4, 4) * p.ghost; }
  for (int i = 0; i < np_; ++i) {
    Part<R> t; t.id = i + 1; t.q = r.range(1, 30) / 10.0;
    for (size_t d = 0; d < R; ++d) { t.x[d] = 8 * p.lo[d] + 2 * r.range(0, int(4 * p.n[d]) - 1) + 1; t.v[d] = 2 * r.range(-4 * p.ghost, 4 * p.ghost); if (bunch) { t.x[d] = 8 * (p.lo[d] + cx[d]) + 2 * r.range(0, 3) + 1; t.v[d] = 2 * cv[d]; } }
    ref.parts.push_back(t);
  }
  takeParticles<R>(*sim, ref);
  std::vector<std::string> files;
  auto due = [&]() {
    for (auto &o : outs) {
      bool now = o.time ? time >= o.next : step % o.every == 0;
      if (!now) continue;
      std::string f = o.append ? o.file : o.file.substr(0, o.file.find("#t")) + std::to_string(o.time ? o.n : step) + ".h5";
      std::string set = o.append && o.n ? "data" + std::to_string(o.n) : "data";
      o.want.push_back({f, {set, o.field ? ref.A : ref.B}});
      if (std::find(files.begin(), files.end(), f) == files.end()) files.push_back(f);
      ++o.n; o.next += o.dt;
    }
  };
  dm.execute(); due();
  for (int s = 0; s < steps && !vm::anyFailed(c); ++s) {
    if (r.range(0, 7) == me) usleep(200);
    c.crumb(c.desc.str() + " step " + std::to_string(s));
    simStep<R>(*sim, rules[s], s); refStep<R>(ref, rules[s], s);
    compare<R>(c, *sim, ref, "after step " + std::to_string(s) + " rule " + std::to_string(rules[s]));
    if (rules[s] == 2 || rules[s] == 5) compareGhosts<R>(c, *sim, ref, "after step " + std::to_string(s));
    if (rules[s] == 5) compareParticles<R>(c, *sim, ref, "after step " + std::to_string(s));
    ++step; time += 0.5;
    dm.execute(); due();
    c.count("rule:" + std::to_string(rules[s]));
  }
  for (size_t i = 0; i < outputs.size(); ++i) if (outs[i].append) outputs[i]->end();
  MPI_Barrier(MPI_COMM_WORLD);
  std::vector<long> dims(p.n, p.n + R);
  if (me == 0 && !c.failed)
    for (auto &o : outs) for (auto &w : o.want) {
      std::vector<double> v = readAll(c, w.first, w.second.first, dims);
      bool ok = v.size() == w.second.second.size();
      for (size_t i = 0; ok && i < v.size(); ++i) ok = same<R>(v[i], w.second.second[i]);
      c.check(ok, "output", [&](std::ostream &q) { q << w.first << " " << w.second.first << " does not hold the global field"; });
      c.count("outputs");
    }
  MPI_Barrier(MPI_COMM_WORLD);
  cleanUp();
  // restart from files written now, with other ghost cells
  if (r.chance(1, 2) && !vm::anyFailed(c)) {
    std::string fa = base + "ra.h5", fb = base + "rb.h5";
    {
      p.restart = true;      // a block tree that only writes what is in memory now
      std::string head = deck.str().substr(0, deck.str().find("A0 ="));
      Sim<R> *old = sim;
      pBlock w = start<R>(head + "Out wa { file = \"" + fa + "\"; field = \"A\"; }\nOut wb { file = \"" + fb + "\"; field = \"B\"; }\n");
      Sim<R> *cur = Live<R>::sim;
      Range<int, R> inner = cur->A.getInnerRange();
      for (auto &i : inner) { cur->A[i] = old->A[i]; cur->B[i] = old->B[i]; }
      step = 0; dm.execute();
      MPI_Barrier(MPI_COMM_WORLD);
      cleanUp();
      (void)w;
    }
    files.push_back(fa); files.push_back(fb);
    p.ghost = r.range(1, p.ghost); p.early = r.chance(1, 2);
    if (np == 1) p.serial = r.chance(1, 2);
    pBlock b2 = start<R>(deck.str().substr(0, deck.str().find("A0 =")) + "In ia { file = \"" + fa + "\"; field = \"A\"; }\nIn ib { file = \"" + fb + "\"; field = \"B\"; }\n");
    Sim<R> *s2 = Live<R>::sim;
    if (c.ok(s2 && s2 != sim && inputs.size() == 2, "restart-set-up", "")) {
      for (auto *i : inputs) i->run();
      compare<R>(c, *s2, ref, "after restart");
      takeParticles<R>(*s2, ref);
      for (int s = steps; s < 2 * steps && !vm::anyFailed(c); ++s) {
        c.crumb(c.desc.str() + " restarted, step " + std::to_string(s));
        simStep<R>(*s2, rules[s], s); refStep<R>(ref, rules[s], s);
        compare<R>(c, *s2, ref, "restarted, after step " + std::to_string(s) + " rule " + std::to_string(rules[s]));
        if (rules[s] == 2 || rules[s] == 5) compareGhosts<R>(c, *s2, ref, "restarted, after step " + std::to_string(s));
    if (rules[s] == 5) compareParticles<R>(c, *s2, ref, "restarted, after step " + std::to_string(s));
      }
      c.count("restarts");
    }
    (void)b2;
    cleanUp();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 0) for (auto &f : files) ::unlink(f.c_str());
  dm.setTimeCounter(nullptr); dm.setPhysicalTime(nullptr);
  c.count(p.serial ? "serial" : "mpi");
  (void)root;
}
