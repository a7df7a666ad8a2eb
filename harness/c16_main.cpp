// C16: diagnostics write exactly when they are due, to the file they are due in.
#include "common.hpp"
#include "variables.hpp"
#include "parser.hpp"
#include "functions.hpp"
#include "grid/grid.hpp"
#include "diagnostic/diagnostic.hpp"
#include "variables/function_expression.hpp"
#include "mpicommon.hpp"
#include "grid/mpisubdivision.hpp"
#include <dirent.h>
using namespace schnek;

struct Ev { char op; std::string file; };
static bool operator==(const Ev &a, const Ev &b) { return a.op == b.op && a.file == b.file; }
static std::string str(const std::vector<Ev> &v) { std::ostringstream o; for (size_t i = 0; i < v.size() && i < 12; ++i) o << v[i].op << "(" << v[i].file << ") "; if (v.size() > 12) o << "... " << v.size(); return o.str(); }
struct Rec { std::vector<Ev> log; bool single = false; int dead = 0; Block *block = nullptr; };
static std::vector<Rec *> recs;           // of the running case, in order of creation
static bool nextSingle = false;

template<class Base> class Recorder : public Base {
  public:
    Rec *rec;
    Recorder() : rec(new Rec) { rec->single = nextSingle; rec->block = this; recs.push_back(rec); }
    ~Recorder() { ++rec->dead; }
  protected:
    void open(const std::string &f) { rec->log.push_back(Ev{'o', f}); }
    void write() { rec->log.push_back(Ev{'w', ""}); }
    void close() { rec->log.push_back(Ev{'c', ""}); }
    bool singleOut() { return rec->single; }
};
class RI : public Recorder<IntervalDiagnostic> {};
class RD : public Recorder<DeltaTimeDiagnostic> {};
class App : public Block {};

struct Diag {     // the specification of one diagnostic
  bool interval, append, single; int every = 100; double dt = 1, next = 0; int count = 0; bool opened = false;
  std::string file; Rec *rec = nullptr; pBlock own; bool alive = true;
  std::vector<Ev> want;
};
static std::string subst(std::string s, const std::string &t, int rank) {
  size_t p = s.find("#p"); if (p != std::string::npos) s.replace(p, 2, std::to_string(rank));
  p = s.find("#t"); if (p != std::string::npos) s.replace(p, 2, t);
  return s;
}
struct Run { BlockClasses bc; VariableStorage vars; FunctionRegistry fr; Run(const std::string &cls) : vars("App", cls) {} };

static void model(Diag &d, bool master, int rank, int step, double time) {
  if (!d.alive) return;
  bool out = master || !d.single, due; std::string t;
  if (d.interval) { due = step < 0 || step % d.every == 0; t = step < 0 ? "final" : std::to_string(step); }
  else { due = time >= d.next; t = std::to_string(d.count); }
  if (out && d.append && !d.opened) { d.want.push_back(Ev{'o', d.file}); d.opened = true; }
  if (due && out) { if (!d.append) d.want.push_back(Ev{'o', subst(d.file, t, rank)}); d.want.push_back(Ev{'w', ""}); if (!d.append) d.want.push_back(Ev{'c', ""}); }
  if (due && !d.interval) { d.next += d.dt; ++d.count; }
}
static std::string num(double v) { std::ostringstream o; o.precision(17); o << v; std::string s = o.str(); if (s.find_first_of(".e") == std::string::npos && std::fabs(v) > 1e9) s += ".0"; return s; }

static int bigEvery(vh::Rng &r) { return r.chance(1, 2) ? r.range(1001, 200000) : r.pick(std::vector<int>{32767, 32768, 65535, 65536, 65537, 100000, 1000000, 16777217, 2000000000}); }
static void schedule(vh::Case &c) {
  vh::Rng &r = c.rng;
  recs.clear();
  static std::vector<std::vector<Diag>> graveyard;
  std::vector<Diag> ds;
  std::vector<std::unique_ptr<Run>> runs;
  bool haveI = false, haveD = false;
  int kinds = r.range(0, 3);                 // 0 both, 1 interval only, 2 delta only, 3 both
  int n = r.range(1, 5);
  const double unit = r.chance(1, 2) ? 1 : std::ldexp(1.0, r.range(-160, 100));    // the unit of time is up to the user
  static bool untouched = true; const bool fresh = untouched; untouched = false;    // nobody has set up the manager yet
  c.desc << "schedule";
  for (int k = 0; k < n; ++k) {
    Diag d;
    d.interval = kinds == 1 || (kinds != 2 && r.chance(1, 2)); d.append = r.chance(1, 3); d.single = r.chance(1, 3);
    d.file = r.pick(std::vector<std::string>{"a_#t.dat", "out#p_#t", "#t", "plain", "#p#t", "x#t.y#p", "# t_#x", "dir/#t_p#"}) + std::to_string(k);
    if (r.chance(1, 6)) d.file = std::string(r.range(20, 300), "xyz/"[r.range(0, 3)]) + d.file, c.count("file:long");
    if (fresh && k == 0) { d.file = "out#p_#t"; d.single = true; d.append = false; }
    std::string text = "file = \"" + d.file + "\";";
    if (d.append || r.chance(1, 4)) text += " append = " + std::to_string(d.append ? r.range(1, 3) : 0) + ";";
    if (d.interval) { haveI = true; if (r.chance(4, 5)) { d.every = r.chance(1, 4) ? 1 : r.chance(1, 5) ? bigEvery(r) : r.range(1, 12); if (d.every > 1000) c.count("interval:large"); text += " interval = " + std::to_string(d.every) + ";"; } }
    else {
      haveD = true;
      if (r.chance(4, 5)) { d.dt = unit * r.range(1, 80) / 32.0; text += " deltaTime = " + num(d.dt) + ";"; }
      if (r.chance(1, 2)) { d.next = unit * r.range(-40, 160) / 32.0; text += " delay = " + num(d.next) + ";"; }
    }
    c.desc << " " << (d.interval ? "I" : "D") << (d.single ? "s" : "") << "{" << text << "}";
    const char *cls = d.interval ? "I" : "D";
    runs.emplace_back(new Run(cls));
    Run &run = *runs.back();
    run.bc.registerBlock("I").setClass<RI>(); run.bc.registerBlock("D").setClass<RD>();
    nextSingle = d.single;
    size_t before = recs.size();
    Parser p(run.vars, run.fr, run.bc);
    std::istringstream is(text);
    try { d.own = p.parse(is, "deck"); }
    catch (ParserError &e) { c.fail("rejected", "valid parameters rejected: " + text + ": " + e.message); return; }
    d.own->initAll();
    if (!c.ok(recs.size() == before + 1, "instances", "")) return;
    d.rec = recs.back();
    if (d.interval) c.ok(dynamic_cast<IntervalDiagnostic *>(d.own.get())->getInterval() == d.every, "interval", "");
    else { c.ok(dynamic_cast<DeltaTimeDiagnostic *>(d.own.get())->getDeltaTime() == d.dt, "delta-time", ""); c.ok(dynamic_cast<DeltaTimeDiagnostic *>(d.own.get())->getNextOutput() == d.next, "delay", ""); }
    ds.push_back(d);
  }
  c.crumb(c.desc.str());
  DiagnosticManager &m = DiagnosticManager::instance();
  int step = 0; double time = 0;
  int times = r.range(0, 6);        // which times are given
  bool giveI = times != 1 && (times != 2 || haveI), giveD = times != 3 && (times != 4 || haveD);
  m.setTimeCounter(nullptr); m.setPhysicalTime(nullptr);
  if (r.chance(1, 2)) { if (giveI) m.setTimeCounter(&step); if (giveD) m.setPhysicalTime(&time); } else { if (giveD) m.setPhysicalTime(&time); if (giveI) m.setTimeCounter(&step); }
  // a manager that lacks a time a diagnostic depends on says so
  if ((haveI && !giveI) || (haveD && !giveD) || (!giveI && !giveD)) {
    bool threw = false;
    try { m.execute(); } catch (VariableNotInitialisedException &) { threw = true; }
    c.ok(threw, "missing-time", "executing diagnostics without the time they depend on must be reported");
    if (haveD && !giveD) { threw = false; try { m.adjustDeltaT(1); } catch (VariableNotInitialisedException &) { threw = true; } c.ok(threw, "missing-time-adjust", ""); }
    for (auto &d : ds) c.ok(d.rec->log.empty(), "missing-time-output", str(d.rec->log));
    c.count("missing-time");
    m.setTimeCounter(&step); m.setPhysicalTime(&time);
  }
  if (!(giveI || giveD) || r.chance(1, 8)) { m.setTimeCounter(&step); m.setPhysicalTime(&time); giveI = giveD = true; }
  bool master = r.chance(2, 3); int rank = master ? 0 : r.range(1, 20);
  if (r.chance(1, 8)) { master = true; rank = 3; }
  if (fresh) { master = true; rank = 0; c.count("fresh-manager"); } else { m.setMaster(master); m.setRank(rank); }
  step = r.chance(1, 2) ? 0 : r.chance(1, 6) ? r.range(0, 2000000000) : r.range(0, 30); time = r.chance(1, 2) ? 0 : unit * r.range(0, 100) / 32.0;
  c.desc << " master " << master << " rank " << rank << " from " << step << "/" << time;
  int steps = r.range(5, c.h.thorough ? 120 : 50);
  if (r.chance(1, 12)) steps *= 8, c.count("long-runs");
  std::vector<int> big; for (auto &d : ds) if (d.every > 1000) big.push_back(d.every);
  auto near = [&] { int e = r.pick(big); return int(std::max<long>(0, std::min<long>(2000000000L, long(e) * r.range(0, 5)) - r.range(0, 3))); };    // shortly before a multiple of a large interval
  if (!big.empty() && r.chance(3, 4)) step = near();
  bool adjusting = r.chance(1, 3);
  double base = unit * r.range(1, 64) / 64.0;
  for (int s = 0; s < steps; ++s) {
    m.execute();
    for (auto &d : ds) model(d, master, rank, step, time);
    for (size_t k = 0; k < ds.size(); ++k) {
      Diag &d = ds[k];
      if (!c.check(d.rec->log == d.want, d.interval ? "interval-output" : "delta-output", [&](std::ostream &o) { o << "diagnostic " << k << " at step " << step << " time " << time << ": " << str(d.rec->log) << ", expected " << str(d.want); })) return;
      c.count(d.want.empty() ? "idle" : "output");
      if (d.alive && !d.interval) c.ok(dynamic_cast<DeltaTimeDiagnostic *>(d.own.get())->getNextOutput() == d.next, "next-output", "");
      d.rec->log.clear(); d.want.clear();
    }
    // destroy one in mid run
    if (r.chance(1, 60)) {
      Diag &d = ds[r.range(0, int(ds.size()) - 1)];
      if (d.alive) { std::weak_ptr<Block> w = d.own; d.own.reset(); d.alive = false; c.ok(d.rec->dead == 1, "destroyed", ""); d.rec->log.clear(); c.desc << " destroy@" << s; c.count("destroyed"); }
    }
    if (adjusting) {
      double adj = m.adjustDeltaT(base), want = base;
      for (auto &d : ds) if (d.alive && !d.interval && d.next > time) want = std::min(want, d.next - time);
      c.check(adj == want, "adjust", [&](std::ostream &o) { o << "time " << time << " step " << base << " adjusted to " << adj << ", expected " << want; });
      c.count(adj < base ? "adjust:shortened" : "adjust:full");
      time += want; ++step;
    } else if (r.chance(1, 30)) { step = !big.empty() ? near() : r.range(-2, 40); time = std::max(0.0, time + unit * r.range(-64, 128) / 32.0); }
    else { if (!big.empty() && r.chance(1, 5)) step = near(); else ++step; time += base * r.range(1, r.chance(1, 10) ? 6 : 1); }
  }
  c.count(haveI && haveD ? "kinds:both" : haveI ? "kinds:interval" : "kinds:delta");
  int unused = 0; (void)unused;
  m.setTimeCounter(nullptr); m.setPhysicalTime(nullptr);
  ds.clear();     // destroys the diagnostics
  for (auto r2 : recs) { c.ok(r2->dead == 1, "destroyed-once", ""); delete r2; }
  recs.clear();
}

// driving a simulation with adjusted time steps hits every output time
static void hits(vh::Case &c) {
  vh::Rng &r = c.rng;
  recs.clear();
  std::vector<pBlock> own; std::vector<std::unique_ptr<Run>> runs; std::vector<double> dt, first;
  int n = r.range(1, 3);
  const double unit = r.chance(1, 2) ? 1 : std::ldexp(1.0, r.range(-160, 100));
  c.desc << "hits";
  for (int k = 0; k < n; ++k) {
    dt.push_back(unit * r.range(8, 96) / 32.0); first.push_back(unit * r.range(0, 64) / 32.0);
    runs.emplace_back(new Run("D"));
    runs.back()->bc.registerBlock("D").setClass<RD>();
    nextSingle = r.chance(1, 3);
    Parser p(runs.back()->vars, runs.back()->fr, runs.back()->bc);
    std::istringstream is("file = \"f\"; deltaTime = " + num(dt[k]) + "; delay = " + num(first[k]) + ";");
    own.push_back(p.parse(is, "deck")); own.back()->initAll();
    c.desc << " " << first[k] << "+" << dt[k];
  }
  DiagnosticManager &m = DiagnosticManager::instance();
  double time = 0, base = unit * r.range(1, 7) / 32.0, end = 20 * unit;
  bool master = r.chance(1, 2);
  m.setTimeCounter(nullptr); m.setPhysicalTime(&time); m.setMaster(master); m.setRank(master ? 0 : 1);
  c.desc << " step " << base << " master " << master;
  std::vector<int> outputs(n, 0); std::vector<double> visited;
  int guard = 0;
  for (; time <= end && guard < 100000; ++guard) {
    visited.push_back(time);
    m.execute();
    double adj = m.adjustDeltaT(base);
    if (!c.ok(adj > 0 && adj <= base, "adjust-range", num(adj))) break;
    time += adj;
  }
  for (int k = 0; k < n; ++k) {
    long due = 0, writes = 0;
    for (double t = first[k]; t <= end; t += dt[k]) { ++due; c.check(std::find(visited.begin(), visited.end(), t) != visited.end(), "hit", [&](std::ostream &o) { o << "output time " << t << " of diagnostic " << k << " was stepped over"; }); }
    for (auto &e : recs[k]->log) writes += e.op == 'w';
    c.check(writes == (recs[k]->single && !master ? 0 : due), "output-count", [&](std::ostream &o) { o << writes << " outputs, expected " << due; });
  }
  c.count("driven");
  m.setPhysicalTime(nullptr);
  own.clear();
  for (auto x : recs) delete x;
  recs.clear();
}

// real files
typedef Grid<double, 1> G1;
static std::string scratch;
class Src : public Block { public: double *x = nullptr; Src() { last = this; } static Src *last; double value = 0; protected: void registerData() { addData("x", value); } };
Src *Src::last = nullptr;
class FI : public SimpleFileDiagnostic<double, double *, IntervalDiagnostic> { public: FI() { setSingleOut(nextSingle); } };
class FD : public SimpleFileDiagnostic<double, double *, DeltaTimeDiagnostic> { public: FD() { setSingleOut(nextSingle); } };
static std::string slurp(const std::string &f) { std::ifstream i(f.c_str()); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void clearScratch() {
  DIR *d = opendir(scratch.c_str()); if (!d) return;
  while (dirent *e = readdir(d)) if (e->d_name[0] != '.') ::unlink((scratch + "/" + e->d_name).c_str());
  closedir(d);
}
static void files(vh::Case &c) {
  vh::Rng &r = c.rng;
  clearScratch();
  Run run("app");
  run.bc.registerBlock("app").setClass<Src>(); run.bc.registerBlock("I").setClass<FI>(); run.bc.registerBlock("D").setClass<FD>();
  run.bc("app").addChildren("I")("D");
  bool interval = r.chance(1, 2), append = r.chance(1, 2), master = r.chance(3, 4);
  nextSingle = r.chance(1, 3);
  int every = r.range(1, 4), rank = master ? 0 : 2;
  double dt = r.range(1, 40) / 16.0;
  bool multi = r.chance(1, 2);
  std::string name = scratch + (append ? "/all" : multi ? "/f_#t" : "/last");
  std::string text = std::string(interval ? "I" : "D") + " d { field = \"x\"; file = \"" + name + "\"; append = " + (append ? "1" : "0") + ";" + (interval ? " interval = " + std::to_string(every) : " deltaTime = " + num(dt)) + "; }";
  c.desc << text.substr(0, 20) << (append ? "append" : multi ? "multi" : "single") << every << " " << dt << " master " << master << nextSingle << " #" << c.index;
  c.crumb(c.desc.str());
  Parser p(run.vars, run.fr, run.bc);
  std::istringstream is(text);
  pBlock b = p.parse(is, "deck"); b->initAll();
  Src *src = Src::last;
  DiagnosticManager &m = DiagnosticManager::instance();
  int step = r.range(0, 1); double time = step ? 0.5 : 0;
  m.setTimeCounter(&step); m.setPhysicalTime(&time); m.setMaster(master); m.setRank(rank);
  std::map<std::string, std::string> want; int count = 0; double next = 0;
  bool out = master || !nextSingle;
  if (out && append) want[name] = "";
  int steps = r.range(1, 12);
  for (int s = 0; s < steps; ++s) {
    src->value = r.range(-4000, 4000) / 8.0;
    m.execute();
    bool due = interval ? step % every == 0 : time >= next;
    if (due) {
      std::ostringstream o; o << src->value;
      std::string f = append ? name : subst(name, std::to_string(interval ? step : count), rank);
      if (out) { if (append) want[f] += o.str(); else want[f] = o.str(); c.count(append ? "file-appends" : "file-writes"); }
      ++count; next += dt;
    }
    // what is due is in the file as soon as execute returns
    for (auto &w : want) c.check(slurp(w.first) == w.second, "file-content", [&](std::ostream &o) { o << w.first << " contains '" << slurp(w.first) << "', expected '" << w.second << "'"; });
    ++step; time += 0.5;
  }
  long n = 0;
  DIR *d = opendir(scratch.c_str());
  while (dirent *e = readdir(d)) if (e->d_name[0] != '.') ++n;
  closedir(d);
  c.check(n == long(want.size()), "file-count", [&](std::ostream &o) { o << n << " files were written, expected " << want.size(); });
  // this hierarchy stays alive; its later outputs do not matter
  m.setTimeCounter(nullptr); m.setPhysicalTime(nullptr);
}
// every hierarchy is executed in a process of its own, as blocks with parents outlive their case
static void filesForked(vh::Case &c) {
  int fd[2]; if (pipe(fd)) throw std::runtime_error("pipe");
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    ::close(fd[0]); alarm(60);
    std::ostringstream o;
    try { files(c); } catch (std::exception &e) { c.fail("unexpected-exception", std::string(typeid(e).name()) + e.what()); }
    o << c.events << "\n" << c.h.counters["file-appends"] << " " << c.h.counters["file-writes"] << "\n" << c.desc.str() << "\n";
    if (c.failed) o << c.h.viols.back().key << "\n" << c.h.viols.back().msg << "\n";
    std::string s = o.str(); (void)!::write(fd[1], s.data(), s.size());
    ::close(fd[1]);
    _exit(0);
  }
  ::close(fd[1]);
  std::string s; char buf[4096]; ssize_t k;
  while ((k = ::read(fd[0], buf, sizeof buf)) > 0) s.append(buf, k);
  ::close(fd[0]);
  int st = 0; waitpid(p, &st, 0);
  std::istringstream i(s); std::string line, key, msg;
  long ev = 0, a = 0, w = 0;
  std::getline(i, line); ev = atol(line.c_str()); i >> a >> w; std::getline(i, line); std::getline(i, line);
  c.desc << line; c.events += ev; c.count("file-appends", a - c.h.counters["file-appends"] < 0 ? 0 : a - c.h.counters["file-appends"]); c.count("file-writes", w - c.h.counters["file-writes"] < 0 ? 0 : w - c.h.counters["file-writes"]);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { c.fail("process-died", "status " + std::to_string(st) + " " + line); return; }
  if (std::getline(i, key)) { std::getline(i, msg); c.fail(key, msg); }
}

// setting up a decomposition tells the manager which process this is
template<int R> static void decomposed(vh::Case &c) {
  vh::Rng &r = c.rng;
  recs.clear();
  DiagnosticManager &m = DiagnosticManager::instance();
  m.setMaster(r.chance(1, 2)); m.setRank(r.range(0, 30));          // left over from before
  typedef MPICartSubdivision<Grid<double, R>> Sub;
  typename Sub::LimitType lo, hi; int delta = r.range(0, 2);
  for (int d = 0; d < R; ++d) { lo[d] = r.range(-5, 5); hi[d] = lo[d] + r.range(40, 80); }
  Sub sub; sub.init(lo, hi, delta);
  const int rank = sub.procnum(); const bool master = rank == 0;
  c.desc << "decomposed " << R << " " << lo[0] << ".." << hi[0] << " ghosts " << delta;
  std::vector<int> ranks = vm::gatherInt(rank); std::sort(ranks.begin(), ranks.end());
  for (int k = 0; k < vm::size(); ++k) c.ok(ranks[k] == k, "ranks", "every process has a number of its own");
  c.ok(sub.master() == master, "master", "");
  std::vector<Diag> ds; std::vector<std::unique_ptr<Run>> runs;
  int n = r.range(1, 4);
  for (int k = 0; k < n; ++k) {
    Diag d; d.interval = r.chance(1, 2); d.append = r.chance(1, 4); d.single = r.chance(1, 2);
    d.every = r.range(1, 3); d.dt = r.range(1, 40) / 32.0;
    d.file = r.pick(std::vector<std::string>{"a_#t.dat", "out#p_#t", "#p", "x#t.y#p"});
    if (d.append) d.file = "all";
    std::string text = "file = \"" + d.file + "\"; append = " + std::to_string(int(d.append)) + (d.interval ? "; interval = " + std::to_string(d.every) : "; deltaTime = " + num(d.dt)) + ";";
    c.desc << " " << (d.interval ? "I" : "D") << (d.single ? "s" : "") << "{" << text << "}";
    runs.emplace_back(new Run(d.interval ? "I" : "D"));
    runs.back()->bc.registerBlock("I").template setClass<RI>(); runs.back()->bc.registerBlock("D").template setClass<RD>();
    nextSingle = d.single;
    Parser p(runs.back()->vars, runs.back()->fr, runs.back()->bc);
    std::istringstream is(text);
    d.own = p.parse(is, "deck"); d.own->initAll(); d.rec = recs.back();
    ds.push_back(d);
  }
  c.crumb(c.desc.str());
  int step = r.range(0, 5); double time = r.range(0, 32) / 32.0;
  m.setTimeCounter(&step); m.setPhysicalTime(&time);
  for (int s = 0; s < 12 && !c.failed; ++s, ++step, time += 0.25) {
    m.execute();
    for (size_t k = 0; k < ds.size(); ++k) {
      Diag &d = ds[k];
      model(d, master, rank, step, time);
      c.check(d.rec->log == d.want, "output-of-process", [&](std::ostream &o) { o << "process " << rank << " diagnostic " << k << " at step " << step << " time " << time << ": " << str(d.rec->log) << ", expected " << str(d.want); });
      c.count(d.want.empty() ? "process-idle" : "process-output");
      d.rec->log.clear(); d.want.clear();
    }
  }
  m.setTimeCounter(nullptr); m.setPhysicalTime(nullptr);
  ds.clear();
  for (auto x : recs) delete x;
  recs.clear();
}
static int distributed(int argc, char **argv) {
  vm::Session s(argc, argv);
  int rc;
  {
    vh::Harness h(argc, argv, vm::Session::suffix());
    vm::section(h, "decomposed-1", 60, 1000, decomposed<1>);
    vm::section(h, "decomposed-2", 60, 1000, decomposed<2>);
    vm::section(h, "decomposed-3", 30, 500, decomposed<3>);
    h.require("process-output", 50); h.require("process-idle", 50);
    rc = h.finish();
  }
  MPI_Finalize();
  return rc;
}

int main(int argc, char **argv) {
  if (std::getenv("OMPI_COMM_WORLD_SIZE")) return distributed(argc, argv);
  vh::Harness h(argc, argv);
  char tmpl[] = "./vh16XXXXXX";
  scratch = mkdtemp(tmpl);
  h.section("schedule", 3000, 60000, schedule);
  h.section("hits", 400, 8000, hits);
  h.section("files", 250, 3000, filesForked);
  for (const char *k : {"output", "idle", "kinds:both", "kinds:interval", "kinds:delta", "adjust:shortened", "adjust:full", "missing-time", "destroyed", "driven", "file-appends", "file-writes"}) h.require(k, 50);
  clearScratch();
  ::rmdir(scratch.c_str());
  return h.finish();
}
