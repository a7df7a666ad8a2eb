#include "c17.hpp"
#include "parser.hpp"
#include "functions.hpp"
#include "variables/function_expression.hpp"

// what the blocks of the running case share
template<class G, size_t R> struct World { static Piece<G, R> src, dst; static Box<R> glob; static std::string name; static int attTime; static double attVal; static bool atts; };
template<class G, size_t R> Piece<G, R> World<G, R>::src; template<class G, size_t R> Piece<G, R> World<G, R>::dst; template<class G, size_t R> Box<R> World<G, R>::glob;
template<class G, size_t R> std::string World<G, R>::name; template<class G, size_t R> int World<G, R>::attTime; template<class G, size_t R> double World<G, R>::attVal; template<class G, size_t R> bool World<G, R>::atts;

template<class B> struct Closing { virtual ~Closing() {} virtual void finish() = 0; };
static std::vector<Closing<void> *> closers;
struct Readers { virtual ~Readers() {} virtual void run() = 0; };
static std::vector<Readers *> readers;

template<class G, size_t R, class D> class GD : public HDFGridDiagnostic<G, D>, public Closing<void> {
    typedef World<G, R> W;
  public:
    GD() { closers.push_back(this); }
    void finish() { this->close(); }
  protected:
    typename G::IndexType getGlobalMin() { return arr<R>(W::glob.lo); }
    typename G::IndexType getGlobalMax() { return arr<R>(W::glob.hi); }
    std::string getDatasetName() { return W::name.empty() ? HDFGridDiagnostic<G, D>::getDatasetName() : W::name; }
    pHdfAttributes getAttributes() {
      pHdfAttributes a = HDFGridDiagnostic<G, D>::getAttributes();
      if (W::atts) { a->set("time", W::attTime); a->set("value", W::attVal); }
      return a;
    }
    // also works as the only block of a setup
    void registerData() { if (!this->getParent()) this->addData("src", W::src.g.grid); }
};
template<class G, size_t R> class RD : public HDFGridReader<G>, public Readers {
    typedef World<G, R> W;
  public:
    RD() { readers.push_back(this); }
    void run() { this->execute(); }
  protected:
    typename G::IndexType getGlobalMin() { return arr<R>(W::glob.lo); }
    typename G::IndexType getGlobalMax() { return arr<R>(W::glob.hi); }
    std::string getDatasetName() { return W::name.empty() ? HDFGridReader<G>::getDatasetName() : W::name; }
};
template<class G, size_t R> class AppB : public Block { protected: void registerData() { addData("src", World<G, R>::src.g.grid); addData("dst", World<G, R>::dst.g.grid); } };

template<class G, size_t R> struct Make {        // plain grids
  static void make(vh::Rng &, Piece<G, R> &p, const Box<R> &loc) { p.loc = p.mem = loc; p.g.grid = G(arr<R>(loc.lo), arr<R>(loc.hi)); }
};
template<class T, size_t R, template<size_t> class C, template<class, size_t> class S> struct Make<Field<T, R, C, S>, R> {
  static void make(vh::Rng &r, Piece<Field<T, R, C, S>, R> &p, const Box<R> &loc) {
    int ghost = r.range(0, 3);
    p.loc = p.mem = loc;
    for (size_t d = 0; d < R; ++d) { p.mem.lo[d] -= ghost; p.mem.hi[d] += ghost; }
    Array<double, R> lo, hi; Array<bool, R> st;
    for (size_t d = 0; d < R; ++d) { lo[d] = 0; hi[d] = 1 + d; st[d] = r.chance(1, 2); }
    p.g.grid = Field<T, R, C, S>(arr<R>(loc.lo), arr<R>(loc.hi), Range<double, R>(lo, hi), st, ghost);
  }
};

template<class G, size_t R, class D> void blocks(vh::Case &c) {
  typedef World<G, R> W;
  vh::Rng &r = c.rng;
  const int np = vm::size(), me = vm::rank();
  const bool interval = std::is_same<D, IntervalDiagnostic>::value;
  closers.clear(); readers.clear();
  W::glob = globalBox<R>(r, np);
  std::vector<Box<R>> parts = cut<R>(r, W::glob, np), parts2 = cut<R>(r, W::glob, np);
  vh::Rng mine(r.next() ^ uint64_t(me));
  Make<G, R>::make(mine, W::src, parts[me]); Make<G, R>::make(mine, W::dst, parts2[me]);
  W::name = r.chance(1, 3) ? "" : r.pick(std::vector<std::string>{"E", "a b", "rho_1"});
  W::atts = r.chance(1, 2);
  bool append = r.chance(1, 3), alone = r.chance(1, 3), hier = !alone;
  std::string base = "d" + std::to_string(c.index), file = append ? base + ".h5" : base + "_#t.h5";
  int every = r.range(1, 4);
  double dt = r.range(1, 8) / 4.0;
  std::ostringstream t;
  t << "file = \"" << file << "\"; field = \"src\"; append = " << (append ? 1 : 0) << "; ";
  if (interval) t << "interval = " << every << "; "; else t << "deltaTime = " << dt << "; ";
  c.desc << np << " processes rank " << R << " " << typeChar<typename G::value_type>() << " " << W::glob.str() << (alone ? " alone " : " ") << t.str() << W::name << (W::atts ? " attributes" : "");
  c.crumb(c.desc.str());
  BlockClasses bc; FunctionRegistry fr; VariableStorage vars("app", alone ? "Diag" : "App");
  bc.registerBlock("App").setClass<AppB<G, R>>(); bc.registerBlock("Diag").template setClass<GD<G, R, D>>(); bc.registerBlock("Read").template setClass<RD<G, R>>();
  bc("App").addChildren("Diag")("Read");
  std::string readFile = base + "_r.h5";
  std::istringstream in(alone ? t.str() : "Diag d { " + t.str() + "} Read rd { file = \"" + readFile + "\"; field = \"dst\"; }");
  Parser p(vars, fr, bc);
  pBlock root = p.parse(in, "deck");
  root->initAll();
  if (!c.ok(closers.size() == 1 && readers.size() == size_t(hier), "instances", "")) return;

  DiagnosticManager &m = DiagnosticManager::instance();
  m.setMaster(me == 0); m.setRank(me);
  int step = r.range(0, 3), outputs = 0; double time = 0, next = 0;
  m.setTimeCounter(&step); m.setPhysicalTime(&time);
  FileModel all; std::vector<std::string> files;
  std::string name = W::name.empty() ? "data" : W::name, lastName = name; int sinceName = 0;
  bool renaming = !W::name.empty() && r.chance(1, 2);
  FileModel lastModel; std::string lastFile; uint64_t lastSalt = 0;
  int n = r.range(2, 7);
  for (int s = 0; s < n; ++s) {
    uint64_t salt = r.next();
    fillPiece<G, R>(W::src, salt);
    if (renaming && r.chance(1, 2)) { W::name = "n" + std::to_string(s); c.count("renamed"); }
    W::attTime = step; W::attVal = time * 3;
    c.crumb(c.desc.str() + " execute " + std::to_string(step));
    m.execute();
    bool due = interval ? step % every == 0 : time >= next;
    if (due) {
      std::vector<Att> at; if (W::atts) { at.push_back(Att{"time", 'i', {double(step)}}); at.push_back(Att{"value", 'd', {time * 3}}); }
      if (renaming && W::name != name) { name = W::name; sinceName = 0; }
      std::string dn = append && sinceName ? name + std::to_string(sinceName) : name;
      ++sinceName;
      if (!append || !outputs) lastName = name;
      DataSet ds = globalData<G, R>(dn, W::glob, salt, at);
      if (append) all.push_back(ds);
      else {
        std::string f = base + "_" + std::to_string(interval ? step : outputs) + ".h5";
        barrier(); if (me == 0) verifyFile(c, f, FileModel{ds}); barrier();
        if (std::find(files.begin(), files.end(), f) == files.end()) files.push_back(f);
        lastModel = FileModel{ds}; lastFile = f; lastSalt = salt;
      }
      ++outputs; next += dt; c.count("outputs");
    }
    if (append && outputs == 1 && due) lastSalt = salt;
    step += r.range(1, 2); time += r.range(1, 8) / 8.0;
  }
  if (append) {
    if (alone) { root.reset(); closers.clear(); } else { closers[0]->finish(); }
    barrier();
    if (me == 0) verifyFile(c, file, all);
    barrier();
    files.push_back(file); lastFile = outputs ? file : "";
    c.count("appended", outputs);
  } else for (int k = 0; k < n; ++k) {   // nothing is written when nothing is due
    std::string f = base + "_" + std::to_string(100 + k) + ".h5"; c.ok(!fileExists(f), "spurious-file", f);
  }
  if (hier && !lastFile.empty()) {
    barrier();
    if (me == 0) c.ok(::rename(lastFile.c_str(), readFile.c_str()) == 0, "rename", "");
    barrier();
    typedef typename G::value_type T;
    each<R>(W::dst.mem, [&](const long *x) { W::dst.g.grid.get(arr<R>(x)) = T(-55555); });
    c.crumb(c.desc.str() + " read");
    if (renaming) W::name = lastName;
    readers[0]->run();
    checkPiece<G, R>(c, W::dst, lastSalt, "reader");
    c.count("reader-runs");
    files.push_back(readFile);
  }
  if (alone) closers.clear();
  root.reset();
  barrier();
  if (me == 0) for (auto &f : files) ::unlink(f.c_str());
  m.setTimeCounter(nullptr); m.setPhysicalTime(nullptr);
  // blocks of a hierarchy outlive it: they must not take part in the next case
  for (auto *k : closers) { if (auto *i = dynamic_cast<IntervalDiagnostic *>(k)) m.removeIntervalDiagnostic(i); if (auto *d = dynamic_cast<DeltaTimeDiagnostic *>(k)) m.removeDeltaTimeDiagnostic(d); }
  closers.clear(); readers.clear();
}

void part3(vh::Harness &h) {
  vm::section(h, "blocks-field", 25, 400, blocks<Field<double, 2>, 2, IntervalDiagnostic>);
  vm::section(h, "blocks-field-time", 20, 300, blocks<Field<float, 1>, 1, DeltaTimeDiagnostic>);
  vm::section(h, "blocks-grid", 20, 300, blocks<Grid<int, 3>, 3, IntervalDiagnostic>);
  vm::section(h, "blocks-grid-time", 20, 300, blocks<Grid<double, 2>, 2, DeltaTimeDiagnostic>);
  h.require("outputs", 50); h.require("appended", 10); h.require("reader-runs", 10);
}
