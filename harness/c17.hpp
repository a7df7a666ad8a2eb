#ifndef C17_HPP
#define C17_HPP
// C17: grids written to HDF5 files by any number of processes hold, under the expected names, exactly the global data;
// reading gives every process exactly its part.
#include "mpicommon.hpp"
#include "variables.hpp"
#include "grid/grid.hpp"
#include "grid/field.hpp"
#include "diagnostic/hdfdiagnostic.hpp"
using namespace vg;
using namespace schnek;

struct Att { std::string name; char type; std::vector<double> v; };
struct DataSet { std::string name; char type; std::vector<long> dims; std::vector<double> values; std::vector<Att> atts; };
typedef std::vector<DataSet> FileModel;
// reads the file with the plain HDF5 library on one process and compares
void verifyFile(vh::Case &c, const std::string &file, const FileModel &want);
void barrier();
bool fileExists(const std::string &f);

template<class T> char typeChar() { return std::is_same<T, int>::value ? 'i' : std::is_same<T, float>::value ? 'f' : 'd'; }

// cuts the global box into one piece per process (of n)
template<size_t R> std::vector<Box<R>> cut(vh::Rng &r, const Box<R> &g, int n) {
  std::vector<Box<R>> p{g};
  while (int(p.size()) < n) {
    // split the first piece that can be split, in a random dimension
    size_t k = r.range(0, int(p.size()) - 1), tries = 0;
    while (p[k].size() < 2 && tries++ < p.size()) k = (k + 1) % p.size();
    Box<R> a = p[k], b = a;
    size_t d = r.range(0, int(R) - 1); tries = 0;
    while (a.hi[d] == a.lo[d] && tries++ < R) d = (d + 1) % R;
    int at = r.range(0, int(a.hi[d] - a.lo[d]) - 1);
    a.hi[d] = a.lo[d] + at; b.lo[d] = a.hi[d] + 1;
    p[k] = a; p.push_back(b);
  }
  for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.range(0, int(i) - 1)]);
  return p;
}
template<size_t R> Box<R> globalBox(vh::Rng &r, int np) {
  Box<R> g = randomBox<R>(r, 400, false, false);
  for (size_t d = 0; d < R; ++d) if (g.hi[d] - g.lo[d] > 40) g.hi[d] = g.lo[d] + 40;
  while (g.size() < np) g.hi[r.range(0, int(R) - 1)]++;
  return g;
}
template<size_t R> double value(uint64_t salt, const long *p) { uint64_t h = salt; for (size_t d = 0; d < R; ++d) h = vh::mix(h ^ uint64_t(p[d] + 100000)); return double(long(h % 20011) - 10000); }
template<class G, size_t R> struct Piece { GridContainer<G> g; Box<R> loc, mem; };
template<class G, size_t R> void makePiece(vh::Rng &r, Piece<G, R> &p, const Box<R> &glob, const Box<R> &loc) {
  p.loc = p.mem = loc;
  int m = r.range(0, 2);
  for (size_t d = 0; d < R; ++d) { p.mem.lo[d] -= r.range(0, m); p.mem.hi[d] += r.range(0, m); }
  p.g.grid.resize(arr<R>(p.mem.lo), arr<R>(p.mem.hi));
  p.g.global_min = arr<R>(glob.lo); p.g.global_max = arr<R>(glob.hi); p.g.local_min = arr<R>(loc.lo); p.g.local_max = arr<R>(loc.hi);
}
template<size_t R> bool inBox(const Box<R> &b, const long *p) { for (size_t d = 0; d < R; ++d) if (p[d] < b.lo[d] || p[d] > b.hi[d]) return false; return true; }
template<class G, size_t R> void fillPiece(Piece<G, R> &p, uint64_t salt) {
  typedef typename G::value_type T;
  each<R>(p.mem, [&](const long *x) { p.g.grid.get(arr<R>(x)) = inBox<R>(p.loc, x) ? T(value<R>(salt, x)) : T(-77777); });
}
template<class G, size_t R> DataSet globalData(const std::string &name, const Box<R> &glob, uint64_t salt, const std::vector<Att> &atts) {
  DataSet s; s.name = name; s.type = typeChar<typename G::value_type>(); s.atts = atts;
  for (size_t d = 0; d < R; ++d) s.dims.push_back(glob.hi[d] - glob.lo[d] + 1);
  each<R>(glob, [&](const long *x) { s.values.push_back(value<R>(salt, x)); });
  return s;
}
template<class G, size_t R> void checkPiece(vh::Case &c, Piece<G, R> &p, uint64_t salt, const char *key) {
  each<R>(p.mem, [&](const long *x) {
    bool in = inBox<R>(p.loc, x);
    double v = double(p.g.grid.get(arr<R>(x))), w = in ? value<R>(salt, x) : -55555;
    c.check(v == w, in ? key : "read-outside", [&](std::ostream &o) { o << "process " << vm::rank() << " at " << pos<R>(x) << " of local " << p.loc.str() << " memory " << p.mem.str() << ": " << v << ", expected " << w; });
  });
}
struct AttStore { std::vector<std::vector<int>> i; std::vector<std::vector<float>> f; std::vector<std::vector<double>> d; };
pHdfAttributes makeAttributes(vh::Rng &r, std::vector<Att> &model, AttStore &store);

// naming of successive data sets, as a user of the streams sees it
struct Namer { std::string base = "data"; int n = 0; bool named = false; std::string next() { if (named) { named = false; n = 1; return base; } return base + std::to_string(n++); } void set(const std::string &s) { base = s; named = true; } void open() { n = 0; named = false; } };

template<class GW, class GR, size_t R> void streams(vh::Case &c) {
  vh::Rng &r = c.rng;
  const int np = vm::size(), me = vm::rank();
  HdfOStream out; HdfIStream in;
  Namer nm, rn;
  int files = r.range(1, 3);
  bool subset = np > 1 && r.chance(1, 4);
  c.desc << np << " processes rank " << R << " " << typeChar<typename GW::value_type>() << typeChar<typename GR::value_type>();
  std::vector<int> before;       // the processes that were active when the last file was opened
  for (int f = 0; f < files; ++f) {
    std::string file = "f" + std::to_string(c.index) + "_" + std::to_string(f) + ".h5";
    FileModel model; std::vector<uint64_t> salts; std::vector<Box<R>> globs;
    // the processes that take part
    std::vector<int> who;
    bool same = !before.empty() && r.chance(1, 2);        // ... and stay so, without being told again
    if (same) who = before;
    else if (subset) { for (int p = 0; p < np; ++p) if (r.chance(1, 2)) who.push_back(p); if (who.empty()) who.push_back(r.range(0, np - 1)); }
    else for (int p = 0; p < np; ++p) who.push_back(p);
    int idx = -1; for (size_t k = 0; k < who.size(); ++k) if (who[k] == me) idx = int(k);
    bool activeNow = idx >= 0;
    // a stream set up by someone else is taken over before the file is opened
    bool taken = r.chance(1, 4);
    if (same) {
      if (r.chance(1, 2)) { HdfOStream o2(out); HdfOStream o3; if (r.chance(1, 2)) o3.setActive(me % 2); out = o3; out = o2; }
      if (subset) c.count("still-active");
    }
    else if (taken) { HdfOStream o2; if (subset) o2.setActive(activeNow); if (r.chance(1, 2)) { out = o2; } else { HdfOStream o3(o2); out = o3; } nm = Namer(); c.count("taken-over"); }
    before = who;
    if (subset) { if (!taken && !same) out.setActive(activeNow); c.desc << " active:"; for (int p : who) c.desc << p << ","; c.count("active-subsets"); }
    c.crumb(c.desc.str() + " open " + file);
    int named = r.range(0, 2);
    if (!subset && !same && r.chance(1, 6)) { HdfOStream direct(file.c_str()); out = direct; nm = Namer(); c.count("opened-by-constructor"); }
    else out.open(file.c_str());
    nm.open();
    c.ok(out.good() == activeNow, "good-open", "");
    if (named == 2) c.count("unnamed");        // the names go on from those of the stream's earlier files, numbered anew
    else if (named) { std::string n = r.pick(std::vector<std::string>{"E", "field x", "Rho"}); out.setBlockName(n); nm.set(n); }
    else nm.base = "data", out.setBlockName("data"), nm.set("data");
    int sets = r.range(1, 3);
    if (r.chance(1, 20)) { sets = r.range(11, 24); c.count("many-sets"); }
    std::vector<Att> atts; std::vector<std::shared_ptr<AttStore>> stores;
    for (int s = 0; s < sets; ++s) {
      if (s && r.chance(1, sets > 10 ? 30 : 3)) { std::string n = std::string("q") + char(0x61 + s); out.setBlockName(n); nm.set(n); }
      Box<R> glob = globalBox<R>(r, np);
      std::vector<Box<R>> parts = cut<R>(r, glob, int(who.size()));
      Piece<GW, R> p;
      uint64_t salt = r.next();
      vh::Rng mine(salt ^ uint64_t(me));
      makePiece<GW, R>(mine, p, glob, parts[activeNow ? idx : 0]);
      fillPiece<GW, R>(p, salt);
      if (s && r.chance(1, 3)) c.count("same-attributes", long(atts.size()));
      else { atts.clear(); stores.emplace_back(new AttStore); AttStore &store = *stores.back(); if (r.chance(1, 2)) { out.setAttributes(makeAttributes(r, atts, store)); c.count("attributes", long(atts.size())); } else out.setAttributes(std::make_shared<HdfAttributes>()); }
      c.desc << " " << glob.str() << "x" << atts.size(); c.crumb(c.desc.str() + " write");
      bool written = false;
      // copies of a stream come and go
      if (r.chance(1, 5)) {
        c.count("stream-copies");
        if (r.chance(1, 3)) { HdfOStream tmp(out); if (r.chance(1, 2)) out.close(); tmp.writeGrid(p.g); out = tmp; written = true; c.count("written-by-copy"); }
        else if (r.chance(1, 2)) { HdfOStream tmp(out); c.ok(tmp.good() == activeNow, "good-copy", ""); }
        else { HdfOStream tmp(out); out.close(); c.ok(!out.good(), "good-closed", ""); out = tmp; }
        c.ok(out.good() == activeNow, "good-after-copy", "");
      }
      if (!written) out.writeGrid(p.g);
      // the data written is left alone
      each<R>(p.mem, [&](const long *x) { c.ok(double(p.g.grid.get(arr<R>(x))) == (inBox<R>(p.loc, x) ? value<R>(salt, x) : -77777), "source-unchanged", ""); });
      model.push_back(globalData<GW, R>(nm.next(), glob, salt, atts)); salts.push_back(salt); globs.push_back(glob);
    }
    c.crumb(c.desc.str() + " close");
    if (r.chance(3, 4) || f + 1 == files) { out.close(); c.ok(!out.good(), "good-close", ""); }
    else { HdfOStream other; out = other; nm = Namer(); before.clear(); }
    barrier();
    if (me == 0) verifyFile(c, file, model);
    barrier();
    if (vm::anyFailed(c)) { if (me == 0) ::unlink(file.c_str()); return; }
    // read back, distributed differently
    std::vector<int> rd; if (subset && r.chance(1, 2)) rd = who; else for (int p = 0; p < np; ++p) rd.push_back(p);
    int ri = -1; for (size_t k = 0; k < rd.size(); ++k) if (rd[k] == me) ri = int(k);
    bool takenIn = r.chance(1, 4);
    if (takenIn) { HdfIStream i2; if (int(rd.size()) != np || subset) i2.setActive(ri >= 0); in = i2; rn = Namer(); }
    else if (int(rd.size()) != np || subset) { in.setActive(ri >= 0); }
    c.crumb(c.desc.str() + " read");
    if (int(rd.size()) == np && !subset && r.chance(1, 6)) { HdfIStream direct(file.c_str()); in = direct; rn = Namer(); }
    else in.open(file.c_str());
    rn.open();
    c.ok(in.good() == (ri >= 0), "good-open-read", "");
    for (size_t s = 0; s < model.size(); ++s) {
      Namer ahead = rn;
      if (ahead.next() == model[s].name && r.chance(2, 3)) { rn = ahead; c.count("read-by-number"); }
      else { in.setBlockName(model[s].name); rn.set(model[s].name); rn.next(); }
      std::vector<Box<R>> parts = cut<R>(r, globs[s], int(rd.size()));
      Piece<GR, R> p;
      vh::Rng mine(salts[s] ^ uint64_t(me) ^ 99);
      makePiece<GR, R>(mine, p, globs[s], parts[ri >= 0 ? ri : 0]);
      typedef typename GR::value_type T;
      each<R>(p.mem, [&](const long *x) { p.g.grid.get(arr<R>(x)) = T(-55555); });
      if (r.chance(1, 5)) { if (r.chance(1, 2)) { HdfIStream tmp(in); } else { HdfIStream tmp(in); in.close(); in = tmp; } }
      in.readGrid(p.g);
      if (ri >= 0) checkPiece<GR, R>(c, p, salts[s], "read-inside");
      else each<R>(p.mem, [&](const long *x) { c.ok(double(p.g.grid.get(arr<R>(x))) == -55555, "inactive-read", ""); });
      c.count("reads");
    }
    if (r.chance(1, 2) || f + 1 == files) { in.close(); c.ok(!in.good(), "good-close-read", ""); }
    barrier();
    if (me == 0) ::unlink(file.c_str());
    c.count("files");
    if (vm::anyFailed(c)) return;
  }
  out.close();
  // nothing that was opened stays open
  ssize_t open = H5Fget_obj_count(hid_t(H5F_OBJ_ALL), H5F_OBJ_ALL);
  c.check(open == 0, "left-open", [&](std::ostream &o) { o << "process " << me << ": " << open << " HDF5 objects are open after all streams were closed"; });
}
void part2(vh::Harness &h);
void part3(vh::Harness &h);
#endif
