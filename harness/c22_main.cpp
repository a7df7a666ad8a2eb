// C22: objects packed into data buffers come out again, and objects that move between processes are neither lost nor duplicated.
#include "mpicommon.hpp"
#include "util/databuffer.hpp"
#include "grid/mpisubdivision.hpp"
#include "grid/domainsubdivision.hpp"
#include <list>
#include <memory>
using namespace schnek;
using namespace vg;

template<size_t R> struct Particle { double x[R]; int id; char tag[5]; float w; };
struct Tiny { unsigned char b[3]; };
struct Wide { long double a; char c; int n[7]; };
template<class T> void randomObject(vh::Rng &r, T &t) { unsigned char *p = (unsigned char *)&t; for (size_t i = 0; i < sizeof(T); ++i) p[i] = (unsigned char)r.range(0, 255); }
template<class T> std::string bytes(const T &t) { return std::string((const char *)&t, sizeof(T)); }

// packing and reading back in one process
template<class T> void packCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  DataBuffer<T> buf;
  int rounds = r.range(1, 5); c.desc << sizeof(T) << " bytes:";
  for (int k = 0; k < rounds; ++k) {
    int n = r.chance(1, 5) ? 0 : r.range(1, r.chance(1, 12) ? 5000 : r.chance(1, 6) ? 400 : 12);
    std::list<T> store; for (int i = 0; i < n; ++i) { store.emplace_back(); randomObject(r, store.back()); }
    std::vector<std::string> want;
    int how = r.range(0, 3); c.desc << " " << n << "/" << how; c.crumb(c.desc.str());
    if (how == 0) { std::vector<T *> v; for (auto &t : store) { v.push_back(&t); want.push_back(bytes(t)); } buf.makeBuffer(v); }
    else if (how == 1) { std::list<typename std::list<T>::iterator> v; for (auto it = store.begin(); it != store.end(); ++it) if (r.chance(2, 3)) { v.push_back(it); want.push_back(bytes(*it)); } buf.makeBuffer(v); }
    else if (how == 2) { std::vector<std::shared_ptr<T>> v; for (auto &t : store) { v.push_back(std::make_shared<T>(t)); want.push_back(bytes(t)); } buf.makeBuffer(v); }
    else { std::vector<const T *> v; for (auto &t : store) { v.insert(v.begin(), &t); want.insert(want.begin(), bytes(t)); } if (!v.empty() && r.chance(1, 2)) { v.push_back(v[0]); want.push_back(want[0]); } buf.makeBuffer(v); }
    c.check(long(buf.getBuffer().getSize()) == long(want.size() * sizeof(T)), "buffer-size", [&](std::ostream &o) { o << want.size() << " objects of " << sizeof(T) << " bytes in a buffer of " << buf.getBuffer().getSize(); });
    std::vector<std::string> got; size_t guard = 0; bool post = r.chance(1, 2);
    for (typename DataBuffer<T>::iterator it = buf.begin(); it != buf.end() && guard <= want.size(); ++guard) {
      got.push_back(bytes(*it)); c.ok(&*it == it.operator->(), "arrow", "");
      if (post) { typename DataBuffer<T>::iterator o = it++; c.ok(!(o == it) && bytes(*o) == got.back(), "post-increment", ""); } else { auto o = ++it; c.ok(o == it, "pre-increment", ""); }
    }
    c.check(got == want, "objects", [&](std::ostream &o) { o << want.size() << " packed, " << got.size() << " read back" << (got.size() == want.size() ? ", values differ" : ""); });
    c.events += long(want.size()); c.count("objects", long(want.size())); if (want.empty()) c.count("empty");
    // writing through the iterator changes the buffer and not the originals
    if (!want.empty()) {
      std::vector<std::string> before; for (auto &t : store) before.push_back(bytes(t));
      T v; randomObject(r, v); size_t at = r.range(0, int(want.size()) - 1); typename DataBuffer<T>::iterator it = buf.begin(); for (size_t i = 0; i < at; ++i) ++it; *it = v; want[at] = bytes(v);
      size_t i = 0; bool ok = true; for (auto q = buf.begin(); q != buf.end(); ++q, ++i) ok = ok && bytes(*q) == want[i]; c.ok(ok && i == want.size(), "write", "");
      i = 0; ok = true; for (auto &t : store) ok = ok && bytes(t) == before[i++]; c.ok(ok, "originals", "packing or writing to the buffer changed the packed objects");
    }
  }
}

// particles move on a periodic domain that is divided between the processes
template<size_t R, class Sub> void migrate(vh::Case &c) {
  vh::Rng &r = c.rng; const int np = vm::size(), me = vm::rank();
  typedef Grid<double, R> G;
  typedef Particle<R> P;
  Box<R> glob; for (size_t d = 0; d < R; ++d) { glob.lo[d] = r.range(-5, 5); glob.hi[d] = glob.lo[d] + 2 * np + 2 + r.range(0, 6); }
  Sub sub; sub.init(arr<R>(glob.lo), arr<R>(glob.hi), 1);
  Box<R> in = vm::boxOf<R>(sub.getInnerDomain());
  if (std::is_same<Sub, SerialSubdivision<G>>::value) glob = in;       // its inner cells are the whole periodic domain
  auto owns = [&](const P &p) { for (size_t d = 0; d < R; ++d) { long i = long(std::floor(p.x[d])); if (i < in.lo[d] || i > in.hi[d]) return false; } return true; };
  // all processes know the whole set and its motion; each carries only its own part
  int total = c.index % 10 == 9 ? r.range(300, 3000) : r.range(1, 60), steps = r.range(1, 6);
  std::vector<P> all(total);
  for (int i = 0; i < total; ++i) { memset((void *)&all[i], 0, sizeof(P)); all[i].id = i; all[i].w = r.range(0, 999) / 8.f; for (char &t : all[i].tag) t = char('a' + r.range(0, 25)); for (size_t d = 0; d < R; ++d) all[i].x[d] = glob.lo[d] + r.range(0, int(glob.hi[d] - glob.lo[d] + 1) * 8 - 1) / 8.0; }
  c.desc << np << " processes rank " << R << " " << glob.str() << " " << total << " particles " << steps << " steps"; c.crumb(c.desc.str());
  std::list<P> mine; for (auto &p : all) if (owns(p)) mine.push_back(p);
  DataBuffer<P> out, got;
  for (int s = 0; s < steps; ++s) {
    std::vector<std::array<double, R>> move(total);
    for (int i = 0; i < total; ++i) for (size_t d = 0; d < R; ++d) { double v = r.range(-8, 8) / 8.0; if (r.chance(1, 3)) v = 0; move[i][d] = v; all[i].x[d] += v; double L = glob.hi[d] - glob.lo[d] + 1; if (all[i].x[d] < glob.lo[d]) all[i].x[d] += L; if (all[i].x[d] >= glob.lo[d] + L) all[i].x[d] -= L; }
    for (auto &p : mine) for (size_t d = 0; d < R; ++d) p.x[d] += move[p.id][d];
    usleep(r.range(0, 3 * np) == me ? 500 : 0);
    for (size_t d = 0; d < R; ++d) for (int ori : {1, -1}) {
      std::list<typename std::list<P>::iterator> go;
      for (auto it = mine.begin(); it != mine.end(); ++it) { double x = it->x[d]; if (ori > 0 ? x >= in.hi[d] + 1 : x < in.lo[d]) go.push_back(it); }
      out.makeBuffer(go);
      for (auto &it : go) mine.erase(it);
      sub.exchangeData(d, ori, out.getBuffer(), got.getBuffer());
      c.count("sent", long(go.size())); if (go.empty()) c.count("empty-messages");
      for (auto it = got.begin(); it != got.end(); ++it) {
        P p = *it; double L = glob.hi[d] - glob.lo[d] + 1; if (p.x[d] < glob.lo[d]) p.x[d] += L; if (p.x[d] >= glob.lo[d] + L) p.x[d] -= L;
        if (!c.check(p.id >= 0 && p.id < total, "garbage", [&](std::ostream &o) { o << "received a particle with number " << p.id; })) continue;
        mine.push_back(p);
      }
    }
    // exactly the particles of this process' region, each unaltered
    std::map<int, int> times;
    for (auto &p : mine) {
      times[p.id]++; const P &q = all[p.id]; bool same = p.w == q.w && memcmp(p.tag, q.tag, 5) == 0; for (size_t d = 0; d < R; ++d) same = same && p.x[d] == q.x[d];
      c.check(same, "altered", [&](std::ostream &o) { o << "particle " << p.id << " on process " << me << " after step " << s; });
    }
    for (int i = 0; i < total; ++i) c.check(times[i] == (owns(all[i]) ? 1 : 0), "exactly-once", [&](std::ostream &o) { o << "particle " << i << " is held " << times[i] << " times by process " << me << " after step " << s << ", expected " << (owns(all[i]) ? 1 : 0); });
    int n = int(mine.size()), sum = 0; MPI_Allreduce(&n, &sum, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    c.ok(sum == total, "conservation", "");
    if (vm::anyFailed(c)) return;
  }
}

int main(int argc, char **argv) {
  vm::Session s(argc, argv);
  int rc;
  {
    vh::Harness h(argc, argv, vm::Session::suffix());
    if (vm::size() == 1) {
      vm::section(h, "pack-double", 200, 3000, packCase<double>); vm::section(h, "pack-byte", 200, 3000, packCase<char>); vm::section(h, "pack-tiny", 200, 3000, packCase<Tiny>);
      vm::section(h, "pack-wide", 200, 3000, packCase<Wide>); vm::section(h, "pack-particle", 250, 4000, packCase<Particle<3>>);
      vm::section(h, "serial-1", 100, 1500, migrate<1, SerialSubdivision<Grid<double, 1>>>); vm::section(h, "serial-2", 100, 1500, migrate<2, SerialSubdivision<Grid<double, 2>>>);
      h.require("objects", 1000); h.require("empty", 20);
    }
    vm::section(h, "mpi-1", 200, 1200, migrate<1, MPICartSubdivision<Grid<double, 1>>>);
    vm::section(h, "mpi-2", 200, 1200, migrate<2, MPICartSubdivision<Grid<double, 2>>>);
    vm::section(h, "mpi-3", 100, 600, migrate<3, MPICartSubdivision<Grid<double, 3>>>);
    h.require("sent", 200); h.require("empty-messages", 20);
    rc = h.finish();
  }
  MPI_Finalize();
  return rc;
}
