// Shared monitor runtime for all harnesses: deterministic per-case PRNG, breadcrumbs, violation log,
// coverage counters, distinct-case accounting and replay of a single case.
#ifndef VH_COMMON_HPP
#define VH_COMMON_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <typeinfo>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

namespace vh {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  // inclusive range
  int range(int a, int b) { return int((long)a + long(next() % uint64_t((long)b - (long)a + 1))); }
  bool chance(int num, int den) { return int(next() % uint64_t(den)) < num; }
  double unit() { return double(next() >> 11) / 9007199254740992.0; }
  double real(double a, double b) { return a + (b - a) * unit(); }
  template<class V> const typename V::value_type &pick(const V &v) { return v[next() % v.size()]; }
};

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    switch (c) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      case '\r': o += "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
  }
  return o;
}

class Harness;

struct Case {
  Harness &h;
  const std::string section;
  const long index;
  Rng rng;
  std::ostringstream desc;     // human readable description of the case
  bool nontrivial = true;
  long events = 0;             // monitor observations made in this case
  bool failed = false;
  Case(Harness &h_, const std::string &s, long i, uint64_t seed) : h(h_), section(s), index(i), rng(seed) {}
  void fail(const std::string &key, const std::string &msg);
  void count(const std::string &c, long n = 1);
  bool ok(bool cond, const char *key, const std::string &msg = "") { ++events; if (!cond) fail(key, msg); return cond; }
  // cheap path: message is only rendered on failure
  template<class F> bool check(bool cond, const char *key, F msg) {
    ++events;
    if (!cond) { std::ostringstream o; msg(o); fail(key, o.str()); }
    return cond;
  }
  void crumb(const std::string &s);
};

struct AbortCase {};  // thrown by harness code to leave a case that already failed

class Harness {
  public:
    uint64_t seed = 1;
    bool thorough = false;
    std::string only;      // section:index
    std::string outFile;
    char *crumbMem = nullptr;
    static const size_t crumbSize = 65536;
    long evaluations = 0, events = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, long> counters;
    std::vector<std::pair<std::string, long>> required;
    std::map<std::string, std::vector<std::string>> samples;
    struct Viol { std::string key, section, msg, desc; long index; };
    std::vector<Viol> viols;
    long violCount = 0;
    std::string suffix;

    Harness(int argc, char **argv, const std::string &suffix_ = "") : suffix(suffix_) {
      for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--seed" && i + 1 < argc) seed = strtoull(argv[++i], 0, 10);
        else if (a == "--tier" && i + 1 < argc) thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--only" && i + 1 < argc) only = argv[++i];
        else if (a == "--out" && i + 1 < argc) outFile = argv[++i];
      }
      if (!outFile.empty()) {
        outFile += suffix;
        std::string cf = outFile + ".crumb";
        int fd = ::open(cf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, crumbSize) == 0) {
          void *m = mmap(0, crumbSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
          if (m != MAP_FAILED) crumbMem = (char *)m;
        }
        if (fd >= 0) ::close(fd);
      }
    }
    void crumb(const std::string &s) {
      if (!crumbMem) return;
      size_t n = std::min(s.size(), crumbSize - 1);
      memcpy(crumbMem, s.data(), n);
      crumbMem[n] = 0;
    }
    long scale(long q, long t) const { return thorough ? t : q; }

    template<class F> void section(const std::string &name, long nq, long nt, F f) {
      long n = scale(nq, nt), first = 0, last = n;
      if (!only.empty()) {
        size_t p = only.rfind(':');
        if (only.substr(0, p) != name) return;
        first = atol(only.c_str() + p + 1);
        last = first + 1;
      }
      long localViol = 0;
      for (long i = first; i < last; ++i) {
        Case c(*this, name, i, mix(seed * 1000003ULL + hashStr(name)) ^ mix(uint64_t(i) + 77));
        crumb(name + ":" + std::to_string(i));
        try { f(c); }
        catch (AbortCase &) {}
        catch (std::exception &e) { c.fail("unexpected-exception", std::string(typeid(e).name()) + ": " + e.what()); }
        ++evaluations;
        events += c.events;
        counters["cases:" + name]++;
        counters["events:" + name] += c.events;
        if (c.nontrivial && c.events > 0) distinct.insert(hashStr(name + "|" + c.desc.str()));
        auto &sm = samples[name];
        if (sm.size() < 2 && (i == first || i == first + (last - first) / 2))
          sm.push_back(c.desc.str().substr(0, 600));
        if (c.failed && ++localViol >= 10) break;
      }
      crumb("done " + name);
    }
    void require(const std::string &counter, long minimum) { required.push_back({counter, minimum}); }

    int finish() {
      bool lacking = false;
      std::ostringstream o;
      o << "{\"evaluations\":" << evaluations << ",\"events\":" << events << ",\"distinct\":" << distinct.size();
      o << ",\"counters\":{";
      bool f = true;
      for (auto &c : counters) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
      o << "},\"lacking\":[";
      f = true;
      if (only.empty())
        for (auto &r : required)
          if (counters[r.first] < r.second) { lacking = true; o << (f ? "" : ",") << "\"" << jesc(r.first) << "<" << r.second << "\""; f = false; }
      o << "],\"samples\":[";
      f = true;
      for (auto &s : samples) for (auto &t : s.second) { o << (f ? "" : ",") << "{\"section\":\"" << jesc(s.first) << "\",\"case\":\"" << jesc(t) << "\"}"; f = false; }
      o << "],\"violations_total\":" << violCount << ",\"violations\":[";
      f = true;
      for (auto &v : viols) {
        o << (f ? "" : ",") << "{\"key\":\"" << jesc(v.key) << "\",\"section\":\"" << jesc(v.section) << "\",\"index\":" << v.index
          << ",\"msg\":\"" << jesc(v.msg.substr(0, 2000)) << "\",\"case\":\"" << jesc(v.desc.substr(0, 4000)) << "\"}";
        f = false;
      }
      o << "]}\n";
      if (!outFile.empty()) { std::ofstream fo(outFile.c_str()); fo << o.str(); }
      else fputs(o.str().c_str(), stdout);
      crumb("finished");
      fflush(stdout);
      if (violCount) return 10;
      if (lacking) return 11;
      return 0;
    }
};

inline void Case::fail(const std::string &key, const std::string &msg) {
  failed = true;
  h.violCount++;
  long same = 0;
  for (auto &v : h.viols) if (v.key == key) ++same;
  if (same < 3 && h.viols.size() < 60)
    h.viols.push_back({key, section, msg, desc.str(), index});
}
inline void Case::count(const std::string &c, long n) { h.counters[c] += n; }
inline void Case::crumb(const std::string &s) { h.crumb(section + ":" + std::to_string(index) + " " + s); }

// Runs f in a forked child and reports how it ended. Used where the library's contract is to stop the process.
struct ChildResult { bool exited = false; int code = -1; int sig = 0; bool timeout = false; };
template<class F> ChildResult inChild(F f, int seconds = 30) {
  fflush(stdout); fflush(stderr);
  ChildResult r;
  pid_t p = fork();
  if (p == 0) {
    int dn = ::open("/dev/null", O_WRONLY);
    if (dn >= 0) { dup2(dn, 2); dup2(dn, 1); }
    signal(SIGABRT, SIG_DFL);
    alarm(seconds);
    int code = 0;
    try { code = f(); } catch (...) { code = 99; }
    _exit(code);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); }
  else if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); r.timeout = (r.sig == SIGALRM); }
  return r;
}

} // namespace vh
#endif
