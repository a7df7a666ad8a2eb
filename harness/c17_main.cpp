#include "c17.hpp"
#include <sys/stat.h>
void barrier() { MPI_Barrier(MPI_COMM_WORLD); }
bool fileExists(const std::string &f) { struct stat s; return ::stat(f.c_str(), &s) == 0; }

static herr_t listName(hid_t, const char *name, const H5L_info_t *, void *d) { ((std::vector<std::string> *)d)->push_back(name); return 0; }
static herr_t listAttr(hid_t, const char *name, const H5A_info_t *, void *d) { ((std::vector<std::string> *)d)->push_back(name); return 0; }
static bool isType(hid_t t, char c) { return H5Tequal(t, c == 'i' ? H5T_NATIVE_INT : c == 'f' ? H5T_NATIVE_FLOAT : H5T_NATIVE_DOUBLE) > 0; }

void verifyFile(vh::Case &c, const std::string &file, const FileModel &want) {
  hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (!c.ok(f >= 0, "file-opens", file)) return;
  std::vector<std::string> names, expect;
  H5Literate(f, H5_INDEX_NAME, H5_ITER_INC, NULL, listName, &names);
  for (auto &d : want) expect.push_back(d.name);
  std::sort(names.begin(), names.end()); std::sort(expect.begin(), expect.end());
  c.check(names == expect, "dataset-names", [&](std::ostream &o) { o << "found"; for (auto &n : names) o << " '" << n << "'"; o << ", expected"; for (auto &n : expect) o << " '" << n << "'"; });
  for (auto &d : want) {
    hid_t ds = H5Dopen2(f, d.name.c_str(), H5P_DEFAULT);
    if (!c.ok(ds >= 0, "dataset-opens", d.name)) continue;
    hid_t sp = H5Dget_space(ds), ty = H5Dget_type(ds);
    c.ok(isType(ty, d.type), "dataset-type", d.name);
    int nd = H5Sget_simple_extent_ndims(sp);
    std::vector<hsize_t> dims(std::max(nd, 1));
    if (nd > 0) H5Sget_simple_extent_dims(sp, dims.data(), NULL);
    bool same = nd == int(d.dims.size());
    for (int i = 0; same && i < nd; ++i) same = long(dims[i]) == d.dims[i];
    if (c.check(same, "dataset-extent", [&](std::ostream &o) { o << d.name << " has extent"; for (auto x : dims) o << " " << x; o << ", expected"; for (auto x : d.dims) o << " " << x; })) {
      std::vector<double> v(d.values.size());
      herr_t e = H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
      c.ok(e >= 0, "dataset-reads", d.name);
      size_t i = 0; while (i < v.size() && v[i] == d.values[i]) ++i;
      c.events += long(i);
      c.check(i == v.size(), "dataset-values", [&](std::ostream &o) { o << d.name << " element " << i << " of " << v.size() << " is " << v[i] << ", expected " << d.values[i]; });
    }
    std::vector<std::string> an, ae; hsize_t n0 = 0;
    H5Aiterate2(ds, H5_INDEX_NAME, H5_ITER_INC, &n0, listAttr, &an);
    for (auto &a : d.atts) ae.push_back(a.name);
    std::sort(an.begin(), an.end()); std::sort(ae.begin(), ae.end());
    if (c.check(an == ae, "attribute-names", [&](std::ostream &o) { o << d.name << " has attributes"; for (auto &n : an) o << " " << n; o << ", expected"; for (auto &n : ae) o << " " << n; }))
      for (auto &a : d.atts) {
        hid_t at = H5Aopen(ds, a.name.c_str(), H5P_DEFAULT), as = H5Aget_space(at), t = H5Aget_type(at);
        c.ok(isType(t, a.type), "attribute-type", a.name);
        if (c.ok(H5Sget_simple_extent_npoints(as) == hssize_t(a.v.size()), "attribute-extent", a.name)) {
          std::vector<double> v(a.v.size()); H5Aread(at, H5T_NATIVE_DOUBLE, v.data());
          c.ok(v == a.v, "attribute-values", a.name);
        }
        H5Tclose(t); H5Sclose(as); H5Aclose(at);
      }
    H5Tclose(ty); H5Sclose(sp); H5Dclose(ds);
  }
  H5Fclose(f);
  c.count("verified-files"); c.count("verified-datasets", long(want.size()));
}
pHdfAttributes makeAttributes(vh::Rng &r, std::vector<Att> &model, AttStore &st) {
  pHdfAttributes a = std::make_shared<HdfAttributes>();
  int n = r.range(1, 4);
  st.i.resize(n); st.f.resize(n); st.d.resize(n);
  for (int k = 0; k < n; ++k) {
    Att m; m.name = "att" + std::to_string(k); int len = r.chance(1, 2) ? 1 : r.range(1, 5);
    for (int j = 0; j < len; ++j) m.v.push_back(r.range(-1000, 1000) + 0.0);
    bool ref = r.chance(1, 2);
    switch (r.range(0, 2)) {
      case 0: m.type = 'i'; st.i[k].assign(m.v.begin(), m.v.end()); if (ref) a->set(m.name, st.i[k][0], len); else a->set(m.name, (const int *)&st.i[k][0], len); break;
      case 1: m.type = 'f'; st.f[k].assign(m.v.begin(), m.v.end()); if (ref) a->set(m.name, st.f[k][0], len); else a->set(m.name, (const float *)&st.f[k][0], len); break;
      default: m.type = 'd'; st.d[k].assign(m.v.begin(), m.v.end()); if (ref) a->set(m.name, st.d[k][0], len); else a->set(m.name, (const double *)&st.d[k][0], len);
    }
    model.push_back(m);
  }
  return a;
}

int main(int argc, char **argv) {
  vm::Session s(argc, argv);
  int rc;
  {
    vh::Harness h(argc, argv, vm::Session::suffix());
    typedef Grid<double, 1> D1; typedef Grid<float, 2> F2; typedef Grid<double, 2> D2;
    vm::section(h, "stream-1", 25, 500, streams<D1, D1, 1>);
    vm::section(h, "stream-2", 30, 600, streams<D2, D2, 2>);
    vm::section(h, "stream-2f", 20, 300, streams<F2, F2, 2>);
    part2(h);
    part3(h);
    h.require("files", 50); h.require("reads", 50); h.require("unnamed", 10); h.require("read-by-number", 10); h.require("taken-over", 10); h.require("written-by-copy", 1); h.require("opened-by-constructor", 1); h.require("same-attributes", 1);
    rc = h.finish();
  }
  MPI_Finalize();
  return rc;
}
