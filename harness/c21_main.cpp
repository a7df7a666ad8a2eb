// C21: every work referred to is listed exactly once, with all the information given.
#include "common.hpp"
#include "tools/literature.hpp"
#include <sstream>
using namespace schnek;
typedef std::map<std::string, std::string> Fields;
struct Ref { std::string key, type; Fields f; std::set<std::string> descriptions; };

static std::string word(vh::Rng &r, bool allowEmpty) {
  if (allowEmpty && r.chance(1, 3)) return "";
  static const char *parts[] = {"Maxwell", "of", "the", "finite", "difference", "{C}++", "K. Yee and", "226", "151--164", "Phys.", "\\\"Ozg\\\"ur", "a,b", "x=y", "{nested {group}}", "\xc3\xa9t\xc3\xa9", "'", "@", "#", "100\\%"};
  std::string s; int n = r.range(1, 4);
  for (int i = 0; i < n; ++i) { if (i) s += " "; s += parts[r.range(0, 18)]; }
  if (r.chance(1, 25)) for (int i = r.range(30, 300); i; --i) { s += " "; s += parts[r.range(0, 18)]; }      // an abstract in a note
  s += " n" + std::to_string(r.range(0, 999999));
  return s;
}

// Builds the reference with one of the classes; F records what was said about the work under which name.
static LiteratureReference make(vh::Rng &r, const std::string &key, std::string &type, Fields &F) {
  auto v = [&](const char *name) { std::string s = word(r, true); if (!s.empty()) F[name] = s; return s; };
  auto q = [&](const char *name) { std::string s = word(r, false); F[name] = s; return s; };
  switch (r.range(0, 13)) {
    case 0: { type = "article"; auto a = q("author"), t = q("title"), j = q("journal"), y = q("year"), vo = v("volume"), p = v("pages"), n = v("number"), m = v("month"), no = v("note"), k = v("key");
      return LiteratureArticle(key, a, t, j, y, vo, p, n, m, no, k); }
    case 1: { type = "book"; auto a = q("author"), e = q("editor"), t = q("title"), p = q("publisher"), y = q("year"), vo = v("volume"), n = v("number"), s = v("series"), ad = v("address"), ed = v("edition"), m = v("month"), no = v("note"), k = v("key");
      return LiteratureBook(key, a, e, t, p, y, vo, n, s, ad, ed, m, no, k); }
    case 2: { type = "booklet"; auto t = q("title"), a = v("author"), h = v("howpublished"), ad = v("address"), m = v("month"), y = v("year"), no = v("note"), k = v("key");
      return LiteratureBooklet(key, t, a, h, ad, m, y, no, k); }
    case 3: { type = "inbook"; auto a = q("author"), e = q("editor"), t = q("title"), ch = q("chapter"), pg = q("pages"), p = q("publisher"), y = q("year"), vo = v("volume"), n = v("number"), s = v("series"), ty = v("type"), ad = v("address"), ed = v("edition"), m = v("month"), no = v("note"), k = v("key");
      return LiteratureInBook(key, a, e, t, ch, pg, p, y, vo, n, s, ty, ad, ed, m, no, k); }
    case 4: { type = "incollection"; auto a = q("author"), t = q("title"), b = q("booktitle"), p = q("publisher"), y = q("year"), e = v("editor"), vo = v("volume"), n = v("number"), s = v("series"), ty = v("type"), ch = v("chapter"), pg = v("pages"), ad = v("address"), ed = v("edition"), m = v("month"), no = v("note"), k = v("key");
      return LiteratureInCollection(key, a, t, b, p, y, e, vo, n, s, ty, ch, pg, ad, ed, m, no, k); }
    case 5: { type = "inproceedings"; auto a = q("author"), t = q("title"), b = q("booktitle"), y = q("year"), e = v("editor"), vo = v("volume"), n = v("number"), s = v("series"), pg = v("pages"), ad = v("address"), m = v("month"), o = v("organization"), p = v("publisher"), no = v("note"), k = v("key");
      return LiteratureInProceedings(key, a, t, b, y, e, vo, n, s, pg, ad, m, o, p, no, k); }
    case 6: { type = "manual"; auto t = q("title"), a = v("author"), o = v("organization"), ad = v("address"), ed = v("edition"), y = v("year"), p = v("publisher"), no = v("note"), k = v("key");
      return LiteratureManual(key, t, a, o, ad, ed, y, p, no, k); }
    case 7: { type = "mastersthesis"; auto a = q("author"), t = q("title"), s = q("school"), y = q("year"), ty = v("type"), ad = v("address"), m = v("month"), no = v("note"), k = v("key");
      return LiteratureMastersThesis(key, a, t, s, y, ty, ad, m, no, k); }
    case 8: { type = "misc"; auto a = q("author"), t = q("title"), h = v("howpublished"), m = v("month"), y = v("year"), no = v("note"), k = v("key");
      return LiteratureMisc(key, a, t, h, m, y, no, k); }
    case 9: { type = "phdthesis"; auto a = q("author"), t = q("title"), s = q("school"), y = q("year"), ty = v("type"), ad = v("address"), m = v("month"), no = v("note"), k = v("key");
      return LiteraturePhdThesis(key, a, t, s, y, ty, ad, m, no, k); }
    case 10: { type = "proceedings"; auto t = q("title"), y = q("year"), e = v("editor"), vo = v("volume"), n = v("number"), s = v("series"), ad = v("address"), m = v("month"), o = v("organization"), p = v("publisher"), no = v("note"), k = v("key");
      return LiteratureProceedings(key, t, y, e, vo, n, s, ad, m, o, p, no, k); }
    case 11: { type = "techreport"; auto a = q("author"), t = q("title"), i = q("institution"), y = q("year"), ty = v("type"), n = v("number"), ad = v("address"), m = v("month"), no = v("note"), k = v("key");
      return LiteratureTechReport(key, a, t, i, y, ty, n, ad, m, no, k); }
    case 12: { type = "unpublished"; auto a = q("author"), t = q("title"), no = q("note"), y = q("year"), m = v("month"), k = v("key");
      return LiteratureUnpublished(key, a, t, no, y, m, k); }
    default: {
      LiteratureReference ref(key);
      static const std::pair<LiteratureReference::PublicationType, const char *> kinds[] = {{LiteratureReference::article, "article"}, {LiteratureReference::book, "book"}, {LiteratureReference::techreport, "techreport"}, {LiteratureReference::unpublished, "unpublished"}, {LiteratureReference::proceedings, "proceedings"}};
      auto &k = kinds[r.range(0, 4)]; ref.setPublicationType(k.first); type = k.second;
      ref.setTitle(q("title"));
      return ref;
    }
  }
}
// the setters, applied to any kind of reference
static void extra(vh::Rng &r, LiteratureReference &ref, Fields &F) {
  typedef void (LiteratureReference::*Set)(std::string); typedef std::string (LiteratureReference::*Get)() const;
  static const struct { const char *n; Set s; Get g; } all[] = {
#define FIELD(x, X) {#x, &LiteratureReference::set##X, &LiteratureReference::get##X}
    FIELD(address, Address), FIELD(annote, Annote), FIELD(author, Author), FIELD(booktitle, Booktitle), FIELD(chapter, Chapter), FIELD(crossref, Crossref), FIELD(edition, Edition), FIELD(editor, Editor), FIELD(eprint, Eprint),
    FIELD(howpublished, Howpublished), FIELD(institution, Institution), FIELD(journal, Journal), FIELD(key, Key), FIELD(month, Month), FIELD(note, Note), FIELD(number, Number), FIELD(organization, Organization), FIELD(pages, Pages),
    FIELD(publisher, Publisher), FIELD(school, School), FIELD(series, Series), FIELD(title, Title), FIELD(type, Type), FIELD(url, Url), FIELD(doi, Doi), FIELD(volume, Volume), FIELD(year, Year)};
  int n = r.range(0, 6);
  for (int i = 0; i < n; ++i) {
    auto &a = all[r.range(0, 26)]; std::string v = word(r, true);
    (ref.*a.s)(v);
    if (v.empty()) F.erase(a.n); else F[a.n] = v;
  }
}

// an independent reader of the BibTeX that was written
struct Entry { std::string type, key; std::vector<std::pair<std::string, std::string>> f; };
static bool readBib(const std::string &s, std::vector<Entry> &out, std::string &why) {
  size_t i = 0;
  auto ws = [&] { while (i < s.size() && isspace((unsigned char)s[i])) ++i; };
  for (ws(); i < s.size(); ws()) {
    if (s[i] != '@') { why = "no @ at " + std::to_string(i); return false; }
    Entry e; ++i;
    while (i < s.size() && isalpha((unsigned char)s[i])) e.type += s[i++];
    ws(); if (i >= s.size() || s[i] != '{') { why = "no { after type " + e.type; return false; } ++i; ws();
    while (i < s.size() && s[i] != ',' && s[i] != '}' && !isspace((unsigned char)s[i])) e.key += s[i++];
    ws();
    while (i < s.size() && s[i] == ',') {
      ++i; ws(); if (i < s.size() && s[i] == '}') break;
      std::string n, v; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) n += s[i++];
      ws(); if (i >= s.size() || s[i] != '=') { why = "no = after " + n; return false; } ++i; ws();
      if (i >= s.size() || s[i] != '{') { why = "no value for " + n; return false; } ++i;
      int depth = 1; while (i < s.size()) { if (s[i] == '{') ++depth; if (s[i] == '}' && --depth == 0) break; v += s[i++]; }
      if (i >= s.size()) { why = "value of " + n + " not closed"; return false; } ++i; ws();
      e.f.push_back({n, v});
    }
    if (i >= s.size() || s[i] != '}') { why = "entry " + e.key + " not closed"; return false; } ++i;
    out.push_back(e);
  }
  return true;
}

static std::map<std::string, Ref> known;       // the manager is a singleton: the model lives as long

static void compareEntry(vh::Case &c, const Entry &e, const Ref &m) {
  c.check(e.type == m.type, "type", [&](std::ostream &o) { o << e.key << " written as " << e.type << ", is " << m.type; });
  Fields got; for (auto &f : e.f) { c.check(!got.count(f.first), "field-twice", [&](std::ostream &o) { o << f.first << " of " << e.key; }); got[f.first] = f.second; }
  for (auto &f : m.f) c.check(got.count(f.first) && got[f.first] == f.second, "field", [&](std::ostream &o) { o << m.type << " " << e.key << ": " << f.first << " given as '" << f.second << "', written as '" << (got.count(f.first) ? got[f.first] : "(missing)") << "'"; });
  for (auto &f : got) c.check(m.f.count(f.first), "field-not-given", [&](std::ostream &o) { o << m.type << " " << e.key << ": " << f.first << " = '" << f.second << "' was never given"; });
}
static void outputs(vh::Case &c) {
  LiteratureManager &M = LiteratureManager::instance();
  std::ostringstream bib, tex; M.writeBibTex(bib);
  std::vector<Entry> es; std::string why;
  if (c.check(readBib(bib.str(), es, why), "bibtex-syntax", [&](std::ostream &o) { o << why << " in\n" << bib.str().substr(0, 1500); })) {
    std::set<std::string> seen;
    for (auto &e : es) {
      c.check(seen.insert(e.key).second, "listed-twice", [&](std::ostream &o) { o << e.key; });
      auto it = known.find(e.key);
      if (!c.check(it != known.end(), "never-referenced", [&](std::ostream &o) { o << "'" << e.key << "'"; })) continue;
      if (e.key != "Schmitz2018") compareEntry(c, e, it->second);
      else { std::set<std::string> have; for (auto &f : e.f) if (!f.second.empty()) c.check(have.insert(f.first).second, "field-twice", [&](std::ostream &o) { o << f.first << " of " << e.key; });
        c.check(e.type == "article" && have.count("author") && have.count("title") && have.count("journal") && have.count("year") && have.count("volume") && have.count("pages") && have.count("url"), "own-entry", [&](std::ostream &o) { o << "the entry of the library itself is incomplete"; }); }
    }
    for (auto &k : known) c.check(seen.count(k.first), "not-listed", [&](std::ostream &o) { o << k.first; });
  }
  // the report: every work cited once, under its descriptions
  std::string bf = "refs" + std::to_string(c.rng.range(0, 99)); M.writeInformation(tex, bf);
  std::string t = tex.str(), body;
  c.check(t.find("\\bibliography{" + bf + "}") != std::string::npos, "bibliography-name", [&](std::ostream &o) { o << t.substr(t.size() - std::min<size_t>(t.size(), 200)); });
  c.check(t.find(M.getTitle()) != std::string::npos && t.find(M.getSubtitle()) != std::string::npos, "report-title", [&](std::ostream &o) { o << t.substr(0, 300); });
  size_t b = t.find("\\begin{itemize}"), e = t.find("\\end{itemize}");
  if (!c.ok(b != std::string::npos && e != std::string::npos && b < e, "report-list")) return;
  body = t.substr(b + 15, e - b - 15);
  std::map<std::string, std::string> items; size_t p = body.find("\\item ");
  while (p != std::string::npos) {
    size_t n = body.find("\\item ", p + 1); std::string it = body.substr(p + 6, n == std::string::npos ? std::string::npos : n - p - 6);
    size_t ct = it.find("\\cite{"), ce = it.find("}", ct);
    if (c.check(ct != std::string::npos && ce != std::string::npos, "report-item", [&](std::ostream &o) { o << it; })) {
      std::string k = it.substr(ct + 6, ce - ct - 6);
      c.check(items.insert({k, it.substr(0, ct)}).second, "cited-twice", [&](std::ostream &o) { o << k; });
    }
    p = n;
  }
  for (auto &k : known) {
    if (!c.check(items.count(k.first), "not-cited", [&](std::ostream &o) { o << k.first; })) continue;
    std::multiset<std::string> lines; std::istringstream is(items[k.first]); std::string l; while (std::getline(is, l)) if (!l.empty()) lines.insert(l);
    c.check(lines == std::multiset<std::string>(k.second.descriptions.begin(), k.second.descriptions.end()), "descriptions", [&](std::ostream &o) { o << k.first << " is described as\n" << items[k.first]; });
  }
  for (auto &i : items) c.check(known.count(i.first), "cited-never-referenced", [&](std::ostream &o) { o << i.first; });
  c.count("entries", long(es.size())); c.count("items", long(items.size()));
}

static void history(vh::Case &c, int round) {
  vh::Rng &r = c.rng;
  if (known.empty()) { Ref s; s.key = "Schmitz2018"; s.type = "article"; s.descriptions.insert("Parallel simulation framework based on the Schnek Library"); known[s.key] = s; }
  LiteratureManager &M = LiteratureManager::instance();
  c.ok(&M == &LiteratureManager::instance(), "one-manager");
  int n = r.chance(1, 25) ? r.range(40, 120) : r.range(1, 5);
  if (n > 5) c.count("many-works");
  for (int i = 0; i < n; ++i) {
    std::string key; bool old = known.size() > 1 && r.chance(1, 3);
    if (old) { auto it = known.begin(); std::advance(it, r.range(0, int(known.size()) - 1)); key = it->first; }
    else key = std::string(1, char('A' + r.range(0, 25))) + (r.chance(1, 2) ? ":" : "") + std::to_string(round) + (r.chance(1, 20) ? std::string(r.range(20, 150), 'k') : "-") + "-" + std::to_string(i);
    std::string type; Fields F; LiteratureReference ref = make(r, key, type, F); extra(r, ref, F);
    LiteratureReference copy(ref), assigned; assigned = copy;
    std::string d = r.chance(1, 4) && old ? *known[key].descriptions.begin() : r.chance(1, 8) ? std::string(1, char(65 + r.range(0, 25))) : "Method " + word(r, false) + " " + std::to_string(r.range(0, 999));
    c.desc << key << ":" << type << ":" << F.size() << ":" << d << ";"; c.crumb(c.desc.str());
    // a single reference can be printed as well
    std::ostringstream o; o << (r.chance(1, 2) ? copy : assigned); std::vector<Entry> es; std::string why;
    Ref m; m.key = key; m.type = type; m.f = F;
    if (c.check(readBib(o.str(), es, why) && es.size() == 1 && es[0].key == key, "print", [&](std::ostream &e) { e << why << " " << o.str(); })) compareEntry(c, es[0], m);
    M.addReference(d, r.chance(1, 2) ? assigned : ref);
    if (!known.count(key)) { known[key] = m; c.count("new"); } else c.count("again");    // the first record of a work stays
    known[key].descriptions.insert(d);
  }
  if (r.chance(1, 6)) M.setTitle("T" + word(r, false)); if (r.chance(1, 6)) M.setSubtitle("S" + word(r, false));
  outputs(c);
}

int main(int argc, char **argv) {
  vh::Harness h(argc, argv);
  // The manager lives as long as the process, so a case is one whole history of it, in a process of its own.
  h.section("history", 120, 3000, [&](vh::Case &c) {
    int fd[2]; if (pipe(fd)) abort();
    pid_t p = fork();
    if (p == 0) {
      close(fd[0]);
      h.counters.clear(); h.viols.clear();
      int rounds = c.rng.range(1, 6);
      for (int i = 0; i < rounds; ++i) history(c, i);
      std::ostringstream o; o << c.events << "\n";
      for (auto &k : h.counters) o << "C " << k.second << " " << k.first << "\n";
      o << "D " << vh::jesc(c.desc.str()) << "\n";
      for (auto &v : h.viols) o << "V " << v.key << " " << vh::jesc(v.msg) << "\n";
      std::string t = o.str(); size_t done = 0;
      while (done < t.size()) { ssize_t n = write(fd[1], t.data() + done, t.size() - done); if (n <= 0) break; done += n; }
      close(fd[1]); _exit(0);
    }
    close(fd[1]);
    std::string t; char buf[65536]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) t.append(buf, n);
    close(fd[0]); int st = 0; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { c.fail("crash", "the process of this history ended with status " + std::to_string(st)); return; }
    std::istringstream is(t); std::string l; std::getline(is, l); c.events += atol(l.c_str());
    while (std::getline(is, l)) {
      if (l[0] == 'C') { std::istringstream q(l.substr(2)); long k; std::string name; q >> k; q.get(); std::getline(q, name); c.count(name, k); }
      else if (l[0] == 'D') c.desc << l.substr(2);
      else if (l[0] == 'V') { size_t s = l.find(' ', 2); c.fail(l.substr(2, s - 2), l.substr(s + 1)); }
    }
  });
  h.require("entries", 500); h.require("new", 100); h.require("again", 40);
  return h.finish();
}
