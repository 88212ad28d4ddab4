// P13: merging of two files; P34: failed writes are reported.
#include "gen.h"
#include "gearxml/MergeXML.h"
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace gen;

struct Del { std::string p; ~Del() { unlink(p.c_str()); } };
static std::string path(Ctx& c, const char* n) { return c.scratch + fmt("/%s_%s_%ld.xml", n, c.workload.c_str(), c.idx); }
static std::unique_ptr<gear::GearMgr> read(const std::string& p) { gear::GearXML x(p); return std::unique_ptr<gear::GearMgr>(x.createGearMgr()); }

// ---- reference model of a merge ---------------------------------------------------------------
static const std::string* attr(const X& x, const std::string& n) { for (auto& k : x.a) if (k.first == n) return &k.second; return 0; }
static std::string key(const X& x) { const std::string* n = attr(x, "name"); return n ? "n:" + *n : "t:" + x.tag; }
struct Mismatch {};
static void mergeAttr(const X& rec, X& dom) { for (auto& k : rec.a) if (!attr(dom, k.first)) dom.a.push_back(k); }
static void mergeNode(const X& rec, X& dom) {
  std::map<std::string, int> occ;
  for (auto& k : rec.c) {
    std::string id = key(k); int r = 0, d = 0; for (auto& j : rec.c) r += key(j) == id; for (auto& j : dom.c) d += key(j) == id;
    if ((r > 1 || d > 1) && r != d) throw Mismatch();
    int o = ++occ[id]; X* m = 0; for (auto& j : dom.c) if (key(j) == id && --o == 0) { m = &j; break; }
    if (!m) { dom.c.push_back(k); continue; }
    mergeAttr(k, *m);
    if (attr(k, "name") && !k.c.empty()) mergeNode(k, *m);
  }
}
static X* sec(X& x, const char* n) { for (auto& k : x.c) if (k.tag == n) return &k; return 0; }
static X model(const X& rec0, const X& dom0) {
  X rec = rec0, dom = dom0;
  for (auto n : {"global", "BField", "detectors", "materials"}) {
    X *r = sec(rec, n), *d = sec(dom, n);
    if (!r) continue;
    if (!d) dom.c.push_back(*r); else { mergeAttr(*r, *d); mergeNode(*r, *d); }
  }
  return dom;
}
static X fromDom(const gear::TiXmlElement* e) {
  X x(e->Value()); for (const gear::TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next()) x.at(a->Name(), std::string(a->Value()));
  for (const gear::TiXmlNode* k = e->FirstChild(); k; k = k->NextSibling()) { if (k->ToText()) x.text += (x.text.empty() ? "" : " ") + std::string(k->Value()); else if (k->ToElement()) x.add(fromDom(k->ToElement())); }
  return x;
}
static std::string squeeze(const std::string& t) { std::string o; for (char ch : t) if (!isspace((unsigned char)ch)) o += ch; else if (!o.empty() && o.back() != ' ') o += ' '; while (!o.empty() && o.back() == ' ') o.pop_back(); return o; }
static void same(Ctx& c, const X& got, const X& want, const std::string& p) {
  std::string q = p + "/" + want.tag;
  if (!c.chk(got.tag == want.tag, "tag", "%s is %s", q.c_str(), got.tag.c_str())) return;
  std::map<std::string, std::string> a(got.a.begin(), got.a.end()), b(want.a.begin(), want.a.end());
  for (auto& k : b) if (c.chk(a.count(k.first), "attribute-lost", "%s@%s", q.c_str(), k.first.c_str())) c.chk(a[k.first] == k.second, "attribute-value", "%s@%s is '%s' expected '%s'", q.c_str(), k.first.c_str(), a[k.first].c_str(), k.second.c_str());
  c.chk(a.size() <= b.size(), "attribute-extra", "%s", q.c_str());
  c.eq(squeeze(got.text), squeeze(want.text), "text");
  std::map<std::string, std::vector<const X*>> g, w; for (auto& k : got.c) g[k.tag].push_back(&k); for (auto& k : want.c) w[k.tag].push_back(&k);
  for (auto& k : w) {
    if (!c.chk(g[k.first].size() == k.second.size(), "element-count", "%s/%s %zu instead of %zu", q.c_str(), k.first.c_str(), g[k.first].size(), k.second.size())) continue;
    for (size_t i = 0; i < k.second.size(); ++i) same(c, *g[k.first][i], *k.second[i], q);
  }
  for (auto& k : g) c.chk(k.second.empty() || w.count(k.first), "element-extra", "%s/%s", q.c_str(), k.first.c_str());
}
static std::string write(Ctx& c, const X& x, const char* n) { std::string p = path(c, n); bool old = xt::extraElements; xt::extraElements = false; xt::writeFile(p, xt::document(x, c.rng.chance(.3) ? 0 : &c.rng)); xt::extraElements = old; return p; }

// every detector, material, ... is in the one, the other or in both files: the merged file describes all of them
static void split(Ctx& c) {
  Spec s; make(c.rng, s, c.rng.chance(.5) ? ALL : (1 << c.rng.range(0, 9)) | (1 << c.rng.range(0, 9)), c.rng.chance(.5) ? .4 : .8);
  c.describe = s.desc; X full = s.document();
  { std::set<std::string> seen; for (auto& k : full.c) if (k.tag == "detectors") for (auto& j : k.c) if (!seen.insert(key(j)).second) { c.ev("skipped_equal_names"); return; } }
  X a("gear"), b("gear"); int both = 0, onlyA = 0, onlyB = 0;
  auto deal = [&](const X& x, X& p, X& q) { switch (c.rng.range(0, 2)) { case 0: p.add(x); ++onlyA; break; case 1: q.add(x); ++onlyB; break; default: p.add(x); q.add(x); ++both; } };
  for (auto& k : full.c) {
    if (k.tag == "detectors" || k.tag == "materials") {
      X p(k.tag), q(k.tag); for (auto& j : k.c) deal(j, p, q);
      if (k.tag == "detectors" || !p.c.empty() || c.rng.chance(.3)) a.add(p);
      if (k.tag == "detectors" || !q.c.empty() || c.rng.chance(.3)) b.add(q);
    } else deal(k, a, b);
  }
  std::string p1 = write(c, a, "sec"), p2 = write(c, b, "pri"), p3 = path(c, "out"), p0 = write(c, full, "full"); Del d0{p0}, d1{p1}, d2{p2}, d3{p3};
  gear::MergeXML m; int dom = c.rng.range(1, 2); if (dom == 1 || c.rng.chance(.3)) m.makeDominant(dom);
  if (!c.chk(m.setFile1(p1) && m.setFile2(p2), "set-files")) return;
  bool ok = false; std::string ex = thrown([&] { ok = m.mergeFiles(p3); });
  // a detector with repeated elements is equal in both files, so there is no mismatch
  if (!c.chk(ok && ex.empty(), "split-fails", "%d %s", ok, ex.c_str())) return;
  Facts got, want; ex = thrown([&] { want = snapshot(*read(p0)); }); if (!c.chk(ex.empty(), "full-unreadable", "%s", ex.c_str())) return;
  ex = thrown([&] { got = snapshot(*read(p3)); }); if (!c.chk(ex.empty(), "merged-unreadable", "%s", ex.c_str())) return;
  compare(c, got, want, 1e-13, "split");
  c.state(s.desc + fmt("/%d%d%d", onlyA, onlyB, both)); c.ev("elements_in_one_file", onlyA + onlyB); c.ev("elements_in_both_files", both);
}
MON_WORKLOAD_F("P13", "split", split, 800, 12000, LEAKCHECK)

static void mutate(Ctx& c, X& x, int depth = 0) {      // a similar document
  for (size_t i = 0; i < x.a.size();) {
    if (x.a[i].first != "name" && c.rng.chance(.1)) { x.a.erase(x.a.begin() + i); continue; }
    if (x.a[i].first != "name" && c.rng.chance(.2)) x.a[i].second = fmt("%d", c.rng.range(-50, 50));
    ++i;
  }
  if (c.rng.chance(.08)) x.at(fmt("extra%d", c.rng.range(0, 3)), c.rng.range(0, 9));
  for (size_t i = 0; i < x.c.size();) {
    size_t n = 0; for (auto& j : x.c) n += key(j) == key(x.c[i]);
    if (depth > 0 && c.rng.chance(n > 1 ? .01 : .08)) { x.c.erase(x.c.begin() + i); continue; }
    mutate(c, x.c[i], depth + 1); ++i;
  }
  if (depth == 2 && x.tag == "detector" && c.rng.chance(.15)) { X p("parameter"); p.at("name", fmt("new%d", c.rng.range(0, 3))).at("type", std::string("int")).at("value", c.rng.range(0, 99)); bool dup = false; for (auto& k : x.c) dup |= key(k) == key(p); if (!dup) x.add(p); }
}
static void general(Ctx& c) {
  Spec s; make(c.rng, s, c.rng.chance(.3) ? ALL : (1 << c.rng.range(0, 9)) | (1 << c.rng.range(0, 9)), .6);
  X a = s.document(), b = a; c.describe = s.desc;
  if (c.rng.chance(.8)) mutate(c, a);
  if (c.rng.chance(.8)) mutate(c, b);
  std::string p1 = write(c, a, "sec"), p2 = write(c, b, "pri"), p3 = path(c, "out"); Del d1{p1}, d2{p2}, d3{p3};
  gear::MergeXML m;
  int rounds = c.rng.range(1, 3); std::string sig;
  for (int i = 0; i < rounds; ++i) {     // one object used several times
    if (i == 0 || c.rng.chance(.3)) { if (!c.chk(m.setFile1(p1) && m.setFile2(p2), "set-files")) return; }
    int dom = 2; static const std::vector<int> odd = {0, 3, -1};
    if (c.rng.chance(.6) || i) { dom = c.rng.range(1, 2); m.makeDominant(dom); }
    if (c.rng.chance(.1)) m.makeDominant(c.rng.pick(odd));      // ignored
    X want; bool mismatch = false; try { want = dom == 2 ? model(a, b) : model(b, a); } catch (Mismatch&) { mismatch = true; }
    unlink(p3.c_str()); bool ok = false; std::string ex = thrown([&] { ok = m.mergeFiles(p3); });
    if (mismatch) { c.chk(isGearException(ex), "mismatch-accepted", "%d %s", ok, ex.c_str()); c.ev("mismatches"); sig += 'm'; continue; }
    if (!c.chk(ok && ex.empty(), "merge-fails", "%d %s", ok, ex.c_str())) return;
    gear::TiXmlDocument d; if (!c.chk(d.LoadFile(p3) && d.RootElement(), "merged-unreadable")) return;
    same(c, fromDom(d.RootElement()), want, ""); c.ev("merges"); sig += char('0' + dom);
  }
  c.state(s.desc + sig);
}
MON_WORKLOAD_F("P13", "general", general, 1200, 20000, LEAKCHECK)

static void notGear(Ctx& c) {
  Spec s; make(c.rng, s, GLOBAL | MAT | GENERIC | FIELD, .7); X a = s.document(), b = a; X& v = c.rng.chance(.5) ? a : b;
  switch (c.rng.range(0, 2)) { case 0: v.tag = "geer"; break; case 1: for (size_t i = 0; i < v.c.size(); ++i) if (v.c[i].tag == "detectors") { v.c.erase(v.c.begin() + i); break; } break; default: v = X("html"); }
  std::string p1 = write(c, a, "sec"), p2 = write(c, b, "pri"), p3 = path(c, "out"); Del d1{p1}, d2{p2}, d3{p3};
  gear::MergeXML m; bool ok = true;
  if (c.rng.chance(.2)) { std::string ex = thrown([&] { ok = m.mergeFiles(p3); }); c.chk(!ok && (ex.empty() || isGearException(ex)), "no-files-accepted"); }
  c.chk(!m.setFile1(p3) && !m.setFile2(c.scratch + "/nosuch/file.xml"), "missing-file-accepted");
  if (!c.chk(m.setFile1(p1) && m.setFile2(p2), "set-files")) return;
  std::string ex = thrown([&] { ok = m.mergeFiles(p3); });
  c.chk(!ok || isGearException(ex), "no-gear-accepted"); c.chk(access(p3.c_str(), F_OK) != 0, "no-gear-written");
  // a file cut off before its end: reported when it is set, and never merged as far as it goes
  { Spec t; make(c.rng, t, ALL, .4); std::string text = xt::document(t.document(), (mon::Rng*)0), cut = path(c, "cut"), ref = path(c, "ref"); Del d4{cut}, d5{ref}; xt::writeFile(ref, text);
    size_t end = text.rfind("</gear"); if (end != std::string::npos) {
      xt::writeFile(cut, text.substr(0, c.rng.chance(.3) ? end : c.rng.range(1, (int)end))); gear::MergeXML n; bool one = c.rng.chance(.5), reuse = c.rng.chance(.3);
      if (reuse) { c.chk(n.setFile1(ref) && n.setFile2(ref), "set-files"); }
      bool okCut = one ? n.setFile1(cut) : n.setFile2(cut), okRef = one ? n.setFile2(ref) : n.setFile1(ref); c.chk(!okCut && okRef, "truncated-accepted", "%d %d", okCut, okRef);
      if (c.rng.chance(.5)) n.makeDominant(c.rng.range(1, 2));
      unlink(p3.c_str()); ok = true; ex = thrown([&] { ok = n.mergeFiles(p3); }); c.chk(!ok || isGearException(ex), "truncated-merged"); c.chk(access(p3.c_str(), F_OK) != 0, "truncated-written");
      c.chk(one ? n.setFile1(ref) : n.setFile2(ref), "set-files"); ok = false; ex = thrown([&] { ok = n.mergeFiles(p3); }); c.chk(ok && ex.empty(), "merge-after-truncated", "%s", ex.c_str());
    } }
  c.ev("refused"); c.state(s.desc);
}
MON_WORKLOAD_F("P13", "not_gear", notGear, 300, 3000, LEAKCHECK)

// ---- P34 --------------------------------------------------------------------------------------
struct Limit {       // every write beyond n bytes of a file fails
  rlimit old; Limit(size_t n) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); rlimit l = old; l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }
  ~Limit() { setrlimit(RLIMIT_FSIZE, &old); }
};
static void fault(Ctx& c) {
  Spec s; make(c.rng, s, c.rng.chance(.3) ? ALL : (1 << c.rng.range(0, 9)), .6); c.describe = s.desc;
  std::string p = path(c, "ok"), q = path(c, "bad"); Del d1{p}, d2{q};
  std::string ex = thrown([&] { gear::GearXML::createXMLFile(s.mgr.get(), p); }); if (!c.chk(ex.empty(), "good-write", "%s", ex.c_str())) return;
  std::string text = xt::readFile(p); size_t n = text.size(); if (!c.chk(n > 0, "good-write-empty")) return;
  gear::TiXmlDocument doc; if (!c.chk(doc.LoadFile(p), "good-read")) return;
  gear::MergeXML m; if (!c.chk(m.setFile1(p) && m.setFile2(p), "set-files")) return;
  std::string target = q; long lim = -1;
  switch (c.rng.range(0, 6)) {
    case 0: target = "/dev/full"; break;
    case 1: target = c.scratch + "/no/such/dir/f.xml"; break;
    case 2: target = c.scratch; break;
    case 3: lim = (long)n - c.rng.range(1, 3); break;
    case 4: lim = 0; break;
    default: lim = c.rng.range(0, n - 1); }
  struct stat st; bool full = target == "/dev/full"; if (full && (stat("/dev/full", &st) || !S_ISCHR(st.st_mode))) { target = q; lim = 0; }
  const char* kind = lim >= 0 ? "size limit" : full ? "device full" : "not writable";
  bool ok = true;
  { std::unique_ptr<Limit> l; if (lim >= 0) l.reset(new Limit(lim)); ex = thrown([&] { gear::GearXML::createXMLFile(s.mgr.get(), target); }); }
  c.chk(isGearException(ex), "createXMLFile-silent", "%s after %ld of %zu bytes: '%s'", kind, lim, n, ex.c_str());
  gear::TiXmlDocument& dd = doc; long lim2 = lim; size_t size2 = 0;
  { std::string o = path(c, "o"); Del d{o}; if (!c.chk(dd.SaveFile(o), "SaveFile-good")) return; size2 = xt::readFile(o).size(); if (lim >= 0) lim2 = std::min<long>(lim, (long)size2 - 1); }
  { std::unique_ptr<Limit> l; if (lim2 >= 0) l.reset(new Limit(lim2)); ex = thrown([&] { ok = dd.SaveFile(target); }); }
  c.chk(!ok && ex.empty(), "SaveFile-silent", "%s after %ld of %zu bytes", kind, lim2, size2);
  ok = true; { std::unique_ptr<Limit> l; if (lim2 >= 0) l.reset(new Limit(std::max(0L, lim2 - 10))); ex = thrown([&] { ok = m.mergeFiles(target); }); }
  c.chk(!ok || isGearException(ex), "merge-silent", "%s", kind);
  // afterwards the same file can be written, with the same contents; a limit that is not reached does not matter
  { Limit l(n + c.rng.range(0, 100)); ex = thrown([&] { gear::GearXML::createXMLFile(s.mgr.get(), q); }); }
  c.chk(ex.empty() && xt::readFile(q) == text, "write-after-fault", "%s", ex.c_str());
  c.ev(std::string("fault_") + (lim >= 0 ? "size_limit" : full ? "device_full" : "not_writable"), 3); c.state(fmt("%s/%ld", kind, lim));
}
MON_WORKLOAD("P34", "fault", fault, 6400, 64000)
