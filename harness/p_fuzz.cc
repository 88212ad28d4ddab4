// P11: hostile documents: reading ends with a description or a GEAR exception, never with a memory error, hang or foreign exception.
#include "gen.h"
#include "gearxml/MergeXML.h"
#include <unistd.h>
#include <regex>
using namespace gen;
struct Del { std::string p; ~Del() { unlink(p.c_str()); } };

// counts decide how much is built: they are kept small, everything else is free
static std::string capCounts(const std::string& s) {
  static const std::regex re("((?:repeat|repeatRows|nPad|nRow|nPadsInRow|maxRow|nLadders|nPetals|nSensors|number|symmetry|numberOfRows)\\s*=\\s*[\"'])([^\"'<>]*)");
  std::string o; auto it = std::sregex_iterator(s.begin(), s.end(), re); size_t last = 0;
  for (; it != std::sregex_iterator(); ++it) {
    std::string v = (*it)[2]; o += s.substr(last, it->position() - last) + (*it)[1].str(); last = it->position() + it->length();
    long n = strtol(v.c_str(), 0, 10); if (n > 300 || v.find("&") != std::string::npos) v = "300"; o += v;
  }
  o += s.substr(last);
  return o;
}
static const std::vector<std::string>& tokens() {
  static const std::vector<std::string> t = {"<", ">", "/>", "</", "\"", "'", "&", ";", "&#", "&#x", "&#xFFFFFFFFFFFF;", "&#0;", "&lt;", "<!--", "-->", "<!", "<?", "?>", "<?xml", "<![CDATA[", "]]>", "=", " ", "\n", "\0", "\xEF\xBB\xBF", "\xEF\xBF\xBE", "\xFF", "\xC3", "\xF0\x9F", "\x80", "0", "-1", "1e400", "nan", "inf",
    "<gear>", "</gear>", "<detectors>", "<detector>", "</detector>", "<detector name=\"x\" geartype=\"TPCParameters\">", "<parameter>", "<parameter name=\"a\" type=\"int\"/>", "<layer/>", "<layers/>", "<global/>", "<materials><material/></materials>", "<BField/>", "name=\"\"", "geartype=\"GearParameters\"", "value=\"\"", "type=\"IntVec\""};
  return t;
}
static std::string number(Rng& r) {
  static const std::vector<std::string> t = {"0", "-0", "-1", "1", "0.5", "", " ", "abc", "1e308", "-1e308", "1e-308", "1e400", "nan", "-nan", "inf", "-inf", "2147483647", "-2147483648", "2147483648", "99999999999999999999", "0x10", "1,5", "+", "3.14159265358979", "6.283185307179586", "7", "-7", "1e-30", "1e30"};
  return r.pick(t);
}
static bool readOne(Ctx& c, const std::string& text, const char* what) {
  std::string p = c.scratch + fmt("/fz_%s_%ld.xml", c.workload.c_str(), c.idx); Del del{p}; xt::writeFile(p, text);
  std::unique_ptr<gear::GearMgr> m; std::string ex = thrown([&] { gear::GearXML x(p); m.reset(x.createGearMgr()); });
  if (!c.chk(ex.empty() || isGearException(ex), "foreign-exception", "%s", ex.c_str()) && c.verbose) fprintf(stderr, "%s\n", text.c_str());
  if (ex.empty()) c.chk(m.get() != 0, "no-manager");
  c.ev(std::string(what) + (ex.empty() ? "_accepted" : "_refused"));
  return ex.empty();
}
static std::string base(Ctx& c, X* x = 0) {
  Spec s; int parts = c.rng.chance(.15) ? ALL : 1 << c.rng.range(0, 9) | (c.rng.chance(.3) ? 1 << c.rng.range(0, 9) : 0);
  make(c.rng, s, parts, parts == ALL ? .3 : 1); c.describe = s.desc; X d = s.document(); if (x) *x = d; return xt::document(d, c.rng.chance(.5) ? &c.rng : 0);
}
static void bytes(Ctx& c) {
  std::string s = base(c); std::string sig;
  int n = c.rng.chance(.5) ? 1 : c.rng.range(1, 12);
  for (int i = 0; i < n && !s.empty(); ++i) {
    size_t p = c.rng.range(0, s.size() - 1); size_t q = std::min(s.size() - p, (size_t)c.rng.range(1, c.rng.chance(.7) ? 8 : 400)); int k = c.rng.range(0, 7); sig += char('a' + k);
    switch (k) {
      case 0: s[p] ^= 1 << c.rng.range(0, 7); break;
      case 1: s[p] = (char)c.rng.range(0, 255); break;
      case 2: s.erase(p, q); break;
      case 3: s.insert(p, c.rng.pick(tokens())); break;
      case 4: s.insert(p, s.substr(c.rng.range(0, s.size() - 1), q)); break;
      case 5: s.resize(p); break;
      case 6: { size_t o = c.rng.range(0, s.size() - 1); std::string a = s.substr(o, q); s.replace(p, q, a); } break;
      case 7: { size_t t = s.find_first_of("<>\"'&=/", p); if (t != std::string::npos) s.erase(t, 1); } break;
    }
  }
  bool ok = readOne(c, capCounts(s), "bytes"); c.state(sig + (ok ? "+" : "-") + fmt("%zu", s.size() / 200));
}
MON_WORKLOAD("P11", "bytes", bytes, 20000, 300000)

struct Ref { X* x; };
static void all(X& x, std::vector<X*>& v) { v.push_back(&x); for (auto& k : x.c) all(k, v); }
static void structure(Ctx& c) {
  X d; base(c, &d); std::string sig; int n = c.rng.chance(.6) ? 1 : c.rng.range(1, 6);
  for (int i = 0; i < n; ++i) {
    std::vector<X*> v; all(d, v); X& x = *c.rng.pick(v); X y = *c.rng.pick(v); int k = c.rng.range(0, 9); sig += char('a' + k);
    switch (k) {
      case 0: if (!x.a.empty()) x.a.erase(x.a.begin() + c.rng.range(0, x.a.size() - 1)); break;
      case 1: if (!x.c.empty()) x.c.erase(x.c.begin() + c.rng.range(0, x.c.size() - 1)); break;
      case 2: if (!x.a.empty()) x.a[c.rng.range(0, x.a.size() - 1)].second = number(c.rng); break;
      case 3: {   // every kind of attribute alike, however rare
        std::map<std::string, std::vector<std::string*>> by; for (auto* e : v) for (auto& q : e->a) by[e->tag + "@" + q.first].push_back(&q.second);
        if (!by.empty()) { auto it = by.begin(); std::advance(it, c.rng.range(0, by.size() - 1)); *c.rng.pick(it->second) = number(c.rng); } break; }
      case 4: x.c.insert(x.c.begin() + c.rng.range(0, x.c.size()), y); break;
      case 5: if (!x.a.empty() && !y.a.empty()) x.a[c.rng.range(0, x.a.size() - 1)].second = c.rng.pick(y.a).second; break;
      case 6: x.tag = y.tag; break;
      case 7: x.text = c.rng.chance(.5) ? number(c.rng) : c.rng.pick(tokens()); break;
      case 8: if (!x.c.empty()) x.c.clear(); break;
      case 9: if (!y.a.empty()) { auto& p = c.rng.pick(y.a); bool dup = false; for (auto& j : x.a) dup |= j.first == p.first; if (!dup) x.a.push_back(p); } break;
    }
    std::vector<X*> w; all(d, w); if (w.size() > 3000) return;
  }
  bool ok = readOne(c, capCounts(xt::document(d, c.rng.chance(.5) ? &c.rng : 0)), "structure"); c.state(sig + (ok ? "+" : "-") + c.describe.substr(0, 20));
}
MON_WORKLOAD("P11", "structure", structure, 30000, 400000)

// every truncation of one document
static void cut(Ctx& c) {
  std::string s; int tries = 0; do { s = base(c); } while (s.size() > 6000 && ++tries < 50); size_t lo = s.size() > 1500 ? c.rng.range(0, s.size() - 1500) : 0, hi = std::min(s.size(), lo + 1500); bool any = false;
  std::string p = c.scratch + fmt("/cut_%ld.xml", c.idx); Del del{p};
  for (size_t i = lo; i < hi; i += c.rng.range(1, 3)) {
    xt::writeFile(p, s.substr(0, i)); std::string ex = thrown([&] { gear::GearXML x(p); std::unique_ptr<gear::GearMgr> m(x.createGearMgr()); any = true; });
    c.chk(ex.empty() || isGearException(ex), "cut-foreign-exception", "%s at %zu", ex.c_str(), i);
    size_t end = s.rfind("</gear"); if (i < end && end != std::string::npos) c.chk(isGearException(ex), "cut-accepted", "%zu of %zu bytes", i, s.size());
    c.ev("cuts");
  }
  c.state(fmt("%zu", s.size()));
}
MON_WORKLOAD("P11", "cut", cut, 150, 2500)

static void noise(Ctx& c) {
  std::string s; int n = c.rng.range(0, 60); for (int i = 0; i < n; ++i) s += c.rng.chance(.8) ? c.rng.pick(tokens()) : std::string(1, (char)c.rng.range(0, 255));
  if (c.rng.chance(.5)) s = "<gear><detectors>" + s + "</detectors></gear>";
  bool ok = readOne(c, capCounts(s), "noise"); c.state(fmt("%d/%zu", ok, s.size() / 4));
}
MON_WORKLOAD("P11", "noise", noise, 8000, 80000)

// hostile files in the merger
static void mergeHostile(Ctx& c) {
  std::string a = base(c), b = base(c); std::string& v = c.rng.chance(.5) ? a : b;
  for (int i = c.rng.range(1, 6); i > 0 && !v.empty(); --i) { size_t p = c.rng.range(0, v.size() - 1); if (c.rng.chance(.5)) v.insert(p, c.rng.pick(tokens())); else v.erase(p, c.rng.range(1, 40)); }
  std::string p1 = c.scratch + fmt("/m1_%ld.xml", c.idx), p2 = c.scratch + fmt("/m2_%ld.xml", c.idx), p3 = c.scratch + fmt("/m3_%ld.xml", c.idx); Del d1{p1}, d2{p2}, d3{p3};
  xt::writeFile(p1, a); xt::writeFile(p2, b); bool ok = false;
  std::string ex = thrown([&] { gear::MergeXML m; bool r1 = m.setFile1(p1), r2 = m.setFile2(p2); if ((r1 && r2) || c.rng.chance(.3)) ok = m.mergeFiles(p3); });
  c.chk(ex.empty() || isGearException(ex), "merge-foreign-exception", "%s", ex.c_str());
  c.ev(ok ? "merge_accepted" : "merge_refused"); c.state(fmt("%d/%zu/%zu", ok, a.size() / 256, b.size() / 256));
}
MON_WORKLOAD("P11", "merge", mergeHostile, 3000, 40000)
