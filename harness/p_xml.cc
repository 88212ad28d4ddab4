// P04-P10: XML round trips and faithful reading of documents.
#include "gen.h"
#include <unistd.h>
#include <clocale>
#include <locale>
#include <sys/stat.h>
using namespace gen;

static std::string path(Ctx& c, const char* n) { return c.scratch + fmt("/%s_%s_%ld.xml", n, c.workload.c_str(), c.idx); }
struct Del { std::string p; ~Del() { unlink(p.c_str()); } };

static std::unique_ptr<gear::GearMgr> read(const std::string& p) { gear::GearXML x(p); return std::unique_ptr<gear::GearMgr>(x.createGearMgr()); }

static void roundtrip(Ctx& c, int parts, double prob) {
  Spec s; make(c.rng, s, parts, prob);
  c.describe = s.desc;
  Facts api = snapshot(*s.mgr);
  compare(c, api, s.want, 1e-13, "stored", false);
  std::string p = path(c, "rt"); Del del{p};
  std::string ex = thrown([&] { gear::GearXML::createXMLFile(s.mgr.get(), p); });
  if (!c.chk(ex.empty(), "write-throws", "%s", ex.c_str())) return;
  std::unique_ptr<gear::GearMgr> m; ex = thrown([&] { m = read(p); });
  if (!c.chk(ex.empty(), "read-throws", "%s", ex.c_str())) return;
  Facts got = snapshot(*m);
  if (!s.hasGlobal) { api.m.erase("detectorName.present"); got.m.erase("detectorName.present"); got.m.erase("detectorName"); }   // written as "Unknown"
  // the common azimuth range of several modules is only defined up to the branch chosen for (nearly) full circles
  bool full = false; for (auto& l : s.lays) for (size_t k = 0; k < l.rows.size(); ++k) full |= l.polar && l.rows[k].n * l.rows[k].pitch > 6.283;
  if (full) for (auto k : {"TPC.extent2", "TPC.extent3"}) { api.m.erase(k); got.m.erase(k); }
  compare(c, got, api, 2e-9, "roundtrip");
  // a second generation is identical to the first
  std::string p2 = path(c, "rt2"); Del del2{p2};
  ex = thrown([&] { gear::GearXML::createXMLFile(m.get(), p2); m = read(p2); });
  if (!c.chk(ex.empty(), "second-throws", "%s", ex.c_str())) return;
  Facts got2 = snapshot(*m);
  if (!s.hasGlobal) { got2.m.erase("detectorName.present"); got2.m.erase("detectorName"); }
  if (full) for (auto k : {"TPC.extent2", "TPC.extent3"}) got2.m.erase(k);
  compare(c, got2, got, 2e-9, "second");
  c.state(s.desc + fmt("/%zu", got.m.size())); c.ev("facts", got.m.size()); c.ev("bytes", xt::readFile(p).size());
}
static void rtParams(Ctx& c) { roundtrip(c, GLOBAL | FIELD | MAT | GENERIC, .7); }
static void rtCalo(Ctx& c) { roundtrip(c, CALOS, .3); }
static void rtZ(Ctx& c) { roundtrip(c, ZPL, .7); }
static void rtFTD(Ctx& c) { roundtrip(c, FTDS, 1); }
static void rtSi(Ctx& c) { roundtrip(c, SIP | TRP, .8); }
static void rtTPC(Ctx& c) { roundtrip(c, TPCS, 1); }
static void rtAll(Ctx& c) { roundtrip(c, ALL, .6); }
MON_WORKLOAD("P04", "rt_params", rtParams, 7500, 75000)
MON_WORKLOAD("P04", "rt_all", rtAll, 750, 7500)
MON_WORKLOAD("P05", "rt_calo", rtCalo, 6400, 64000)
MON_WORKLOAD("P06", "rt_zplanar", rtZ, 9600, 96000)
MON_WORKLOAD("P07", "rt_ftd", rtFTD, 9600, 96000)
MON_WORKLOAD("P08", "rt_telescope", rtSi, 9600, 96000)
MON_WORKLOAD("P09", "rt_tpc", rtTPC, 6000, 60000)

// hand written documents with random formatting
static void handwritten(Ctx& c) {
  Spec s; int parts = c.rng.chance(.3) ? ALL : (1 << c.rng.range(0, 9)) | (c.rng.chance(.5) ? 1 << c.rng.range(0, 9) : 0);
  make(c.rng, s, parts, parts == ALL ? .5 : 1);
  c.describe = s.desc;
  Facts api = snapshot(*s.mgr);
  std::string text = xt::document(s.document(), c.rng.chance(.15) ? 0 : &c.rng), p = path(c, "hw"); Del del{p};
  xt::writeFile(p, text);
  std::unique_ptr<gear::GearMgr> m; std::string ex = thrown([&] { try { m = read(p); } catch (gear::Exception& e) { if (c.verbose) fprintf(stderr, "%s\n", e.what()); throw; } });
  if (!c.chk(ex.empty(), "read-throws", "%s", ex.c_str())) { if (c.verbose) fprintf(stderr, "%s\n", text.c_str()); return; }
  if (!s.hasGlobal) { api.m.erase("detectorName.present"); }
  Facts got = snapshot(*m);
  if (!s.hasGlobal) { got.m.erase("detectorName.present"); got.m.erase("detectorName"); }
  compare(c, got, s.want, 1e-13, "document", false);
  compare(c, got, api, 1e-12, "as-built");
  c.state(s.desc + fmt("/%zu", got.m.size())); c.ev("facts", got.m.size()); c.ev("bytes", text.size());
}
MON_WORKLOAD("P10", "handwritten", handwritten, 10000, 100000)

// documents that lack a mandatory item are refused with a gear exception; an absent optional item
// means the same as its default written out
static bool in(const char* list, const std::string& n) { return (" " + std::string(list) + " ").find(" " + n + " ") != std::string::npos; }
static bool mandatory(const std::string& ctx, const std::string& q, const std::string& tag, bool attr, const std::string& n) {
  if (attr && tag == "parameter") return n == "name";
  if (q == "/gear") return !attr && n == "detectors";
  if (q == "/gear/global") return attr && n == "detectorName";
  if (q == "/gear/BField") return attr && in("x y z", n);
  if (tag == "material") return attr;
  if (tag == "detector" && attr) return n == "name";
  if (ctx == "CalorimeterParameters") return attr ? true : in("dimensions layout", n);
  if (ctx == "ZPlanarParameters" || ctx == "VXDParameters") return attr ? true : in("type vxdType shell layers ladder sensitive", n);
  if (ctx == "FTDParameters") return attr ? true : in("layers sensitive support", n);
  if (ctx == "SiPlanesParameters") {
    if (attr) return !in("rotationXY rotationZX rotationZY resolutionX resolutionY rotation1 rotation2 rotation3 rotation4", n);
    return in("layers siplanesID siplanesNumber siplanesType ladder sensitive dut dut_ladder dut_sensitive", n);
  }
  if (ctx == "TrackerPlanesParameters") return attr ? in("ID number", n) : in("LayoutID LayoutNumberOfLayers layers", n);
  if (ctx == "TPCParameters") {
    if (!attr) return n == "PadRowLayout2D" || in("maxDriftLength coordinateType", n) || (q.find("modules") == std::string::npos && n == "readoutFrequency");
    if (tag == "PadRowLayout2D") return n == "type" || in("rMin nRow padHeight nPadsInRow maxRow padGap", n);
    if (tag == "row") return n == "nPad" || n == "padPitch";
    if (tag == "offset") return in("x_r y_phi", n);
    return n == "value" && in("coordinateType driftVelocity maxDriftLength angle moduleID enlargeActiveAreaBy zPosition", tag) && q.find("/default") == std::string::npos;
  }
  return false;
}
static std::string otherAttr(const X& x, const char* n) { for (auto& a : x.a) if (a.first == n) return a.second; return ""; }
static const char* optionalDefault(const std::string& ctx, const std::string& tag, const std::string& n) {
  if (ctx == "SiPlanesParameters" && in("sensitive dut_sensitive", tag) && in("rotation1 rotation2 rotation3 rotation4", n)) return in("rotation1 rotation4", n) ? "1" : "0";   // not rotated
  if (ctx == "SiPlanesParameters" && in("ladder sensitive", tag) && in("rotationXY rotationZX rotationZY", n)) return "0";
  if (ctx == "TrackerPlanesParameters" && in("ladder sensitive", tag)) return n == "ID" ? 0 : n == "info" ? "" : in("sizeX sizeY npixelX npixelY", n) ? "1" : "0";
  if (ctx == "TPCParameters" && tag == "row") return n == "repeat" ? "1" : in("leftOffset rightOffset offset", n) ? "0" : 0;
  return 0;
}
struct Item { X* x; std::string ctx, q; bool attr; size_t k; };
static void items(X& x, const std::string& ctx0, const std::string& p, std::vector<Item>& out) {
  std::string ctx = ctx0, q = p + "/" + x.tag;
  if (x.tag == "detector") for (auto& k : x.a) if (k.first == "geartype") ctx = k.second;
  for (size_t i = 0; i < x.a.size(); ++i) out.push_back({&x, ctx, q, true, i});
  for (size_t i = 0; i < x.c.size(); ++i) { out.push_back({&x, ctx, q, false, i}); items(x.c[i], ctx, q, out); }
}
static void negative(Ctx& c) {
  Spec s; make(c.rng, s, 1 << c.rng.range(0, 9) | (c.rng.chance(.3) ? 1 << c.rng.range(0, 9) : 0), 1);
  X doc = s.document(); std::string p = path(c, "neg"); Del del{p};
  auto load = [&](const X& d, Facts& f) {
    xt::writeFile(p, xt::document(d, c.rng.chance(.5) ? &c.rng : 0)); gear::GearXML x(p); std::unique_ptr<gear::GearMgr> m;
    std::string e = thrown([&] { m.reset(x.createGearMgr()); f = snapshot(*m); });
    // a document that was refused is still refused when the same reader is asked again
    if (!e.empty() && c.rng.chance(.3)) { std::string again = thrown([&] { m.reset(x.createGearMgr()); }); c.chk(!again.empty(), "refused-then-accepted", "%s", e.c_str()); c.ev("refused_asked_again"); }
    return e; };
  Facts base; std::string ex = load(doc, base);
  if (!c.chk(ex.empty(), "intact-throws", "%s %s", ex.c_str(), s.desc.c_str())) return;
  std::vector<Item> it; items(doc, "", "", it);
  for (int rep = 0; rep < 8; ++rep) {
    size_t pick = c.rng.range(0, it.size() - 1);
    X d = doc; std::vector<Item> e; items(d, "", "", e); Item k = e[pick];
    std::string n = k.attr ? k.x->a[k.k].first : k.x->c[k.k].tag;
    bool must = mandatory(k.ctx, k.q, k.x->tag, k.attr, n);
    if (k.attr && k.x->tag == "parameter") {      // a parameter without value is left out
      std::string v = k.x->text, t; for (auto& a : k.x->a) if (a.first == "value") v = a.second; else if (a.first == "type") t = a.second;
      if (v.find_first_not_of(' ') == std::string::npos && t != "string" && t != "IntVec" && t != "DoubleVec" && t != "StringVec") must = false;
    }
    const char* dflt = k.attr ? optionalDefault(k.ctx, k.x->tag, n) : 0; std::string same;
    if (k.attr && k.ctx == "SiPlanesParameters" && k.x->tag == "sensitive" && in("resolutionX resolutionY", n)) { same = otherAttr(*k.x, "resolution"); if (!same.empty()) dflt = same.c_str(); }   // one resolution for both directions
    std::string what = k.ctx + ":" + k.q + (k.attr ? "@" : "<") + n;
    if (must) {
      if (!k.attr) { size_t same = 0; for (auto& j : k.x->c) same += j.tag == n; if (same != 1) continue; }
      if (k.attr) k.x->a.erase(k.x->a.begin() + k.k); else k.x->c.erase(k.x->c.begin() + k.k);
      Facts f; ex = load(d, f);
      c.chk(isGearException(ex), "missing-mandatory", "%s -> %s", what.c_str(), ex.empty() ? "accepted" : ex.c_str());
      c.state(what); c.ev(k.attr ? "mandatory_attribute_removed" : "mandatory_element_removed");
    } else if (dflt) {
      X d2 = d; std::vector<Item> e2; items(d2, "", "", e2); e2[pick].x->a[k.k].second = dflt;
      k.x->a.erase(k.x->a.begin() + k.k);
      Facts a, b; std::string e1 = load(d, a), e3 = load(d2, b);
      if (!e3.empty()) { c.ev("default_not_valid"); continue; }
      if (c.chk(e1.empty(), "optional-throws", "%s %s", what.c_str(), e1.c_str())) compare(c, a, b, 1e-13, "optional-default");
      c.state(what); c.ev("optional_attribute_removed");
    } else if (k.attr && n == "geartype") {
      if (c.rng.chance(.5)) {
        k.x->a.erase(k.x->a.begin() + k.k);
        X d2 = doc; std::vector<Item> e2; items(d2, "", "", e2);
        for (auto& j : e2) if (j.x->tag == "detectors") { j.x->c.erase(j.x->c.begin() + (k.x - [&] { for (auto& g : e) if (g.x->tag == "detectors") return &g.x->c[0]; return (X*)0; }())); break; }
        Facts a, b; std::string e1 = load(d, a), e3 = load(d2, b);
        if (c.chk(e1.empty() && e3.empty(), "no-geartype-throws", "%s / %s", e1.c_str(), e3.c_str())) compare(c, a, b, 1e-13, "no-geartype");
        c.state(what); c.ev("geartype_removed");
      } else {
        static const std::vector<std::string> bad = {"", "TPCParameter", "tpcparameters", "CalorimeterParametersX", "NoSuchType", "ZPlanarParameters "};
        k.x->a[k.k].second = c.rng.pick(bad); Facts f; ex = load(d, f);
        c.chk(isGearException(ex), "unknown-geartype", "%s", ex.empty() ? "accepted" : ex.c_str()); c.ev("geartype_unknown");
      }
    } else continue;
  }
  // values of the enumerated attributes that mean nothing
  std::vector<Item> en;
  for (auto& k : it) if (k.attr) {
    const std::string& n = k.x->a[k.k].first;
    if ((k.ctx == "CalorimeterParameters" && k.x->tag == "layout" && n == "type") || n == "sensorType" || n == "technology" ||
        (k.x->tag == "siplanesType" && n == "type") || (k.x->tag == "coordinateType" && n == "value") || (k.x->tag == "PadRowLayout2D" && n == "type")) en.push_back(k);
  }
  if (!en.empty()) {
    Item k = c.rng.pick(en); std::string old = k.x->a[k.k].second; k.x->a[k.k].second = c.rng.pick(std::vector<std::string>{"nosuch", "x" + old, old + "1", old.substr(1)});
    Facts f; ex = load(doc, f);
    c.chk(isGearException(ex), "unknown-enumerator", "%s %s@%s=%s", ex.c_str(), k.q.c_str(), k.x->a[k.k].first.c_str(), k.x->a[k.k].second.c_str());
    c.ev("enumerator_unknown");
  }
}
MON_WORKLOAD("P10", "negative", negative, 4800, 48000)

// a file that is refused leaves nothing behind: no memory, no file changed, no trace in later descriptions
#include "gearxml/XMLHandlerMgr.h"
#include "gearxml/XMLHandler.h"
#include "gearxml/PadRowLayout2DXML.h"
#include "gearxml/SimpleMaterialXML.h"
#include "gearxml/ConstantBFieldXML.h"
#include "gearxml/tinyxml.h"
static void spoil(Ctx& c, X& d, std::string& sig) {
  Rng& r = c.rng; std::vector<Item> it; items(d, "", "", it); if (it.empty()) return;
  Item k = it[r.range(0, it.size() - 1)]; static const std::vector<std::string> num = {"-1", "0", "", "abc", "70000", "1e-300", "-7.5", "1"};
  // the deeper the later: half of the faults hit one of the last items
  if (r.chance(.5)) k = it[r.range(it.size() * 3 / 4, it.size() - 1)];
  std::string n = k.attr ? k.x->a[k.k].first : k.x->c[k.k].tag; sig += " " + k.ctx + ":" + k.x->tag + (k.attr ? "@" : "<") + n;
  bool plain = n != "name" && n != "geartype" && n != "type" && n != "repeat" && n != "nRow" && n != "maxRow" && n != "nPadsInRow" && n != "repeatRows";
  if (k.attr) { if (r.chance(.6)) k.x->a.erase(k.x->a.begin() + k.k); else if (plain) k.x->a[k.k].second = r.pick(num); else if (n == "type") k.x->a[k.k].second += "x"; else if (n == "geartype") k.x->a[k.k].second = "NoSuchType"; else k.x->a[k.k].second = n == "name" ? k.x->a[k.k].second : "-1"; }
  else if (r.chance(.5)) k.x->c.erase(k.x->c.begin() + k.k);
  else { X copy = k.x->c[k.k]; if (copy.tag == "detector" || copy.c.size() < 12) k.x->c.insert(k.x->c.begin() + k.k, copy); }      // the same twice: materials and module IDs must be unique
}
static void refusing(Ctx& c) {
  Rng& r = c.rng; Spec s; int parts = 1 << r.range(0, 9) | (r.chance(.4) ? 1 << r.range(0, 9) : 0); make(r, s, parts, 1); c.describe = s.desc;
  X doc = s.document(); std::string p = path(c, "ref"); Del del{p}; std::string good = xt::document(doc, 0);
  xt::writeFile(p, good); Facts before; std::string ex = thrown([&] { before = snapshot(*read(p)); });
  if (!c.chk(ex.empty(), "intact-throws", "%s", ex.c_str())) return;
  for (int rep = 0; rep < 6; ++rep) {
    X d = doc; std::string sig; int n = r.chance(.8) ? 1 : 2; for (int i = 0; i < n; ++i) spoil(c, d, sig);
    std::string text = xt::document(r.chance(.2) ? doc : d, r.chance(.3) ? &r : 0);
    if (r.chance(.12)) { text.resize(r.range(0, text.size())); sig = " cut"; }
    else if (r.chance(.15)) {       // text that is not well formed: something inserted outside of attribute values
      std::vector<size_t> pos; char q = 0; bool tag = false; for (size_t i = 0; i < text.size(); ++i) { char ch = text[i]; if (q) { if (ch == q) q = 0; continue; } if (tag && (ch == '"' || ch == '\'')) { q = ch; continue; } if (ch == '<') tag = true; if (ch == '>') tag = false; pos.push_back(i); }
      static const std::vector<std::string> bad = {"<", ">", "</x>", "</gear>", " a=\"1\" a=\"2\" ", " name=\"n\" ", "=", "\"", "<!--", "<a b=\"1\" b=\"2\"/>", "<a b=\"1\" b=\"2\"><c/></a>", "<a><b c=1><d/></a>", "<![CDATA[", "<?", "&", "<a b=>", "<a b=\"", "<", "<a><b></a></b>", "\xEF\xBB\xBF", std::string(1, '\0'), "&#32;", "<a>&#32;&#9;</a>"};
      if (!pos.empty()) { std::string b = r.pick(bad); text.insert(pos[r.range(0, pos.size() - 1)], b); sig = " text " + b; }
    }
    xt::writeFile(p, text);
    if (r.chance(.6)) {
      std::string e = thrown([&] { read(p); });
      c.chk(e.empty() || isGearException(e), "foreign-exception", "%s:%s", sig.c_str(), e.c_str());
      c.chk(xt::readFile(p) == text, "file-changed", "%s", sig.c_str());
      c.ev(e.empty() ? "file_accepted" : "file_refused"); if (!e.empty()) c.state(sig + " " + e.substr(0, 60));
    } else {     // without a manager the caller owns what the handlers return
      gear::TiXmlDocument t; t.LoadFile(p); gear::TiXmlElement* root = t.RootElement(); if (!root) continue;
      std::vector<gear::TiXmlElement*> all; std::function<void(gear::TiXmlElement*)> walk = [&](gear::TiXmlElement* e) { all.push_back(e); for (gear::TiXmlElement* k = e->FirstChildElement(); k; k = k->NextSiblingElement()) walk(k); }; walk(root);
      for (auto* e : all) {
        std::string tag = e->Value(), why;
        if (tag == "detector") { std::string gt = e->Attribute("geartype") ? e->Attribute("geartype") : ""; if (gt == "VXDParameters") gt = "ZPlanarParameters"; auto* h = gear::XMLHandlerMgr::instance()->getHandler(gt); if (!h) continue; why = thrown([&] { std::unique_ptr<gear::GearParameters> own(h->fromXML(e, 0)); c.chk(own.get() != 0, "nothing-returned", "%s", gt.c_str()); }); }
        else if (tag == "PadRowLayout2D") { auto* h = gear::PadRowLayout2DXML::getHandler(e->Attribute("type") ? e->Attribute("type") : ""); if (!h) continue; why = thrown([&] { std::unique_ptr<gear::PadRowLayout2D> own(h->fromXML(e)); c.chk(own.get() != 0, "nothing-returned", "layout"); }); }
        else if (tag == "material") why = thrown([&] { std::unique_ptr<gear::SimpleMaterial> own(gear::SimpleMaterialXML().fromXML(e, 0)); });
        else if (tag == "BField") why = thrown([&] { std::unique_ptr<gear::GearParameters> own(gear::ConstantBFieldXML().fromXML(e, 0)); });
        else continue;
        c.chk(why.empty() || isGearException(why), "foreign-exception", "%s:%s", sig.c_str(), why.c_str());
        c.ev(why.empty() ? "element_accepted" : "element_refused"); if (!why.empty()) c.state(sig + " " + why.substr(0, 60) + " direct");
      }
    }
  }
  xt::writeFile(p, good); Facts after; ex = thrown([&] { after = snapshot(*read(p)); });
  if (c.chk(ex.empty(), "refused-later", "%s", ex.c_str())) compare(c, after, before, 1e-15, "changed-later");
}
MON_WORKLOAD_F("P39", "refuse", refusing, 4000, 60000, LEAKCHECK)

// ------------------------------------------------------------------------------------- P40
struct Grouped : std::numpunct<char> { char p, t; std::string g; Grouped(char p_, char t_, const std::string& g_) : p(p_), t(t_), g(g_) {} char do_decimal_point() const override { return p; } char do_thousands_sep() const override { return t; } std::string do_grouping() const override { return g; } };
static const char* const COMMA = "gear_comma";
static bool haveComma(Ctx& c) {       // a locale with a decimal comma, made with the system's localedef; once per process
  static int have = -1; if (have >= 0) return have;
  std::string d = c.scratch + fmt("/loc%d", (int)getpid()), src = d + "/src"; mkdir(d.c_str(), 0755);
  xt::writeFile(src, "LC_NUMERIC\ndecimal_point \",\"\nthousands_sep \".\"\ngrouping 3;3\nEND LC_NUMERIC\n");
  int rc = system(("localedef -c -i '" + src + "' -f UTF-8 '" + d + "/" + COMMA + "' >/dev/null 2>&1").c_str()); (void)rc;
  setenv("LOCPATH", d.c_str(), 1);
  have = setlocale(LC_NUMERIC, COMMA) != 0; setlocale(LC_NUMERIC, "C"); return have;
}
struct Locales {                       // the program's choice, in effect while the object lives
  std::string name; std::locale old; bool comma, thread; locale_t mine, prev;
  Locales(bool comma_, bool thread_, const std::locale& l) : comma(comma_), thread(thread_), mine(0), prev(0) {
    old = std::locale::global(l);      // unnamed: the C locale stays
    if (comma && thread) { mine = newlocale(LC_NUMERIC_MASK, COMMA, (locale_t)0); prev = uselocale(mine); } else if (comma) setlocale(LC_NUMERIC, COMMA);
  }
  bool kept() const { char b[40]; snprintf(b, sizeof b, "%.1f", 1.5); return (b[1] == ',') == comma && (!(comma && !thread) || std::string(setlocale(LC_NUMERIC, 0)) == COMMA); }
  ~Locales() { if (mine) { uselocale(prev); freelocale(mine); } setlocale(LC_NUMERIC, "C"); std::locale::global(old); }
};
static void anyLocale(Ctx& c) {
  Rng& r = c.rng; Spec s; make(r, s, ALL, .35); c.describe = s.desc; bool comma = r.chance(.8) && haveComma(c), thread = r.chance(.3), grouped = !comma || r.chance(.6), refusal = r.chance(.2);
  std::string p1 = path(c, "lc1"), p2 = path(c, "lc2"), p3 = path(c, "lc3"); Del d1{p1}, d2{p2}, d3{p3}; static const std::vector<std::string> gs = {"\3", "\1", "\2\3", "\4"};
  std::locale l = std::locale::classic(); if (grouped) l = std::locale(l, new Grouped(r.chance(.5) ? ',' : '.', r.chance(.5) ? '.' : r.chance(.5) ? ' ' : ',', r.pick(gs)));
  std::unique_ptr<gear::GearMgr> a, b; Facts fa, fb; std::string ex = thrown([&] { gear::GearXML::createXMLFile(s.mgr.get(), p1); a = read(p1); }); if (!c.chk(ex.empty(), "plain-throws", "%s", ex.c_str())) return; fa = snapshot(*a);
  if (refusal) xt::writeFile(p3, r.chance(.5) ? "<gear>" : "<gear><detectors><detector name=\"x\" geartype=\"nosuch\"/></detectors></gear>");
  std::string e2, e3, e4; bool kw, kr, kf = true;
  { Locales w(comma, thread, l);
    e2 = thrown([&] { gear::GearXML::createXMLFile(s.mgr.get(), p2); }); kw = w.kept();
    e3 = thrown([&] { b = read(p1); }); kr = w.kept();
    if (refusal) { e4 = thrown([&] { read(p3); }); kf = w.kept(); } }
  const char* k = comma ? thread ? "decimal comma of the thread" : "decimal comma" : "grouped digits";
  if (!c.chk(e2.empty(), "write-throws", "%s: %s", k, e2.c_str()) || !c.chk(e3.empty(), "read-throws", "%s: %s", k, e3.c_str())) return;
  std::string ta = xt::readFile(p1), tb = xt::readFile(p2); size_t i = 0; while (i < ta.size() && i < tb.size() && ta[i] == tb[i]) ++i;
  c.chk(ta == tb, "text", "%s: differs at byte %zu: %.60s / %.60s", k, i, ta.substr(i > 20 ? i - 20 : 0, 50).c_str(), tb.substr(i > 20 ? i - 20 : 0, 50).c_str());
  fb = snapshot(*b); compare(c, fb, fa, 1e-15, "values");
  c.chk(kw, "locale-changed", "%s: by writing", k); c.chk(kr, "locale-changed", "%s: by reading", k); c.chk(kf, "locale-changed", "%s: by a refused file", k); if (refusal) c.chk(isGearException(e4), "refusal", "%s: %s", k, e4.c_str());
  c.ev(k); if (comma && grouped) c.ev("both"); c.ev("facts", fa.m.size()); c.state(s.desc + k);
}
MON_WORKLOAD("P40", "locale", anyLocale, 800, 12000)
