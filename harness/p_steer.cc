// P35: steering files written by hand: default modules, numbering, names in any spelling, repeated sections, number formats.
#include "gen.h"
#include <optional>
#include <unistd.h>
using namespace gen;
static std::string path(Ctx& c, const char* n) { return c.scratch + fmt("/%s_%s_%ld.xml", n, c.workload.c_str(), c.idx); }
struct Del { std::string p; ~Del() { unlink(p.c_str()); } };
static std::string load(const std::string& p, std::unique_ptr<gear::GearMgr>& m) { return thrown([&] { gear::GearXML x(p); m.reset(x.createGearMgr()); }); }

struct Piece { std::optional<double> freq, z, angle, border; std::optional<std::pair<double, double>> off; std::optional<int> lay; std::optional<int> id; };
static Piece part(Rng& r, std::vector<padgen::Lay>& lays, bool polar, double pr, bool withLay, int zmode, double z) {
  Piece p;
  if (r.chance(pr)) p.freq = pos(r);
  if (r.chance(pr)) p.angle = r.chance(.2) ? 0 : padgen::r6(r.chance(.1) ? r.uni(-9, 9) : r.uni(-3, 3));
  if (r.chance(pr)) p.border = r.chance(.2) ? 0 : padgen::r6(r.uni(.1, 3));
  if (r.chance(pr)) p.off = std::make_pair(padgen::r6(polar ? r.uni(0, 500) : r.uni(-500, 500)), padgen::r6(polar ? r.uni(0, 6) : r.uni(-500, 500)));
  if (zmode && r.chance(pr)) p.z = r.chance(.5) ? z : -z;
  if (withLay) { lays.push_back(padgen::make(r, polar ? r.range(1, 3) : -1, 60)); p.lay = lays.size() - 1; }
  return p;
}
static X element(const char* tag, const Piece& p, const std::vector<padgen::Lay>& lays, Rng& r) {
  std::vector<X> v;
  if (p.id) v.push_back(X("moduleID").at("value", *p.id));
  if (p.freq) v.push_back(X("readoutFrequency").at("value", *p.freq));
  if (p.angle) v.push_back(X("angle").at("value", *p.angle));
  if (p.border) v.push_back(X("enlargeActiveAreaBy").at("value", *p.border));
  if (p.off) v.push_back(X("offset").at("x_r", p.off->first).at("y_phi", p.off->second));
  if (p.z) v.push_back(X("zPosition").at("value", *p.z));
  if (p.lay) v.push_back(lays[*p.lay].xml);
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.range(0, i - 1)]);
  X x(tag); for (auto& k : v) x.add(k); return x;
}
template <class T> static std::optional<T> either(const std::optional<T>& a, const Piece* d, std::optional<T> Piece::*m) { return a ? a : d ? d->*m : std::optional<T>(); }
static void modules(Ctx& c) {
  Rng& r = c.rng; bool polar = r.chance(.5); double md = pos(r), dv = pos(r); int zmode = r.range(0, 1); double z = padgen::r6(r.uni(100, 2000));
  auto ct = polar ? gear::PadRowLayout2D::POLAR : gear::PadRowLayout2D::CARTESIAN;
  auto want = std::make_unique<gear::GearMgrImpl>(); auto* g = new gear::TPCParametersImpl(md, ct); g->setDriftVelocity(dv); want->setTPCParameters(g);
  X det("detector"); det.at("name", "TPC").at("geartype", "TPCParameters"); det.val("maxDriftLength", md).val("driftVelocity", dv).add(X("coordinateType").at("value", polar ? "polar" : "cartesian"));
  std::vector<padgen::Lay> lays; int sections = r.range(1, 3), base = 0; std::string desc; std::string expect; Facts facts;
  std::set<int> used;
  for (int s = 0; s < sections; ++s) {
    X sec("modules"); int start = r.chance(.3) ? -1 : base + r.range(0, 20); if (s && start < 0) start = base; if (start >= 0) sec.at("moduleIDStartCount", start); else start = 0;
    int n = r.range(1, 6); std::vector<std::pair<char, Piece>> seq; bool bare = r.chance(.15);   // without any default
    int nd = bare ? 0 : r.range(1, 3);
    for (int i = 0; i < nd; ++i) { Piece p = part(r, lays, polar, .7, r.chance(.7), zmode, z); if (r.chance(.06)) p.id = 900 + r.range(0, 50); seq.push_back({'d', p}); }
    for (int i = 0; i < n; ++i) seq.push_back({'m', Piece()});
    for (int i = r.range(0, 2); i > 0; --i) seq.push_back({r.chance(.5) ? 'c' : 'u', Piece()});
    for (size_t i = seq.size(); i > 1; --i) std::swap(seq[i - 1], seq[r.range(0, i - 1)]);
    const Piece* d = 0; for (auto& k : seq) if (k.first == 'd') { d = &k.second; break; }
    int count = 0, top = start + n;
    for (auto& k : seq) {
      if (k.first == 'd') { d = &k.second; sec.add(element("default", *d, lays, r)); desc += "d"; continue; }
      if (k.first == 'u') { X u("something"); u.at("value", 3); if (r.chance(.5)) u.add(X("module")); sec.add(u); desc += "u"; continue; }
      if (k.first == 'c') { sec.add(X(r.chance(.5) ? "Module" : "defaults")); desc += "c"; continue; }
      bool own = !(d && d->lay) || r.chance(.4); Piece p = part(r, lays, polar, d ? .4 : .9, own, zmode, z);
      if (r.chance(.2)) { p.id = 1000 + s * 1000 + r.range(0, 900); if (used.count(*p.id)) p.id.reset(); }
      X e = element("module", p, lays, r); desc += "m";
      auto freq = either(p.freq, d, &Piece::freq), zz = either(p.z, d, &Piece::z), an = either(p.angle, d, &Piece::angle), bo = either(p.border, d, &Piece::border); auto off = either(p.off, d, &Piece::off); auto lay = either(p.lay, d, &Piece::lay);
      if (!freq && expect.empty() && r.chance(.9)) { p.freq = freq = pos(r); e.add(X("readoutFrequency").at("value", *freq)); }
      if (own && !(d && d->lay) && r.chance(.03)) { lay.reset(); for (size_t i = 0; i < e.c.size(); ++i) if (e.c[i].tag == "PadRowLayout2D") { e.c.erase(e.c.begin() + i); break; } }
      sec.add(e);
      auto own_id = either(p.id, d, &Piece::id); int id = own_id ? *own_id : start + count; ++count;
      if (!freq || !lay) { expect = !freq ? "no frequency" : "no pads"; continue; }
      if (!expect.empty()) continue;
      if (!used.insert(id).second) { expect = "duplicate ID"; continue; }
      auto* m = new gear::TPCModuleImpl(id, lays[*lay].l->clone(), ct, *freq);
      if (off) m->setOffset(off->first, off->second); if (zz) m->setZPosition(*zz); if (an) m->setAngle(*an); if (bo) m->setBorderWidth(*bo);
      std::string q = fmt("TPC.module%d", id); facts.i(q + ".ID", id); facts.d(q + ".freq", *freq); facts.d(q + ".off_a", off ? off->first : 0); facts.d(q + ".off_b", off ? off->second : 0); facts.d(q + ".angle", an ? *an : 0); facts.d(q + ".border", bo ? *bo : 0);
      facts.i(q + ".local.nPads", lays[*lay].npads()); facts.i(q + ".local.nRows", lays[*lay].rows.size()); if (zz) facts.d(q + ".z", *zz);
      if (r.chance(.3)) { int v = anyInt(r); m->setIntVal("own", v); sec.c.back().add(X("parameter").at("name", "own").at("type", "int").at("value", v)); facts.i(q + ".intpar'own", v); }
      std::string ex = thrown([&] { g->addModule(m); }); c.chk(ex.empty(), "model-add", "%s", ex.c_str());
    }
    base = r.chance(.9) ? top + 25 : base; det.add(sec); desc += "/";
  }
  c.describe = desc + (polar ? " polar" : " cartesian") + (expect.empty() ? "" : " refused: " + expect);
  X doc("gear"); doc.add(X("detectors").add(det)); std::string text; xt::render(text, doc, 0); 
  for (size_t a = 0; (a = text.find("<module", a)) != std::string::npos; a += 7) if (r.chance(.1)) { std::string k = "<!-- a module <default/> -->"; text.insert(a, k); a += k.size(); }
  std::string p = path(c, "tpc"); Del del{p}; xt::writeFile(p, text); std::unique_ptr<gear::GearMgr> m; std::string ex = load(p, m);
  if (!expect.empty()) { c.chk(isGearException(ex), "refused", "%s: %s", expect.c_str(), ex.empty() ? "accepted" : ex.c_str()); c.ev("refused"); c.state(desc + expect); return; }
  if (!c.chk(ex.empty(), "read-throws", "%s", ex.c_str())) { if (c.verbose) fprintf(stderr, "%s\n", text.c_str()); return; }
  Facts got = snapshot(*m), api = snapshot(*want); for (auto* f : {&got, &api}) { f->m.erase("detectorName.present"); f->m.erase("detectorName"); }
  compare(c, got, facts, 1e-13, "modules", false); compare(c, got, api, 1e-12, "as-built"); c.state(desc + (polar ? "p" : "c")); c.ev("modules", used.size()); c.ev("facts", got.size());
}
MON_WORKLOAD("P35", "modules", modules, 5000, 50000)

static std::string anycase(Rng& r, std::string s) { int how = r.range(0, 3); for (auto& ch : s) if (how == 1) ch = tolower(ch); else if (how == 2) ch = toupper(ch); else if (how == 3) ch = r.chance(.5) ? tolower(ch) : toupper(ch); return s; }
static bool isNumber(const std::string& s, bool& integer) {
  if (s.empty() || isspace((unsigned char)s[0])) return false; char* e; strtod(s.c_str(), &e); if (*e) return false;
  integer = s.find_first_not_of("0123456789-") == std::string::npos; return s.find_first_of("xXnNiI") == std::string::npos;
}
static std::string reformat(Rng& r, const std::string& s, bool integer) {
  bool neg = s[0] == '-'; std::string d = neg ? s.substr(1) : s, sign = neg ? "-" : r.chance(.3) ? "+" : "";
  switch (r.range(0, 5)) {
    case 0: d = std::string(r.range(1, 4), '0') + d; break;
    case 1: if (!integer || s.size() < 9) { if (!integer && d.find('e') == std::string::npos && d.find('.') != std::string::npos) d += std::string(r.range(1, 3), '0'); } break;
    case 2: if (!integer) { double v = strtod(d.c_str(), 0); d = fmt(r.chance(.5) ? "%.17e" : "%.17E", v); } break;
    case 3: if (!integer && d.size() > 1 && d[0] == '0' && d[1] == '.' && d.size() > 2) d = d.substr(1); break;
    case 4: return std::string(r.range(1, 2), r.chance(.5) ? ' ' : '\t') + sign + d;
    default: return sign + d + std::string(r.range(0, 2), ' ');
  }
  return sign + d;
}
static void formats(Ctx& c, X& x, const std::string& ctx) {
  std::string q = x.tag == "detector" ? [&] { for (auto& k : x.a) if (k.first == "geartype") return k.second; return std::string(); }() : ctx;
  if (x.tag != "parameter") for (auto& k : x.a) {
    bool i; if (k.first == "name" || k.first == "info" || k.first == "type" || k.first == "detectorName" || !c.rng.chance(.3) || !isNumber(k.second, i)) continue;
    k.second = reformat(c.rng, k.second, i); c.ev("numbers_reformatted");
  }
  for (auto& k : x.c) formats(c, k, q);
}
static void sections(Ctx& c) {
  Rng& r = c.rng; Spec a, b; make(r, a, ALL, .4); bool twice = r.chance(.5); if (twice) make(r, b, CALOS | ZPL | FTDS | SIP | TRP, .3);
  c.describe = a.desc + (twice ? " then " + b.desc : "");
  static const std::vector<std::string> deco = {"", "", "My", "S", "_03", " (new)", "4", "-v2", "\xC3\xA4"};
  auto rename = [&](X& d) {
    std::string type, name; for (auto& k : d.a) { if (k.first == "geartype") type = k.second; if (k.first == "name") name = k.second; }
    std::string n = name;
    if (type == "CalorimeterParameters") {
      static const std::map<std::string, std::string> key = {{"EcalBarrel", "Ecal"}, {"EcalEndcap", "Ecal"}, {"YokeBarrel", "Yoke"}, {"YokeEndcap", "Yoke"}, {"HcalBarrel", "Hcal"}, {"HcalEndcap", "Hcal"}};
      if (key.count(name) && r.chance(.4)) { n = key.at(name); c.ev("routed_by_layout"); }
      if (name.find("Plug") != std::string::npos && r.chance(.3)) n = "Plug" + name.substr(0, 4);
      if (name == "HcalRing" && r.chance(.3)) n = "RingHcal";
    } else if (type != "ZPlanarParameters" && type != "VXDParameters") { if (type == "GearParameters") return; n = r.chance(.5) ? name : "any " + name; if (r.chance(.3)) n = "x"; for (auto& k : d.a) if (k.first == "name") k.second = n; return; }
    if (r.chance(.5)) { n = r.pick(deco) + anycase(r, n) + r.pick(deco); c.ev("renamed"); }
    for (auto& k : d.a) if (k.first == "name") k.second = n;
  };
  X dets("detectors"); std::vector<X> first = a.detectors.c, second = b.detectors.c;
  for (auto* v : {&first, &second}) for (auto& d : *v) rename(d);
  // the second set comes after the first, mixed with what does not belong to a detector
  std::vector<X> all; for (auto& d : first) all.push_back(d); for (auto& d : second) all.push_back(d);
  for (auto& d : all) { if (r.chance(.05)) dets.add(X("parameter").at("name", "lost").at("type", "int").at("value", 3)); dets.add(d); }
  X doc("gear"); std::vector<X> top; if (a.hasGlobal) top.push_back(a.global); if (a.hasField) top.push_back(a.field); if (!a.materials.c.empty()) top.push_back(a.materials); top.push_back(dets); if (r.chance(.2)) top.push_back(X("unknown").add(X("detectors").add(X("detector"))));
  for (size_t i = top.size(); i > 1; --i) std::swap(top[i - 1], top[r.range(0, i - 1)]);
  for (auto& k : top) doc.add(k);
  if (r.chance(.5)) formats(c, doc, "");
  auto drop = [&](Facts& f, const std::string& s) { for (auto it = f.m.begin(); it != f.m.end();) if (it->first.compare(0, s.size() + 1, s + ".") == 0) it = f.m.erase(it); else ++it; };
  Facts want = snapshot(*a.mgr), over = snapshot(*b.mgr), facts = a.want;
  static const char* const SEC[] = {"VXD", "SIT", "SET", "FTD", "SiPlanes", "TrackerPlanes"};
  auto one = [&](const std::string& s) { if (!b.want.m.count(s + ".present")) return; drop(want, s); drop(facts, s); for (auto& k : over.m) if (k.first.compare(0, s.size() + 1, s + ".") == 0) want.m.insert(k); for (auto& k : b.want.m) if (k.first.compare(0, s.size() + 1, s + ".") == 0) facts.m.insert(k); c.ev("given_twice", a.want.m.count(s + ".present")); };
  if (twice) { for (auto* s : SEC) one(s); for (int i = 0; i < 12; ++i) one(CALO[i]); }
  std::string text; xt::render(text, doc, 0);
  std::string p = path(c, "sec"); Del del{p}; xt::writeFile(p, text); std::unique_ptr<gear::GearMgr> m; std::string ex = load(p, m);
  if (!c.chk(ex.empty(), "read-throws", "%s", ex.c_str())) { if (c.verbose) fprintf(stderr, "%s\n", text.c_str()); return; }
  Facts got = snapshot(*m); if (!a.hasGlobal) for (auto* f : {&got, &want}) { f->m.erase("detectorName.present"); f->m.erase("detectorName"); }
  compare(c, got, facts, 1e-13, "sections", false); compare(c, got, want, 1e-12, "as-built"); c.state(c.describe); c.ev("facts", got.size());
}
MON_WORKLOAD("P35", "sections", sections, 1400, 14000)
