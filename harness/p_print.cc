// P30: printing a description shows everything it holds, whatever the size of values, and changes nothing.
#include "gen.h"
#include "gearimpl/Util.h"
#include <iomanip>
#include <sstream>
#include <unistd.h>
using namespace gen;
struct Form { int prec; std::ios::fmtflags fl; char fill; };
// how far a value printed in this form may be off
static bool shown(double got, double want, const Form& f) {
  if (got == want || (std::isnan(got) && std::isnan(want))) return true;
  if (f.fl & std::ios::fixed && !(f.fl & std::ios::scientific)) return std::fabs(got - want) <= .51 * std::pow(10., -f.prec) + 1e-15 * std::fabs(want);
  int p = f.fl & std::ios::scientific ? f.prec + 1 : std::max(f.prec, 1);
  return std::fabs(got - want) <= std::max(.51 * std::pow(10., 1 - p), 1e-15) * std::fabs(want) + 1e-300;
}
// numbers of a text, in order
static std::vector<double> numbers(const std::string& s) {
  std::vector<double> v; const char* p = s.c_str();
  while (*p) {
    bool start = isdigit((unsigned char)*p) || ((*p == '-' || *p == '+' || *p == '.') && (isdigit((unsigned char)p[1]) || p[1] == '.')) || strncmp(p, "inf", 3) == 0 || strncmp(p, "-inf", 4) == 0 || strncmp(p, "nan", 3) == 0 || strncmp(p, "-nan", 4) == 0;
    if (start) { char* e; double d = strtod(p, &e); if (e > p) { v.push_back(d); p = e; continue; } }
    if (isalpha((unsigned char)*p)) { while (isalnum((unsigned char)*p) || *p == '-') ++p; continue; }   // names are no numbers
    ++p;
  }
  return v;
}
struct Text {
  Ctx& c; std::string s; size_t at = 0; Form f; std::string what;
  // the next occurrence of a text
  bool find(const std::string& t, const char* key) { size_t p = s.find(t, at); if (!c.chk(p != std::string::npos, key, "%s: '%s' not printed", what.c_str(), t.substr(0, 100).c_str())) return false; at = p + t.size(); return true; }
  std::string line() { size_t e = s.find('\n', at); std::string r = s.substr(at, e == std::string::npos ? std::string::npos : e - at); at = e == std::string::npos ? s.size() : e + 1; return r; }
  void value(const std::string& label, double want, const char* key) { if (!find(label, key)) return; size_t a = at; std::vector<double> v = numbers(line()); at = a; c.chk(!v.empty() && shown(v[0], want, f), key, "%s%s: %.17g printed as %.17g", what.c_str(), label.c_str(), want, v.empty() ? NAN : v[0]); }
  // the numbers of the next line
  void row(const std::vector<double>& want, const std::vector<int>& decimals, const char* key, const std::string& info = "", int id = 0) {
    std::string l = line();
    if (!info.empty()) { std::string d = fmt("%d ", id) + std::string(info.size() < 14 ? 14 - info.size() : 0, ' ') + info; size_t p = l.find(d); if (!c.chk(p != std::string::npos, key, "%s: '%s' not printed", what.c_str(), d.substr(0, 60).c_str())) return; l.replace(p, d.size(), fmt("%d ", id)); }
    std::vector<double> v = numbers(l);
    if (!c.chk(v.size() == want.size(), key, "%s: %zu numbers instead of %zu in %s", what.c_str(), v.size(), want.size(), l.substr(0, 300).c_str())) return;
    for (size_t i = 0; i < v.size(); ++i) c.chk(v[i] == want[i] || std::fabs(v[i] - want[i]) <= .51 * std::pow(10., -decimals[i]) + 1e-15 * std::fabs(want[i]), key, "%s: column %zu shows %.17g, value %.17g", what.c_str(), i, v[i], want[i]);
  }
};
template <class T> static std::string print(Ctx& c, const T& t, const Form& f, const char* what, bool& ok) {
  std::ostringstream o; o.flags(f.fl); o.precision(f.prec); o.fill(f.fill);
  std::string ex = thrown([&] { o << t; });
  ok = c.chk(ex.empty(), std::string("throws-") + what, "%s", ex.c_str()) & c.chk(o.good(), std::string("stream-bad-") + what, "");
  c.chk(o.flags() == f.fl && o.precision() == f.prec && o.fill() == f.fill && o.width() == 0, std::string("stream-format-") + what, "flags %x -> %x, precision %d -> %d", (int)f.fl, (int)o.flags(), f.prec, (int)o.precision());
  return o.str();
}
static void params(Text& t, const gear::GearParameters& g) {
  std::string form = fmt("%d", t.f.prec); size_t start = t.at;
  auto each = [&](const char* type, const std::vector<std::string>& keys, std::function<void(const std::string&)> val) {
    for (auto& k : keys) { if (!t.find(std::string("[") + type + "]", "parameter-type")) return; if (!t.find(k + " \t ", "parameter-name")) return; val(k); } };
  auto num = [&](double want) { size_t a = t.at; std::string l = t.line(); t.at = a; char* e; double d = strtod(l.c_str(), &e); t.c.chk(e != l.c_str() && shown(d, want, t.f), "parameter-value", "%s: %.17g printed as %s", t.what.c_str(), want, l.substr(0, 50).c_str()); t.at += e - l.c_str(); };
  each("int", g.getIntKeys(), [&](const std::string& k) { num(g.getIntVal(k)); });
  each("double", g.getDoubleKeys(), [&](const std::string& k) { num(g.getDoubleVal(k)); });
  each("string", g.getStringKeys(), [&](const std::string& k) { t.find(g.getStringVal(k), "parameter-value"); });
  each("IntVec", g.getIntVecKeys(), [&](const std::string& k) { for (int v : g.getIntVals(k)) { num(v); t.find(" , ", "parameter-separator"); } });
  each("DoubleVec", g.getDoubleVecKeys(), [&](const std::string& k) { for (double v : g.getDoubleVals(k)) { num(v); t.find(" , ", "parameter-separator"); } });
  each("StringVec", g.getStringVecKeys(), [&](const std::string& k) { for (auto& v : g.getStringVals(k)) t.find(v + " , ", "parameter-value"); });
  (void)start;
}
static std::vector<int> dec(std::initializer_list<int> l) { return l; }
static void pr(Ctx& c) {
  Rng& r = c.rng; Spec s; int parts = r.chance(.25) ? ALL : (1 << r.range(0, 9)) | (r.chance(.4) ? 1 << r.range(0, 9) : 0); make(r, s, parts, parts == ALL ? .5 : 1); c.describe = s.desc;
  gear::GearMgrImpl& m = *s.mgr;
  Form f; f.prec = r.chance(.4) ? 6 : r.range(1, 17); f.fl = std::ios::dec | std::ios::skipws; if (r.chance(.3)) f.fl |= r.chance(.5) ? std::ios::scientific : std::ios::fixed; if (r.chance(.1)) f.fl |= std::ios::showpoint; if (r.chance(.1)) f.fl |= std::ios::showpos; f.fill = r.chance(.2) ? '*' : ' ';
  // huge values and long texts now and then
  std::vector<std::unique_ptr<gear::ZPlanarParametersImpl>> own;
  auto big = [&] { return r.sgn() * r.logu(1, r.chance(.5) ? 1e300 : 1e20); };
  if (r.chance(.15)) { auto* z = new gear::ZPlanarParametersImpl(r.range(0, 4), big(), big(), big(), big(), big()); for (int i = r.range(0, 4); i > 0; --i) z->addLayer(r.range(-5, 500), big(), big(), big(), big(), big(), big(), big(), big(), big(), big(), big(), big(), big()); switch (r.range(0, 2)) { case 0: m.setVXDParameters(z); break; case 1: m.setSITParameters(z); break; default: m.setSETParameters(z); } s.desc += "hugeZ "; }
  if (r.chance(.1)) { auto* p = new gear::FTDParametersImpl; for (int i = r.range(0, 3); i > 0; --i) p->addLayer(r.range(1, 20), r.range(1, 4), r.chance(.5), 1, big(), big(), big(), big(), big(), r.sgn(), big(), big(), big(), big(), big(), big(), big(), big(), big(), big(), big(), big()); m.setFTDParameters(p); s.desc += "hugeFTD "; }
  if (r.chance(.1)) { bool dut = r.chance(.5); auto* p = new gear::SiPlanesParametersImpl(r.range(0, 9), dut ? 1 : 2, 3);
    for (int i = r.range(0, 3); i > 0; --i) p->addLayer(i, big(), big(), big(), big(), big(), big(), big(), big(), big(), big(), i + 7, big(), big(), big(), big(), big(), big(), big(), big(), big(), 5, 6, big(), big(), big(), big(), big(), big(), big(), big(), big(), big());
    if (dut) p->addDUT(9, big(), big(), big(), big(), big(), big(), big(), 8, big(), big(), big(), big(), big(), big(), 3, 4, big(), big(), big(), big(), big(), big(), big(), big());
    m.setSiPlanesParameters(p); s.desc += "hugeSi "; }
  if (r.chance(.15)) {
    auto* l = new gear::TrackerPlanesParametersImpl(r.range(0, 9), 1, 5); auto info = [&] { return std::string(r.chance(.5) ? r.range(0, 30) : r.range(800, 3000), r.range('a', 'z')); };
    for (int i = r.range(1, 3); i > 0; --i) { gear::TrackerPlanesLayerImpl y; y.setID(i); y.setInfo(info());
      for (int k = r.range(0, 2); k > 0; --k) y.addMaterialLayer(k, info(), big(), big(), big(), big(), big(), big(), big(), big(), big(), big());
      for (int k = r.range(0, 2); k > 0; --k) y.addSensitiveLayer(k, info(), big(), big(), big(), big(), big(), big(), big(), big(), big(), big(), 3, 4, big(), big(), big(), big());
      l->addLayer(&y); }
    m.setTrackerPlanesParameters(l); s.desc += "longTP "; c.describe = s.desc;
  }
  if (r.chance(.15)) { // values of any size and order; a section without a name
    int which = r.range(0, 11); auto any = [&] { return r.chance(.3) ? r.uni(-50, 50) : big(); }; auto* g = r.chance(.3) ? new gear::CalorimeterParametersImpl(any(), any(), r.range(-3, 20), any()) : new gear::CalorimeterParametersImpl(any(), any(), any(), r.range(-3, 20), any());
    for (int i = r.range(0, 4); i > 0; --i) g->layerLayout().positionLayer(any(), any(), any(), any(), any()); caloSet(m, which, g); s.desc += fmt("oddCalo%d ", which); }
  if (r.chance(.15)) { auto* g = new gear::GearParametersImpl; g->setIntVal("nameless", r.range(-99, 99)); m.setGearParameters("", g); s.desc += "nameless "; }
  c.describe = s.desc;
  Facts before = snapshot(m); bool ok;
  std::string whole = print(c, m, f, "manager", ok); if (!ok) return;
  compare(c, snapshot(m), before, 0, "changed");
  std::map<std::string, int> own_count; std::vector<std::pair<std::string, std::string>> pieces;
  auto piece = [&](const std::string& name, const std::string& t) { pieces.push_back({name, t}); };
  auto has = [&](std::function<void()> g) { return thrown(g).empty(); };
  std::string dn; if (has([&] { dn = m.getDetectorName(); })) c.chk(whole.find(dn) != std::string::npos, "detector-name", "%s", dn.c_str());
  const gear::BField* b = 0; if (has([&] { b = &m.getBField(); })) {
    Text t{c, print(c, *b, f, "field", ok), 0, f, "BField "}; piece("BField", t.s); gear::Vector3D v = b->at(gear::Vector3D(0, 0, 0));
    t.value("Bx = ", v.x(), "field-value"); t.value("By = ", v.y(), "field-value"); t.value("Bz = ", v.z(), "field-value"); params(t, dynamic_cast<const gear::GearParameters&>(*b)); c.ev("sections"); }
  for (int i = 0; i < 12; ++i) {
    const gear::CalorimeterParameters* p = 0; if (!has([&] { p = &caloGet(m, i); })) continue;
    Text t{c, print(c, *p, f, "calorimeter", ok), 0, f, std::string(CALO[i]) + " "}; piece(CALO[i], t.s); params(t, *p); c.ev("sections");
    bool bar = p->getLayoutType() == gear::CalorimeterParameters::BARREL; t.find(bar ? "barrel" : "endcap", "calorimeter-type");
    t.value("symmetry order:", p->getSymmetryOrder(), "calorimeter"); t.value("phi0:", p->getPhi0(), "calorimeter"); static const char* const d[] = {"rMin:", "rMax:", "zMin:", "zMax:"}; for (int k = 0; k < 4; ++k) t.value(d[k], p->getExtent()[k], "calorimeter-extent");
    auto& l = p->getLayerLayout(); t.value("#total", l.getNLayers(), "calorimeter-layers"); t.line();
    for (int k = 0; k < l.getNLayers(); ++k) {
      bool need = k == l.getNLayers() - 1 || (k > 0 && (l.getThickness(k) != l.getThickness(k - 1) || l.getAbsorberThickness(k) != l.getAbsorberThickness(k - 1) || l.getCellSize0(k) != l.getCellSize0(k - 1) || l.getCellSize1(k) != l.getCellSize1(k - 1))) || (k == 0 && l.getThickness(k) != 0);
      size_t a = t.at; std::string lab = "id: " + fmt(f.fl & std::ios::showpos ? "%+d" : "%d", k) + " "; if (!need && t.s.find(lab, t.at) == std::string::npos) continue;
      if (!t.find(lab, "calorimeter-layer")) { t.at = a; continue; }
      t.value("thickness: ", l.getThickness(k), "calorimeter-layer"); t.value("absorber thickness: ", l.getAbsorberThickness(k), "calorimeter-layer"); t.value("distance: ", l.getDistance(k), "calorimeter-layer"); t.value("cellsize-0: ", l.getCellSize0(k), "calorimeter-layer"); t.value("cellsize-1: ", l.getCellSize1(k), "calorimeter-layer"); c.ev("layers");
    }
  }
  static const char* const ZN[] = {"VXD", "SIT", "SET"};
  for (int i = 0; i < 3; ++i) {
    const gear::ZPlanarParameters* p = 0; if (!has([&] { p = i == 0 ? &m.getVXDParameters() : i == 1 ? &m.getSITParameters() : &m.getSETParameters(); })) continue;
    Text t{c, print(c, *p, f, "zplanar", ok), 0, f, std::string(ZN[i]) + " "}; piece(ZN[i], t.s); params(t, *p); c.ev("sections"); c.chk(whole.find(ZN[i]) != std::string::npos, "title", "%s", ZN[i]);
    int ty = p->getVXDType(); t.find(ty == 1 ? "CCD" : ty == 2 ? "CMOS" : ty == 3 ? "HYBRID" : "unknown", "zplanar-type");
    t.value("innerR : ", p->getShellInnerRadius(), "zplanar-shell"); t.value("outerR : ", p->getShellOuterRadius(), "zplanar-shell"); t.value("length : ", p->getShellHalfLength(), "zplanar-shell"); t.value("gap ", p->getShellGap(), "zplanar-shell");
    auto& l = p->getZPlanarLayerLayout(); t.value("Layers : ", l.getNLayers(), "zplanar-layers"); t.find("|  #", "zplanar-table"); t.find("|---", "zplanar-table"); t.line();
    for (int k = 0; k < l.getNLayers(); ++k) { t.row({(double)l.getNLadders(k), l.getLadderDistance(k), l.getLadderWidth(k), l.getLadderLength(k), l.getLadderThickness(k), l.getSensitiveDistance(k), l.getSensitiveWidth(k), l.getSensitiveLength(k), l.getSensitiveThickness(k)}, dec({0, 2, 2, 2, 2, 2, 2, 2, 2}), "zplanar-row"); c.ev("layers"); }
  }
  if (has([&] { m.getFTDParameters(); })) {
    auto& p = m.getFTDParameters(); Text t{c, print(c, p, f, "ftd", ok), 0, f, "FTD "}; piece("FTD", t.s); params(t, p); c.ev("sections"); auto& l = p.getFTDLayerLayout(); t.value("Layers : ", l.getNLayers(), "ftd-layers"); t.find("|  #", "ftd-table"); t.find("|---", "ftd-table"); t.line();
    for (int k = 0; k < l.getNLayers(); ++k) { t.row({(double)l.getNPetals(k), l.getSupportLengthMin(k), l.getSupportLengthMax(k), l.getSupportWidth(k), l.getSupportThickness(k), l.getSensitiveLengthMin(k), l.getSensitiveLengthMax(k), l.getSensitiveWidth(k), l.getSensitiveThickness(k)}, dec({0, 2, 2, 2, 2, 2, 2, 2, 2}), "ftd-row"); c.ev("layers"); }
  }
  if (has([&] { m.getSiPlanesParameters(); })) {
    auto& p = m.getSiPlanesParameters(); Text t{c, print(c, p, f, "siplanes", ok), 0, f, "SiPlanes "}; piece("SiPlanes", t.s); params(t, p); c.ev("sections"); auto& l = p.getSiPlanesLayerLayout(); t.value("Setup ID : ", p.getSiPlanesID(), "siplanes"); bool dut = p.getSiPlanesType() == gear::SiPlanesParameters::TelescopeWithDUT; t.find(dut ? "TelescopeWithDUT" : p.getSiPlanesType() == gear::SiPlanesParameters::TelescopeWithoutDUT ? "TelescopeWithoutDUT" : "unknown", "siplanes-type");
    t.value("telescope planes : ", p.getSiPlanesNumber(), "siplanes"); t.value("Number of layers : ", l.getNLayers(), "siplanes"); t.find("|  ID", "siplanes-table"); t.find("|---", "siplanes-table"); t.line();
    std::vector<int> D = dec({0, 2, 2, 2, 2, 2, 2, 2, 2, 3, 0, 2, 2, 2, 2, 2, 3, 0, 0, 2, 2, 4, 2, 2, 2, 2});
    for (int k = 0; k < l.getNLayers(); ++k) { t.row({(double)l.getID(k), l.getLayerPositionX(k), l.getLayerPositionY(k), l.getLayerPositionZ(k), l.getLayerRotationXY(k), l.getLayerRotationZX(k), l.getLayerRotationZY(k), l.getLayerSizeX(k), l.getLayerSizeY(k), l.getLayerThickness(k), (double)l.getSensitiveID(k), l.getSensitivePositionX(k), l.getSensitivePositionY(k), l.getSensitivePositionZ(k), l.getSensitiveSizeX(k), l.getSensitiveSizeY(k), l.getSensitiveThickness(k), (double)l.getSensitiveNpixelX(k), (double)l.getSensitiveNpixelY(k), l.getSensitivePitchX(k), l.getSensitivePitchY(k), l.getSensitiveResolution(k), l.getSensitiveRotation1(k), l.getSensitiveRotation2(k), l.getSensitiveRotation3(k), l.getSensitiveRotation4(k)}, D, "siplanes-row"); c.ev("layers"); }
    if (dut) { t.find("DUT parameters", "siplanes-dut"); t.find("|  ID", "siplanes-dut"); t.find("|---", "siplanes-dut"); t.line();
      t.row({(double)l.getDUTID(), l.getDUTPositionX(), l.getDUTPositionY(), l.getDUTPositionZ(), l.getDUTSizeX(), l.getDUTSizeY(), l.getDUTThickness(), (double)l.getDUTSensitiveID(), l.getDUTSensitivePositionX(), l.getDUTSensitivePositionY(), l.getDUTSensitivePositionZ(), l.getDUTSensitiveSizeX(), l.getDUTSensitiveSizeY(), l.getDUTSensitiveThickness(), (double)l.getDUTSensitiveNpixelX(), (double)l.getDUTSensitiveNpixelY(), l.getDUTSensitivePitchX(), l.getDUTSensitivePitchY(), l.getDUTSensitiveRotation1(), l.getDUTSensitiveRotation2(), l.getDUTSensitiveRotation3(), l.getDUTSensitiveRotation4()}, dec({0, 2, 2, 2, 2, 2, 3, 0, 2, 2, 2, 2, 2, 3, 0, 0, 2, 2, 2, 2, 2, 2}), "siplanes-dut-row"); }
  }
  if (has([&] { m.getTrackerPlanesParameters(); })) {
    auto& p = m.getTrackerPlanesParameters(); Text t{c, print(c, p, f, "trackerplanes", ok), 0, f, "TrackerPlanes "}; piece("TrackerPlanes", t.s); params(t, p); c.ev("sections"); auto& l = p.getTrackerPlanesLayerLayout(); t.value("Setup ID : ", p.getLayoutID(), "trackerplanes"); t.value("telescope planes : ", p.getLayoutNumberOfLayers(), "trackerplanes"); t.value("Number of layers : ", l.getNLayers(), "trackerplanes"); t.find("| ID ", "trackerplanes-table"); t.find("|---", "trackerplanes-table"); t.line();
    for (int k = 0; k < l.getNLayers(); ++k) {
      auto* y = const_cast<gear::TrackerPlanesLayerImpl*>(l.getLayer(k)); bool nl = y->getInfo().find('\n') != std::string::npos; for (auto& q : y->getMaterialLayerVec()) nl |= q.getInfo().find('\n') != std::string::npos; for (auto& q : y->getSensitiveLayerVec()) nl |= q.getInfo().find('\n') != std::string::npos; if (nl) { c.ev("multi_line_info"); break; }
      t.row({(double)y->getID()}, dec({0}), "trackerplanes-row", y->getInfo(), y->getID());
      for (auto& q : y->getMaterialLayerVec()) t.row({(double)q.getID(), q.getPositionX(), q.getPositionY(), q.getPositionZ(), q.getRotationXY(), q.getRotationZX(), q.getRotationZY(), q.getSizeX(), q.getSizeY(), q.getThickness(), q.getRadLength()}, dec({0, 0, 0, 0, 0, 0, 0, 2, 2, 2, 2}), "trackerplanes-material", q.getInfo(), q.getID());
      for (auto& q : y->getSensitiveLayerVec()) t.row({(double)q.getID(), q.getPositionX(), q.getPositionY(), q.getPositionZ(), q.getRotationXY(), q.getRotationZX(), q.getRotationZY(), q.getSizeX(), q.getSizeY(), q.getThickness(), q.getRadLength(), (double)q.getNpixelX(), (double)q.getNpixelY(), q.getPitchX(), q.getPitchY(), q.getResolutionX(), q.getResolutionY()}, dec({0, 0, 0, 0, 0, 0, 0, 2, 2, 2, 2, 0, 0, 4, 4, 4, 4}), "trackerplanes-sensitive", q.getInfo(), q.getID());
      c.ev("layers");
    }
  }
  if (has([&] { m.getTPCParameters(); })) {
    auto& p = m.getTPCParameters(); Text t{c, print(c, p, f, "tpc", ok), 0, f, "TPC "}; piece("TPC", t.s); params(t, p); c.ev("sections"); t.value("maxDriftLength :", p.getMaxDriftLength(), "tpc"); t.find(p.getCoordinateType() == gear::PadRowLayout2D::POLAR ? "polar" : "cartesian", "tpc-type"); t.value("Number of modules :", p.getNModules(), "tpc");
    for (auto* q : p.getModules()) {
      Text u{c, print(c, *q, f, "module", ok), 0, f, "module "}; c.chk(t.s.find(u.s) != std::string::npos, "tpc-module", "module %d not printed", q->getModuleID()); params(u, *q);
      u.value("Readout frequency :", q->getReadoutFrequency(), "module"); u.find(q->getLocalPadLayout().getCoordinateType() == gear::PadRowLayout2D::POLAR ? "polar" : "cartesian", "module-type"); u.value("Number of pads :", q->getNPads(), "module"); u.value("Number of Rows :", q->getNRows(), "module"); u.value("Offset :", q->getOffset()[0], "module"); u.value(" ; ", q->getOffset()[1], "module");
      double z; if (thrown([&] { z = q->getZPosition(); }).empty()) u.value("zPosition :", z, "module"); else u.find("no z Position", "module-no-z"); u.value("Angle :", q->getAngle(), "module"); u.find("[", "module-extent");
      size_t a = u.at; std::vector<double> v = numbers(u.line()); u.at = a; if (c.chk(v.size() == 4, "module-extent", "%zu numbers", v.size())) for (int k = 0; k < 4; ++k) c.chk(shown(v[k], q->getPlaneExtent()[k], f), "module-extent", "%g %g", v[k], q->getPlaneExtent()[k]);
      c.ev("modules");
    }
  }
  for (auto& k : m.getGearParameterKeys()) { auto& g = m.getGearParameters(k); Text t{c, print(c, g, f, "parameters", ok), 0, f, k + " "}; params(t, g); c.chk(whole.find("name : " + k + " ------- ") != std::string::npos, "title", "%s", k.c_str()); piece(k, t.s); c.ev("sections"); }
  for (auto& k : m.getMaterialNames()) {
    auto& g = m.getSimpleMaterial(k); Text t{c, print(c, g, f, "material", ok), 0, f, "material "}; piece("material", t.s); t.find(k, "material-name"); t.f = Form{8, std::ios::scientific, ' '};
    t.value("A= ", g.getA(), "material"); t.value("Z= ", g.getZ(), "material"); t.value("]= ", g.getDensity(), "material"); t.value("[mm]= ", g.getRadLength(), "material"); t.value("[mm]= ", g.getIntLength(), "material"); c.ev("sections");
  }
  // the manager shows every section as it is printed alone, once
  std::map<std::string, int> times; for (auto& p : pieces) times[p.second]++;
  for (auto& p : pieces) {
    if (p.second.size() < 20) continue;
    long n = 0; for (size_t a = whole.find(p.second); a != std::string::npos; a = whole.find(p.second, a + 1)) ++n;
    c.chk(n >= times[p.second], "section-missing", "%s: printed %ld times, expected %d", p.first.c_str(), n, times[p.second]);
    if (p.second.find("---") != std::string::npos && !isdigit((unsigned char)p.second[0]) && p.first.size() == 3) c.chk(n == times[p.second], "section-repeated", "%s: printed %ld times, expected %d", p.first.c_str(), n, times[p.second]);
  }
  c.state(s.desc.substr(0, 80) + fmt("/%d/%d", f.prec, (int)f.fl)); c.ev("bytes", whole.size());
}
MON_WORKLOAD("P30", "print", pr, 8000, 80000)
