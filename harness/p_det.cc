// P21 calorimeter layers, P25 forward disks, P26 telescope planes.
#include "mon.h"
#include "gear/GEAR.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include <functional>
#include <memory>
using namespace mon;
static double val(Rng& r) { int k = r.range(0, 4); return k == 0 ? 0 : k == 1 ? r.range(-40, 40) * .25 : k == 2 ? r.sgn() * r.logu(1e-9, 1e9) : r.uni(-3000, 3000); }
static bool refused(const std::string& ex) { return ex != ""; }
static int badIndex(Rng& r, int n) { int k = r.range(0, 4); return k == 0 ? -1 : k == 1 ? n : k == 2 ? INT32_MAX : k == 3 ? INT32_MIN : n + r.range(0, 50); }
// ------------------------------------------------------------------------------------- P21
struct CL { double d, t, a, c0, c1; };
static void calo(Ctx& c) {
  Rng& r = c.rng; bool barrel = r.chance(.5); double rMin = r.chance(.05) ? 0 : r.logu(.01, 5000), rMax = rMin + r.logu(.01, 5000), z = barrel ? r.logu(.01, 5000) : r.sgn() * r.logu(.01, 5000), phi = r.uni(-7, 7); int sym = r.range(0, 20); bool defs = r.chance(.2);
  std::unique_ptr<gear::CalorimeterParametersImpl> p; if (barrel) { p.reset(new gear::CalorimeterParametersImpl(rMin, z, sym, phi)); defs = false; } else if (defs) { p.reset(new gear::CalorimeterParametersImpl(rMin, rMax, z, sym)); phi = 0; } else p.reset(new gear::CalorimeterParametersImpl(rMin, rMax, z, sym, phi));
  const gear::CalorimeterParameters* q = p.get(); std::unique_ptr<gear::CalorimeterParametersImpl> copy; std::vector<CL> v; c.describe = fmt("%s rMin %.10g rMax %.10g z %.10g sym %d phi %.10g", barrel ? "barrel" : "endcap", rMin, rMax, z, sym, phi); std::string ops;
  auto check = [&](const gear::CalorimeterParameters& q, const char* who) {
    const gear::LayerLayout& l = q.getLayerLayout(); c.eqi(q.getLayoutType(), barrel ? gear::CalorimeterParameters::BARREL : gear::CalorimeterParameters::ENDCAP, "type", "%s", who); c.eqi(q.getSymmetryOrder(), sym, "symmetry"); c.near(q.getPhi0(), phi, 1e-12, "phi0"); if (!c.eqi(l.getNLayers(), v.size(), "layers", "%s", who)) return;
    double want[4] = {rMin, barrel ? rMin : rMax, barrel ? 0 : z, z}; if (v.size()) { double e = v.back().d + v.back().t; (barrel ? want[1] : want[3]) = e; }
    const std::vector<double>& e = q.getExtent(); if (c.eqi(e.size(), 4, "extent-size")) for (int i = 0; i < 4; ++i) c.near(e[i], want[i], 1e-11, "extent", "%s [%d] with %zu layers", who, i, v.size());
    for (size_t i = 0; i < v.size(); ++i) { c.near(l.getDistance(i), v[i].d, 1e-11, "distance", "%s layer %zu", who, i); c.near(l.getThickness(i), v[i].t, 1e-12, "thickness", "%s layer %zu", who, i); c.near(l.getAbsorberThickness(i), v[i].a, 1e-12, "absorber", "%s layer %zu", who, i); c.near(l.getCellSize0(i), v[i].c0, 1e-12, "cell0", "%s layer %zu", who, i); c.near(l.getCellSize1(i), v[i].c1, 1e-12, "cell1", "%s layer %zu", who, i); }
    int b = badIndex(r, v.size()); int k = r.range(0, 4); double x = 0; std::string ex = thrown([&] { x = k == 0 ? l.getDistance(b) : k == 1 ? l.getThickness(b) : k == 2 ? l.getAbsorberThickness(b) : k == 3 ? l.getCellSize0(b) : l.getCellSize1(b); }); c.chk(refused(ex), "bad-index", "%s index %d of %zu answered %g", who, b, v.size(), x);
  };
  check(*q, "empty"); int n = r.chance(.05) ? r.range(50, 300) : r.range(0, 25); bool odd = r.chance(.25);
  for (int i = 0; i < n; ++i) {
    CL k; k.d = 0; k.t = r.chance(.05) ? 0 : r.logu(.001, 100); k.a = r.chance(.3) ? 0 : r.uni(0, k.t); k.c0 = r.logu(.01, 100); k.c1 = r.logu(.01, 100); if (odd) { k.a = r.chance(.3) ? k.t : val(r); k.c0 = val(r); k.c1 = val(r); } if (v.size() && r.chance(.2)) { double d = k.d; k = v.back(); k.d = d; } bool pos = v.empty() ? r.chance(.8) : r.chance(.3), def = r.chance(.3); if (def) k.a = 0; auto& L = p->layerLayout();
    if (pos) { k.d = v.empty() ? (barrel ? rMin : z) : v.back().d + v.back().t + (r.chance(.2) ? r.uni(-5, 0) : r.logu(.01, 50)); if (def) L.positionLayer(k.d, k.t, k.c0, k.c1); else L.positionLayer(k.d, k.t, k.c0, k.c1, k.a); }
    else { k.d = v.empty() ? 0 : v.back().d + v.back().t; if (def) L.addLayer(k.t, k.c0, k.c1); else L.addLayer(k.t, k.c0, k.c1, k.a); }
    ops += pos ? 'p' : 'a'; v.push_back(k); if (r.chance(.3)) check(*q, "building");
  }
  check(*q, "complete"); copy.reset(new gear::CalorimeterParametersImpl(*p)); if (r.chance(.5)) p.reset(); check(*copy, "copy"); if (p) { p->layerLayout().addLayer(1, 2, 3); check(*copy, "copy-after-change"); }
  c.state(fmt("%d %d ", barrel, sym) + ops);
}
MON_WORKLOAD("P21", "calo", calo, 16000, 160000)
// ------------------------------------------------------------------------------------- P25
struct FL { int np, ns; bool dbl; int type; double op, phi0, al, zp, zo, zs, u[6], s[6]; };
static void ftd(Ctx& c) {
  Rng& r = c.rng; gear::FTDParametersImpl p; std::vector<FL> v; int n = r.range(0, 10); bool direct = r.chance(.3); gear::FTDLayerLayoutImpl dl;
  for (int i = 0; i < n; ++i) {
    FL f; f.np = r.chance(.03) ? r.range(25, 300) : r.range(1, 24); f.dbl = r.chance(.5); f.ns = f.dbl ? 2 * r.range(1, 4) : r.range(1, 6); f.type = r.chance(.5) ? gear::FTDParameters::PIXEL : gear::FTDParameters::STRIP; f.op = r.uni(.01, 1.5); f.phi0 = r.chance(.2) ? 0 : r.uni(-7, 7); f.al = r.uni(-1, 1); f.zo = r.chance(.3) ? 0 : r.logu(.01, 20); f.zp = f.zo + r.logu(1, 2500); f.zs = r.sgn();
    for (int k = 0; k < 6; ++k) { f.u[k] = r.logu(.01, 500); f.s[k] = r.logu(.01, 500); } f.u[1] = r.logu(.01, 10); f.s[1] = r.logu(.01, 10); f.u[3] = f.u[2] + r.logu(.1, 100); f.s[3] = f.s[2] + r.logu(.1, 100); if (r.chance(.1)) std::swap(f.u[2], f.u[3]); if (r.chance(.1)) std::swap(f.s[2], f.s[3]);
    v.push_back(f);
    if (direct) dl.addLayer(f.np, f.ns, f.dbl, f.type, f.op, f.phi0, f.al, f.zp, f.zo, f.zs, f.u[0], f.u[1], f.u[2], f.u[3], f.u[4], f.u[5], f.s[0], f.s[1], f.s[2], f.s[3], f.s[4], f.s[5]);
    else p.addLayer(f.np, f.ns, f.dbl, f.type, f.op, f.phi0, f.al, f.zp, f.zo, f.zs, f.u[0], f.u[1], f.u[2], f.u[3], f.u[4], f.u[5], f.s[0], f.s[1], f.s[2], f.s[3], f.s[4], f.s[5]);
  }
  c.describe = fmt("%d layers", n); const gear::FTDLayerLayout& l = direct ? (const gear::FTDLayerLayout&)dl : p.getFTDLayerLayout(); if (!c.eqi(l.getNLayers(), n, "layers")) return; int pets = 0;
  for (int j = 0; j < 2 * n; ++j) {
    const FL& f = v[j % n]; int side = j < n ? 1 : -1; const char* w = side > 0 ? "+z" : "-z";
    c.eqi(l.getNPetals(j), f.np, "petals", "%s %d", w, j); c.eqi(l.getNSensors(j), f.ns, "sensors", "%s %d", w, j); c.eqi(l.isDoubleSided(j), f.dbl, "double", "%s %d", w, j); c.eqi(l.getSensorType(j), f.type, "type", "%s %d", w, j);
    c.near(l.getPhiHalfDistance(j), f.op, 1e-12, "opening", "%s %d", w, j); c.near(l.getPhi0(j), f.phi0, 1e-12, "phi0", "%s %d", w, j); c.near(l.getAlpha(j), f.al, 1e-12, "alpha", "%s %d", w, j); c.near(l.getZposition(j), f.zp, 1e-12, "zposition", "%s %d", w, j); c.near(l.getZoffset(j), f.zo, 1e-12, "zoffset", "%s %d", w, j); c.near(l.getZoffsetSign0(j), f.zs, 1e-12, "zsign", "%s %d", w, j);
    double u[6] = {l.getSupportRinner(j), l.getSupportThickness(j), l.getSupportLengthMin(j), l.getSupportLengthMax(j), l.getSupportWidth(j), l.getSupportRadLength(j)}, s[6] = {l.getSensitiveRinner(j), l.getSensitiveThickness(j), l.getSensitiveLengthMin(j), l.getSensitiveLengthMax(j), l.getSensitiveWidth(j), l.getSensitiveRadLength(j)};
    for (int k = 0; k < 6; ++k) { c.near(u[k], f.u[k], 1e-12, fmt("support%d", k), "%s %d", w, j); c.near(s[k], f.s[k], 1e-12, fmt("sensitive%d", k), "%s %d", w, j); }
    { double m[6] = {}; std::string ex = thrown([&] { m[0] = l.getMaxRadius(j); m[1] = l.getMaxRadius(j, true); m[2] = l.getThicknessForAngle(j, M_PI / 2, 0); m[3] = l.getThicknessForAngle(j, M_PI / 2, 0, true); m[4] = l.getStartPhi(j, 0); m[5] = l.getStartPhi(j, 0, true); });
      if (c.chk(ex.empty(), "mirror-refused", "%s %d: %s", w, j, ex.c_str())) { c.near(m[0], f.u[0] + f.u[4], 1e-11, "max-radius", "%s %d", w, j); c.near(m[1], f.s[0] + f.s[4], 1e-11, "max-radius", "%s %d", w, j); c.near(m[2], f.u[1], 1e-11, "perpendicular-thickness", "%s %d", w, j); c.near(m[3], f.s[1], 1e-11, "perpendicular-thickness", "%s %d", w, j);
        if (side < 0) { c.near(m[4], l.getStartPhi(j - n, 0), 1e-12, "mirror-start"); c.near(m[5], l.getStartPhi(j - n, 0, true), 1e-12, "mirror-start"); double th = r.uni(.1, 1.5), ph = r.uni(0, 1.5); bool se = r.chance(.5); c.near(l.getThicknessForAngle(j, th, ph, se), l.getThicknessForAngle(j - n, th, ph, se), 1e-12, "mirror-thickness"); } } }
    for (int q = 0; q < f.np; ++q) {
      ++pets; double z = side * (f.zp + (q % 2 ? -1 : 1) * f.zs * f.zo); c.near(l.getSupportZposition(j, q), z, 1e-11, "support-z", "%s disk %d petal %d", w, j, q); c.near(l.getPhiPetalCd(j, q), f.phi0 + 2 * q * f.op, 1e-11, "petal-phi", "%s disk %d petal %d", w, j, q);
      for (int s2 = 1; s2 <= f.ns; ++s2) { bool back = f.dbl && s2 > f.ns / 2; double want = z + side * (back ? 1 : -1) * (f.u[1] + f.s[1]) / 2; c.near(l.getSensitiveZposition(j, q, s2), want, 1e-11, back ? "sensor-z-back" : "sensor-z-front", "%s disk %d petal %d sensor %d of %d", w, j, q, s2, f.ns); }
      if (r.chance(.2)) { int s2 = r.pick(std::vector<int>{0, -1, f.ns + 1, f.ns + 7, 1000000, -1000000}); std::string ex = thrown([&] { l.getSensitiveZposition(j, q, s2); }); c.chk(isGearException(ex), "bad-sensor", "sensor %d of %d: %s", s2, f.ns, ex.c_str()); }
    }
  }
  int b = r.pick(std::vector<int>{2 * n, 2 * n + 1, 2 * n + 50, INT32_MAX}); double x = 0; std::string ex = thrown([&] { x = r.chance(.5) ? l.getSupportZposition(b, 0) : l.getSensitiveWidth(b); }); c.chk(refused(ex), "bad-index", "disk %d of %d answered %g", b, n, x);
  c.state(fmt("%d %d %d", n, direct, pets));
}
MON_WORKLOAD("P25", "ftd", ftd, 24000, 240000)
// ------------------------------------------------------------------------------------- P26
// the named items of a plane, in a table of accessors
typedef gear::SiPlanesLayerLayoutImpl SL;
#define LAYD(X) X(PositionX) X(PositionY) X(PositionZ) X(RotationXY) X(RotationZX) X(RotationZY) X(SizeX) X(SizeY) X(Thickness) X(RadLength)
#define SEND(X) LAYD(X) X(PitchX) X(PitchY) X(Resolution) X(ResolutionX) X(ResolutionY) X(Rotation1) X(Rotation2) X(Rotation3) X(Rotation4)
#define DUTL(X) X(PositionX) X(PositionY) X(PositionZ) X(SizeX) X(SizeY) X(Thickness) X(RadLength)
#define DUTS(X) DUTL(X) X(PitchX) X(PitchY) X(Resolution) X(Rotation1) X(Rotation2) X(Rotation3) X(Rotation4)
struct Pl { int id = 0, sid = 0, nx = 0, ny = 0; std::map<std::string, double> l, s; };
static Pl randPl(Rng& r) { Pl p; p.id = (int)r.next(); p.sid = (int)r.next(); p.nx = r.range(0, 100000); p.ny = r.range(0, 100000);
#define X(n) p.l[#n] = val(r);
  LAYD(X)
#undef X
#define X(n) p.s[#n] = val(r);
  SEND(X)
#undef X
  return p; }
// a plane like an earlier one, with a few other values
static Pl likePl(Rng& r, const Pl& o) { Pl p = o, q = randPl(r); for (auto& k : p.l) if (r.chance(.1)) k.second = q.l[k.first]; for (auto& k : p.s) if (r.chance(.1)) k.second = q.s[k.first]; if (r.chance(.1)) p.id = q.id; if (r.chance(.1)) p.sid = q.sid; if (r.chance(.1)) p.nx = q.nx; if (r.chance(.1)) p.ny = q.ny; return p; }
static void checkPl(Ctx& c, const gear::SiPlanesLayerLayout& l, int i, const Pl& p, const char* who) {
  c.eqi(l.getID(i), p.id, "ID", "%s plane %d", who, i); c.eqi(l.getSensitiveID(i), p.sid, "sensitive-ID", "%s plane %d", who, i); c.eqi(l.getSensitiveNpixelX(i), p.nx, "npixelX", "%s plane %d", who, i); c.eqi(l.getSensitiveNpixelY(i), p.ny, "npixelY", "%s plane %d", who, i);
#define X(n) { auto it = p.l.find(#n); if (it != p.l.end()) c.near(l.getLayer##n(i), it->second, 1e-12, "layer-" #n, "%s plane %d", who, i); }
  LAYD(X)
#undef X
#define X(n) { auto it = p.s.find(#n); if (it != p.s.end()) c.near(l.getSensitive##n(i), it->second, 1e-12, "sensitive-" #n, "%s plane %d", who, i); }
  SEND(X)
#undef X
}
static void checkDut(Ctx& c, const gear::SiPlanesLayerLayout& l, const Pl& p, const char* who) {
  c.eqi(l.getDUTID(), p.id, "DUT-ID", "%s", who); c.eqi(l.getDUTSensitiveID(), p.sid, "DUT-sensitive-ID", "%s", who); c.eqi(l.getDUTSensitiveNpixelX(), p.nx, "DUT-npixelX", "%s", who); c.eqi(l.getDUTSensitiveNpixelY(), p.ny, "DUT-npixelY", "%s", who);
#define X(n) { auto it = p.l.find(#n); c.near(l.getDUT##n(), it == p.l.end() ? 0 : it->second, 1e-12, "DUT-" #n, "%s", who); }
  DUTL(X)
#undef X
#define X(n) { auto it = p.s.find(#n); c.near(l.getDUTSensitive##n(), it == p.s.end() ? 0 : it->second, 1e-12, "DUT-sensitive-" #n, "%s", who); }
  DUTS(X)
#undef X
}
template <class T> static void addFull(T& t, Pl& p) { auto& l = p.l; auto& s = p.s; t.addLayer(p.id, l["PositionX"], l["PositionY"], l["PositionZ"], l["RotationXY"], l["RotationZX"], l["RotationZY"], l["SizeX"], l["SizeY"], l["Thickness"], l["RadLength"], p.sid, s["PositionX"], s["PositionY"], s["PositionZ"], s["RotationXY"], s["RotationZX"], s["RotationZY"], s["SizeX"], s["SizeY"], s["Thickness"], p.nx, p.ny, s["PitchX"], s["PitchY"], s["Resolution"], s["ResolutionX"], s["ResolutionY"], s["Rotation1"], s["Rotation2"], s["Rotation3"], s["Rotation4"], s["RadLength"]); }
template <class T> static void addShort(T& t, Pl& p) { auto& l = p.l; auto& s = p.s; for (const char* k : {"RotationXY", "RotationZX", "RotationZY"}) l[k] = s[k] = 0; s.erase("ResolutionX"); s.erase("ResolutionY"); t.addLayer(p.id, l["PositionX"], l["PositionY"], l["PositionZ"], l["SizeX"], l["SizeY"], l["Thickness"], l["RadLength"], p.sid, s["PositionX"], s["PositionY"], s["PositionZ"], s["SizeX"], s["SizeY"], s["Thickness"], p.nx, p.ny, s["PitchX"], s["PitchY"], s["Resolution"], s["Rotation1"], s["Rotation2"], s["Rotation3"], s["Rotation4"], s["RadLength"]); }
template <class T> static void addDut(T& t, Pl& p) { auto& l = p.l; auto& s = p.s; t.addDUT(p.id, l["PositionX"], l["PositionY"], l["PositionZ"], l["SizeX"], l["SizeY"], l["Thickness"], l["RadLength"], p.sid, s["PositionX"], s["PositionY"], s["PositionZ"], s["SizeX"], s["SizeY"], s["Thickness"], p.nx, p.ny, s["PitchX"], s["PitchY"], s["Resolution"], s["Rotation1"], s["Rotation2"], s["Rotation3"], s["Rotation4"], s["RadLength"]); }
static int setOne(Rng& r, SL& l, int i, Pl& p) {
  int k = r.range(0, 31), j = 0; double x = val(r); int n = (int)r.next();
  if (k == j++) { l.setID(i, n); p.id = n; } else if (k == j++) { l.setSensitiveID(i, n); p.sid = n; } else if (k == j++) { l.setSensitiveNpixelX(i, n); p.nx = n; } else if (k == j++) { l.setSensitiveNpixelY(i, n); p.ny = n; }
#define X(n) else if (k == j++) { l.setLayer##n(i, x); p.l[#n] = x; }
  LAYD(X)
#undef X
#define X(n) else if (k == j++) { l.setSensitive##n(i, x); p.s[#n] = x; }
  SEND(X)
#undef X
  return k;
}
static void siplanes(Ctx& c) {
  Rng& r = c.rng; bool direct = r.chance(.6); SL sl; int id = (int)r.next(), type = r.range(1, 2), num = r.range(0, 30); gear::SiPlanesParametersImpl P(id, type, num); const gear::SiPlanesLayerLayout& l = direct ? (const gear::SiPlanesLayerLayout&)sl : P.getSiPlanesLayerLayout(); std::vector<Pl> v; Pl dut; bool hasDut = false; std::string ops; int n = r.range(0, 25);
  c.describe = fmt("%s %d operations", direct ? "layout" : "parameters", n);
  auto check = [&](const gear::SiPlanesLayerLayout& l, const char* who) { if (!c.eqi(l.getNLayers(), v.size(), "planes", "%s", who)) return; for (size_t i = 0; i < v.size(); ++i) checkPl(c, l, i, v[i], who); checkDut(c, l, dut, who); int b = badIndex(r, v.size()); std::string ex = thrown([&] { if (r.chance(.5)) l.getLayerPositionX(b); else l.getSensitiveResolution(b); }); c.chk(refused(ex), "bad-index", "%s plane %d of %zu", who, b, v.size()); };
  for (int i = 0; i < n; ++i) {
    int k = r.range(0, 9);
    if (k < 3 || v.empty()) { Pl p = v.size() && r.chance(.3) ? likePl(r, r.pick(v)) : randPl(r); if (direct) addFull(sl, p); else addFull(P, p); v.push_back(p); ops += 'F'; }
    else if (k == 3) { Pl p = r.chance(.3) ? likePl(r, r.pick(v)) : randPl(r); if (direct) addShort(sl, p); else addShort(P, p); v.push_back(p); ops += 'S'; }
    else if (k == 4) { dut = hasDut && r.chance(.5) ? likePl(r, dut) : v.size() && r.chance(.2) ? likePl(r, r.pick(v)) : randPl(r); hasDut = true; if (direct) addDut(sl, dut); else addDut(P, dut); ops += 'D'; }
    else if (direct) { int m = r.range(0, v.size() - 1); ops += char('a' + setOne(r, sl, m, v[m]) % 26); }
    else { int m = r.range(0, 2), x = (int)r.next(); if (m == 0) { P.setSiPlanesID(x); id = x; } else if (m == 1) { P.setSiPlanesType(x); type = x; } else { P.setSiPlanesNumber(x); num = x; } ops += char('x' + m); }
    if (r.chance(.3)) check(l, "building");
  }
  check(l, "complete"); c.eqi(P.getSiPlanesID(), id, "setup-id"); c.eqi(P.getSiPlanesType(), type, "setup-type"); c.eqi(P.getSiPlanesNumber(), num, "setup-number"); (void)hasDut;
  if (direct) { SL copy(sl); check(copy, "copy"); if (v.size()) { Pl t = v[0]; setOne(r, sl, 0, t); check(copy, "copy-after-change"); } }
  c.state(fmt("%d ", direct) + ops);
}
MON_WORKLOAD("P26", "siplanes", siplanes, 24000, 240000)
#define MATD(X) X(PositionX) X(PositionY) X(PositionZ) X(RotationXY) X(RotationZX) X(RotationZY) X(SizeX) X(SizeY) X(Thickness) X(RadLength)
#define TSND(X) MATD(X) X(PitchX) X(PitchY) X(ResolutionX) X(ResolutionY)
struct TM { int id = 0, nx = 0, ny = 0; std::string info; std::map<std::string, double> d; bool sens = false; };
struct TL { int id = 0; std::string info; std::vector<TM> m, s; };
static std::string text(Rng& r) { std::string s; for (int i = r.range(0, r.chance(.05) ? 3000 : 20); i > 0; --i) s += (char)r.range(32, 126); return s; }
static void checkTL(Ctx& c, const gear::TrackerPlanesLayerImpl* p, const TL& t, const char* who) {
  if (!c.chk(p != 0, "layer-missing", "%s", who)) return; c.eqi(p->getID(), t.id, "layer-ID", "%s", who); c.eq(p->getInfo(), t.info, "layer-info"); auto* q = const_cast<gear::TrackerPlanesLayerImpl*>(p); if (!c.eqi(p->getNMaterialLayers(), t.m.size(), "materials", "%s", who) || !c.eqi(p->getNSensitiveLayers(), t.s.size(), "sensors", "%s", who)) return;
  if (!c.eqi(q->getMaterialLayerVec().size(), t.m.size(), "materials", "%s", who) || !c.eqi(q->getSensitiveLayerVec().size(), t.s.size(), "sensors", "%s", who)) return;
  for (size_t i = 0; i < t.m.size(); ++i) { const auto& x = q->getMaterialLayerVec()[i]; const TM& w = t.m[i]; c.eqi(x.getID(), w.id, "material-ID", "%s %zu", who, i); c.eq(x.getInfo(), w.info, "material-info");
#define X(n) c.near(x.get##n(), w.d.at(#n), 1e-12, "material-" #n, "%s %zu", who, i);
    MATD(X)
#undef X
  }
  for (size_t i = 0; i < t.s.size(); ++i) { const auto& x = q->getSensitiveLayerVec()[i]; const TM& w = t.s[i]; c.eqi(x.getID(), w.id, "sensor-ID", "%s %zu", who, i); c.eq(x.getInfo(), w.info, "sensor-info"); c.eqi(x.getNpixelX(), w.nx, "sensor-npixelX", "%s %zu", who, i); c.eqi(x.getNpixelY(), w.ny, "sensor-npixelY", "%s %zu", who, i);
#define X(n) c.near(x.get##n(), w.d.at(#n), 1e-12, "sensor-" #n, "%s %zu", who, i);
    TSND(X)
#undef X
  }
}
static TM randTM(Rng& r, bool sens) { TM t; t.sens = sens; t.id = (int)r.next(); t.nx = r.range(0, 1 << 20); t.ny = r.range(0, 1 << 20); t.info = text(r);
#define X(n) t.d[#n] = val(r);
  TSND(X)
#undef X
  return t; }
static void trackerplanes(Ctx& c) {
  Rng& r = c.rng; bool direct = r.chance(.5); gear::TrackerPlanesLayerLayoutImpl dl; int id = (int)r.next(), type = r.range(0, 9), num = r.range(0, 30); gear::TrackerPlanesParametersImpl P(id, type, num); const gear::TrackerPlanesLayerLayout& l = direct ? (const gear::TrackerPlanesLayerLayout&)dl : P.getTrackerPlanesLayerLayout(); std::vector<TL> v; int n = r.range(0, 12); std::string ops; c.describe = fmt("%s %d layers", direct ? "layout" : "parameters", n);
  for (int i = 0; i < n; ++i) {
    TL t; t.id = r.chance(.2) && i ? v[r.range(0, i - 1)].id : (int)r.next(); t.info = text(r); std::unique_ptr<gear::TrackerPlanesLayerImpl> p; bool viaVec = r.chance(.4); int nm = r.range(0, 4), ns = r.range(0, 4); gear::TrackerPlanesMaterialLayerImplVec mv; gear::TrackerPlanesSensitiveLayerImplVec sv;
    for (int k = 0; k < nm; ++k) t.m.push_back(randTM(r, false)); for (int k = 0; k < ns; ++k) t.s.push_back(randTM(r, true));
    if (viaVec) {
      for (auto& w : t.m) { gear::TrackerPlanesMaterialLayerImpl x; x.setID(w.id); x.setInfo(w.info);
#define X(n) x.set##n(w.d.at(#n));
        MATD(X)
#undef X
        mv.push_back(x); }
      for (auto& w : t.s) { gear::TrackerPlanesSensitiveLayerImpl x; x.setID(w.id); x.setInfo(w.info); x.setNpixelX(w.nx); x.setNpixelY(w.ny);
#define X(n) x.set##n(w.d.at(#n));
        TSND(X)
#undef X
        sv.push_back(x); }
      p.reset(new gear::TrackerPlanesLayerImpl(mv, sv));
    } else { p.reset(new gear::TrackerPlanesLayerImpl); for (auto& w : t.m) { auto& d = w.d; p->addMaterialLayer(w.id, w.info, d["PositionX"], d["PositionY"], d["PositionZ"], d["RotationXY"], d["RotationZX"], d["RotationZY"], d["SizeX"], d["SizeY"], d["Thickness"], d["RadLength"]); }
      for (auto& w : t.s) { auto& d = w.d; p->addSensitiveLayer(w.id, w.info, d["PositionX"], d["PositionY"], d["PositionZ"], d["RotationXY"], d["RotationZX"], d["RotationZY"], d["SizeX"], d["SizeY"], d["Thickness"], d["RadLength"], w.nx, w.ny, d["PitchX"], d["PitchY"], d["ResolutionX"], d["ResolutionY"]); } }
    c.eqi(p->getID(), 0, "new-ID"); p->setID(t.id); p->setInfo(t.info); checkTL(c, p.get(), t, "own"); if (direct) dl.addLayer(p.get()); else P.addLayer(p.get()); v.push_back(t); ops += fmt("%d%d%d", viaVec, nm, ns);
    // the layout keeps a copy: later changes to the caller's layer are not seen
    p->setID(t.id + 1u); p->setInfo("changed"); p->getMaterialLayerVec().clear(); if (r.chance(.5)) p->addSensitiveLayer(1, "x", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1);
  }
  if (!c.eqi(l.getNLayers(), n, "layers")) return;
  for (int i = 0; i < n; ++i) { checkTL(c, l.getLayer(i), v[i], "by index"); int first = 0; while (v[first].id != v[i].id) ++first; checkTL(c, l.getLayerByID(v[i].id), v[first], "by ID"); c.chk(l.getLayerByID(v[i].id) == l.getLayer(first), "same-layer"); }
  c.chk(l.getLayer(n) == 0 && l.getLayer(0xffffffffu) == 0 && l.getLayer(n + r.range(0, 99)) == 0, "bad-index"); int u; bool used; do { u = (int)r.next(); used = false; for (auto& t : v) used |= t.id == u; } while (used); c.chk(l.getLayerByID(u) == 0, "unknown-ID");
  c.eqi(P.getLayoutID(), id, "layout-id"); c.eqi(P.getLayoutType(), type, "layout-type"); c.eqi(P.getLayoutNumberOfLayers(), num, "layout-number"); int x = (int)r.next(); P.setLayoutID(x); P.setLayoutType(x + 1u); P.setLayoutNumberOfLayers(x + 2u); c.eqi(P.getLayoutID(), x, "layout-id"); c.eqi(P.getLayoutType(), (int)(x + 1u), "layout-type"); c.eqi(P.getLayoutNumberOfLayers(), (int)(x + 2u), "layout-number");
  c.state(fmt("%d ", direct) + ops);
}
MON_WORKLOAD("P26", "trackerplanes", trackerplanes, 12000, 120000)
