// Random detector descriptions: built through the public API, written as an independent XML document, and as a list of
// expected facts; plus a snapshot of everything a GearMgr answers through its public getters.
#ifndef GEN_H
#define GEN_H
#include "padgen.h"
#include "gear/BField.h"
#include "gear/CalorimeterParameters.h"
#include "gear/FTDLayerLayout.h"
#include "gear/GEAR.h"
#include "gear/GearMgr.h"
#include "gear/LayerLayout.h"
#include "gear/SimpleMaterial.h"
#include "gear/SiPlanesLayerLayout.h"
#include "gear/TPCModule.h"
#include "gear/ZPlanarLayerLayout.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/ConstantBField.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/GearMgrImpl.h"
#include "gearimpl/GearParametersImpl.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/SimpleMaterialImpl.h"
#include "gearimpl/TPCModuleImpl.h"
#include "gearimpl/TPCParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearxml/GearXML.h"
#include <climits>

namespace gen {
using namespace mon;
using xt::X;

// ---- facts --------------------------------------------------------------------------------
struct Val { char k; double d; std::string s; };
struct Facts {
  std::map<std::string, Val> m;
  void d(const std::string& k, double v) { m[k] = {'d', v, ""}; }
  void i(const std::string& k, long v) { m[k] = {'i', (double)v, ""}; }
  void s(const std::string& k, const std::string& v) { m[k] = {'s', 0, v}; }
  void put(const Facts& o) { for (auto& k : o.m) m[k.first] = k.second; }
  size_t size() const { return m.size(); }
};
inline std::string group(const std::string& k) {   // the name of a fact without running numbers
  std::string o; for (char c : k) { if (isdigit((unsigned char)c)) { if (o.empty() || o.back() != '#') o += '#'; } else if (c == '\'') break; else o += c; } return o;
}
// lengths and angles derived from several numbers get an absolute tolerance on the scale of the detector
inline bool derived(const std::string& k) { return k.find("xtent") != std::string::npos || k.find(".center") != std::string::npos || k.find(".c_") != std::string::npos || k.find(".distance") != std::string::npos; }
inline bool same(const std::string& key, const Val& a, const Val& b, double tol) {
  if (a.k != b.k) return false;
  if (a.k == 's') return a.s == b.s;
  if (a.k == 'i') return a.d == b.d;
  if (a.d == b.d) return true;
  if (std::isnan(a.d) && std::isnan(b.d)) return true;
  if (tol > 0 && (key.find("xtent2") != std::string::npos || key.find("xtent3") != std::string::npos || (key.find(".center") != std::string::npos && key.compare(key.size() - 2, 2, "_b") == 0)) && std::fabs(std::remainder(a.d - b.d, 2 * M_PI)) < 1e4 * tol) return true;   // azimuth
  return std::fabs(a.d - b.d) <= tol * std::max(std::fabs(a.d), std::fabs(b.d)) + (derived(key) ? 1e4 * tol : 0);
}
inline std::string str(const Val& v) { return v.k == 's' ? "\"" + v.s + "\"" : fmt("%.17g", v.d); }
// every fact of want must be in got (all: and nothing else)
inline void compare(Ctx& c, const Facts& got, const Facts& want, double tol, const std::string& what, bool all = true) {
  int bad = 0;
  for (auto& k : want.m) {
    auto it = got.m.find(k.first);
    if (it == got.m.end()) { if (++bad < 8) c.violation(what + "/missing/" + group(k.first), k.first + " missing, expected " + str(k.second)); continue; }
    if (!same(k.first, it->second, k.second, tol) && ++bad < 8)
      c.violation(what + "/" + group(k.first), k.first + " is " + str(it->second) + " expected " + str(k.second));
  }
  if (all) for (auto& k : got.m) if (!want.m.count(k.first) && ++bad < 8) c.violation(what + "/extra/" + group(k.first), k.first + " = " + str(k.second) + " not expected");
  c.ev(what, want.size());
}

// ---- snapshot -----------------------------------------------------------------------------
inline void snapParams(Facts& f, const std::string& p, const gear::GearParameters& g) {
  auto keys = [&](const char* t, const std::vector<std::string>& v) { std::string s; for (auto& k : v) s += k + "\x01"; f.s(p + ".keys." + t, s); };
  keys("int", g.getIntKeys()); keys("double", g.getDoubleKeys()); keys("string", g.getStringKeys());
  keys("intvec", g.getIntVecKeys()); keys("doublevec", g.getDoubleVecKeys()); keys("stringvec", g.getStringVecKeys());
  for (auto& k : g.getIntKeys()) f.i(p + ".intpar'" + k, g.getIntVal(k));
  for (auto& k : g.getDoubleKeys()) f.d(p + ".doublepar'" + k, g.getDoubleVal(k));
  for (auto& k : g.getStringKeys()) f.s(p + ".stringpar'" + k, g.getStringVal(k));
  for (auto& k : g.getIntVecKeys()) { auto& v = g.getIntVals(k); f.i(p + ".intvec.n'" + k, v.size()); for (size_t i = 0; i < v.size(); ++i) f.i(p + ".intvec.v'" + k + fmt("'%zu", i), v[i]); }
  for (auto& k : g.getDoubleVecKeys()) { auto& v = g.getDoubleVals(k); f.i(p + ".doublevec.n'" + k, v.size()); for (size_t i = 0; i < v.size(); ++i) f.d(p + ".doublevec.v'" + k + fmt("'%zu", i), v[i]); }
  for (auto& k : g.getStringVecKeys()) { auto& v = g.getStringVals(k); f.i(p + ".stringvec.n'" + k, v.size()); for (size_t i = 0; i < v.size(); ++i) f.s(p + ".stringvec.v'" + k + fmt("'%zu", i), v[i]); }
}
inline void snapCalo(Facts& f, const std::string& p, const gear::CalorimeterParameters& g) {
  f.i(p + ".type", g.getLayoutType()); f.i(p + ".symmetry", g.getSymmetryOrder()); f.d(p + ".phi0", g.getPhi0());
  auto& e = g.getExtent(); f.i(p + ".extent.n", e.size()); for (size_t i = 0; i < e.size(); ++i) f.d(p + fmt(".extent%zu", i), e[i]);
  auto& l = g.getLayerLayout(); f.i(p + ".nLayers", l.getNLayers());
  for (int i = 0; i < l.getNLayers(); ++i) {
    std::string q = p + fmt(".layer%d.", i);
    f.d(q + "distance", l.getDistance(i)); f.d(q + "thickness", l.getThickness(i)); f.d(q + "absorber", l.getAbsorberThickness(i));
    f.d(q + "cell_a", l.getCellSize0(i)); f.d(q + "cell_b", l.getCellSize1(i));
  }
  snapParams(f, p, g);
}
inline void snapZ(Facts& f, const std::string& p, const gear::ZPlanarParameters& g) {
  f.i(p + ".type", g.getType()); f.d(p + ".shell.halfLength", g.getShellHalfLength()); f.d(p + ".shell.gap", g.getShellGap());
  f.d(p + ".shell.inner", g.getShellInnerRadius()); f.d(p + ".shell.outer", g.getShellOuterRadius()); f.d(p + ".shell.rad", g.getShellRadLength());
  auto& l = g.getZPlanarLayerLayout(); f.i(p + ".nLayers", l.getNLayers());
  for (int i = 0; i < l.getNLayers(); ++i) {
    std::string q = p + fmt(".layer%d.", i);
    f.i(q + "nLadders", l.getNLadders(i)); f.d(q + "phi0", l.getPhi0(i));
    f.d(q + "lad.distance", l.getLadderDistance(i)); f.d(q + "lad.thickness", l.getLadderThickness(i)); f.d(q + "lad.offset", l.getLadderOffset(i));
    f.d(q + "lad.width", l.getLadderWidth(i)); f.d(q + "lad.length", l.getLadderLength(i)); f.d(q + "lad.rad", l.getLadderRadLength(i));
    f.d(q + "sen.distance", l.getSensitiveDistance(i)); f.d(q + "sen.thickness", l.getSensitiveThickness(i)); f.d(q + "sen.offset", l.getSensitiveOffset(i));
    f.d(q + "sen.width", l.getSensitiveWidth(i)); f.d(q + "sen.length", l.getSensitiveLength(i)); f.d(q + "sen.rad", l.getSensitiveRadLength(i));
  }
  snapParams(f, p, g);
}
inline void snapFTD(Facts& f, const std::string& p, const gear::FTDParameters& g) {
  auto& l = g.getFTDLayerLayout(); f.i(p + ".nLayers", l.getNLayers());
  for (int i = 0; i < l.getNLayers(); ++i) {
    std::string q = p + fmt(".layer%d.", i);
    f.i(q + "nPetals", l.getNPetals(i)); f.i(q + "nSensors", l.getNSensors(i)); f.i(q + "double", l.isDoubleSided(i)); f.i(q + "type", l.getSensorType(i));
    f.d(q + "openAngle", l.getPhiHalfDistance(i)); f.d(q + "phi0", l.getPhi0(i)); f.d(q + "alpha", l.getAlpha(i));
    f.d(q + "zpos", l.getZposition(i)); f.d(q + "zoff", l.getZoffset(i)); f.d(q + "zsign", l.getZoffsetSign0(i));
    f.d(q + "sup.rInner", l.getSupportRinner(i)); f.d(q + "sup.thickness", l.getSupportThickness(i)); f.d(q + "sup.lmin", l.getSupportLengthMin(i));
    f.d(q + "sup.lmax", l.getSupportLengthMax(i)); f.d(q + "sup.width", l.getSupportWidth(i)); f.d(q + "sup.rad", l.getSupportRadLength(i));
    f.d(q + "sen.rInner", l.getSensitiveRinner(i)); f.d(q + "sen.thickness", l.getSensitiveThickness(i)); f.d(q + "sen.lmin", l.getSensitiveLengthMin(i));
    f.d(q + "sen.lmax", l.getSensitiveLengthMax(i)); f.d(q + "sen.width", l.getSensitiveWidth(i)); f.d(q + "sen.rad", l.getSensitiveRadLength(i));
  }
  snapParams(f, p, g);
}
inline void snapSi(Facts& f, const std::string& p, const gear::SiPlanesParameters& g) {
  f.i(p + ".id", g.getSiPlanesID()); f.i(p + ".type", g.getSiPlanesType()); f.i(p + ".number", g.getSiPlanesNumber());
  auto& l = g.getSiPlanesLayerLayout(); f.i(p + ".nLayers", l.getNLayers());
  for (int i = 0; i < l.getNLayers(); ++i) {
    std::string q = p + fmt(".layer%d.", i);
    f.i(q + "ID", l.getID(i)); f.d(q + "posX", l.getLayerPositionX(i)); f.d(q + "posY", l.getLayerPositionY(i)); f.d(q + "posZ", l.getLayerPositionZ(i));
    f.d(q + "rotXY", l.getLayerRotationXY(i)); f.d(q + "rotZX", l.getLayerRotationZX(i)); f.d(q + "rotZY", l.getLayerRotationZY(i));
    f.d(q + "sizeX", l.getLayerSizeX(i)); f.d(q + "sizeY", l.getLayerSizeY(i)); f.d(q + "thick", l.getLayerThickness(i)); f.d(q + "rad", l.getLayerRadLength(i));
    q += "sen.";
    f.i(q + "ID", l.getSensitiveID(i)); f.d(q + "posX", l.getSensitivePositionX(i)); f.d(q + "posY", l.getSensitivePositionY(i)); f.d(q + "posZ", l.getSensitivePositionZ(i));
    f.d(q + "rotXY", l.getSensitiveRotationXY(i)); f.d(q + "rotZX", l.getSensitiveRotationZX(i)); f.d(q + "rotZY", l.getSensitiveRotationZY(i));
    f.d(q + "sizeX", l.getSensitiveSizeX(i)); f.d(q + "sizeY", l.getSensitiveSizeY(i)); f.d(q + "thick", l.getSensitiveThickness(i)); f.d(q + "rad", l.getSensitiveRadLength(i));
    f.i(q + "npixX", l.getSensitiveNpixelX(i)); f.i(q + "npixY", l.getSensitiveNpixelY(i)); f.d(q + "pitchX", l.getSensitivePitchX(i)); f.d(q + "pitchY", l.getSensitivePitchY(i));
    f.d(q + "res", l.getSensitiveResolution(i)); f.d(q + "resX", l.getSensitiveResolutionX(i)); f.d(q + "resY", l.getSensitiveResolutionY(i));
    f.d(q + "rot_a", l.getSensitiveRotation1(i)); f.d(q + "rot_b", l.getSensitiveRotation2(i)); f.d(q + "rot_c", l.getSensitiveRotation3(i)); f.d(q + "rot_d", l.getSensitiveRotation4(i));
  }
  if (g.getSiPlanesType() == gear::SiPlanesParameters::TelescopeWithDUT) {
    std::string q = p + ".dut.";
    f.i(q + "ID", l.getDUTID()); f.d(q + "posX", l.getDUTPositionX()); f.d(q + "posY", l.getDUTPositionY()); f.d(q + "posZ", l.getDUTPositionZ());
    f.d(q + "sizeX", l.getDUTSizeX()); f.d(q + "sizeY", l.getDUTSizeY()); f.d(q + "thick", l.getDUTThickness()); f.d(q + "rad", l.getDUTRadLength());
    q += "sen.";
    f.i(q + "ID", l.getDUTSensitiveID()); f.d(q + "posX", l.getDUTSensitivePositionX()); f.d(q + "posY", l.getDUTSensitivePositionY()); f.d(q + "posZ", l.getDUTSensitivePositionZ());
    f.d(q + "sizeX", l.getDUTSensitiveSizeX()); f.d(q + "sizeY", l.getDUTSensitiveSizeY()); f.d(q + "thick", l.getDUTSensitiveThickness()); f.d(q + "rad", l.getDUTSensitiveRadLength());
    f.i(q + "npixX", l.getDUTSensitiveNpixelX()); f.i(q + "npixY", l.getDUTSensitiveNpixelY()); f.d(q + "pitchX", l.getDUTSensitivePitchX()); f.d(q + "pitchY", l.getDUTSensitivePitchY());
    f.d(q + "res", l.getDUTSensitiveResolution());
    f.d(q + "rot_a", l.getDUTSensitiveRotation1()); f.d(q + "rot_b", l.getDUTSensitiveRotation2()); f.d(q + "rot_c", l.getDUTSensitiveRotation3()); f.d(q + "rot_d", l.getDUTSensitiveRotation4());
  }
  snapParams(f, p, g);
}
inline void snapTP(Facts& f, const std::string& p, const gear::TrackerPlanesParameters& g) {
  f.i(p + ".id", g.getLayoutID()); f.i(p + ".number", g.getLayoutNumberOfLayers());
  auto& l = g.getTrackerPlanesLayerLayout(); f.i(p + ".nLayers", l.getNLayers());
  for (int i = 0; i < l.getNLayers(); ++i) {
    auto* y = const_cast<gear::TrackerPlanesLayerImpl*>(l.getLayer(i));
    std::string q = p + fmt(".layer%d.", i);
    f.i(q + "ID", y->getID()); f.s(q + "info", y->getInfo()); f.i(q + "nMat", y->getNMaterialLayers()); f.i(q + "nSen", y->getNSensitiveLayers());
    int j = 0;
    for (auto& m : y->getMaterialLayerVec()) {
      std::string t = q + fmt("mat%d.", j++);
      f.i(t + "ID", m.getID()); f.s(t + "info", m.getInfo()); f.d(t + "posX", m.getPositionX()); f.d(t + "posY", m.getPositionY()); f.d(t + "posZ", m.getPositionZ());
      f.d(t + "rotXY", m.getRotationXY()); f.d(t + "rotZX", m.getRotationZX()); f.d(t + "rotZY", m.getRotationZY());
      f.d(t + "sizeX", m.getSizeX()); f.d(t + "sizeY", m.getSizeY()); f.d(t + "thick", m.getThickness()); f.d(t + "rad", m.getRadLength());
    }
    j = 0;
    for (auto& m : y->getSensitiveLayerVec()) {
      std::string t = q + fmt("sen%d.", j++);
      f.i(t + "ID", m.getID()); f.s(t + "info", m.getInfo()); f.d(t + "posX", m.getPositionX()); f.d(t + "posY", m.getPositionY()); f.d(t + "posZ", m.getPositionZ());
      f.d(t + "rotXY", m.getRotationXY()); f.d(t + "rotZX", m.getRotationZX()); f.d(t + "rotZY", m.getRotationZY());
      f.d(t + "sizeX", m.getSizeX()); f.d(t + "sizeY", m.getSizeY()); f.d(t + "thick", m.getThickness()); f.d(t + "rad", m.getRadLength());
      f.i(t + "npixX", m.getNpixelX()); f.i(t + "npixY", m.getNpixelY()); f.d(t + "pitchX", m.getPitchX()); f.d(t + "pitchY", m.getPitchY());
      f.d(t + "resX", m.getResolutionX()); f.d(t + "resY", m.getResolutionY());
    }
  }
  snapParams(f, p, g);
}
// a polar extent that covers the full circle may start anywhere
inline std::vector<double> fullCircle(std::vector<double> e) { if (e.size() == 4 && fabs(e[3] - e[2] - 2 * M_PI) < 1e-6) { e[2] = 0; e[3] = 2 * M_PI; } return e; }
inline void snapExt(Facts& f, const std::string& p, const std::vector<double>& e0) { std::vector<double> e = fullCircle(e0); f.i(p + ".n", e.size()); for (size_t i = 0; i < e.size(); ++i) f.d(p + fmt("%zu", i), e[i]); }
inline void snapPads(Facts& f, const std::string& p, const gear::PadRowLayout2D& l, int maxRows = 25) {
  f.i(p + ".layoutType", l.getPadLayoutType()); f.i(p + ".implType", l.getPadLayoutImplType()); f.i(p + ".coord", l.getCoordinateType()); f.i(p + ".shape", l.getPadShape());
  f.i(p + ".nPads", l.getNPads()); f.i(p + ".nRows", l.getNRows()); snapExt(f, p + ".extent", l.getPlaneExtent());
  int n = l.getNRows(), step = std::max(1, n / maxRows);
  for (int i = 0; i < n; i += step) {
    std::string q = p + fmt(".row%d.", i);
    auto pads = l.getPadsInRow(i);
    f.d(q + "height", l.getRowHeight(i)); f.i(q + "pads", pads.size());
    if (pads.empty()) continue;
    for (size_t k : {(size_t)0, pads.size() / 2, pads.size() - 1}) {
      std::string t = q + fmt("pad%zu.", k); int id = pads[k];
      f.i(t + "index", id); auto ce = l.getPadCenter(id); f.d(t + "c_a", ce[0]); f.d(t + "c_b", ce[1]);
      f.d(t + "width", l.getPadWidth(id)); f.d(t + "height", l.getPadHeight(id)); f.d(t + "pitch", l.getPadPitch(id));
    }
  }
}
inline void snapTPC(Facts& f, const std::string& p, const gear::TPCParameters& g) {
  f.d(p + ".maxDrift", g.getMaxDriftLength()); f.i(p + ".coord", g.getCoordinateType()); f.d(p + ".driftVelocity", g.getDriftVelocity());
  f.i(p + ".nModules", g.getNModules()); snapExt(f, p + ".extent", g.getPlaneExtent());
  for (auto* m : g.getModules()) {
    std::string q = p + fmt(".module%d", m->getModuleID());
    f.i(q + ".ID", m->getModuleID()); f.d(q + ".freq", m->getReadoutFrequency()); f.d(q + ".off_a", m->getOffset()[0]); f.d(q + ".off_b", m->getOffset()[1]);
    f.d(q + ".angle", m->getAngle()); f.d(q + ".border", m->getBorderWidth()); f.i(q + ".tpcCoord", m->getTPCCoordinateType());
    double z = 0; std::string ex = thrown([&] { z = m->getZPosition(); }); f.s(q + ".zthrows", ex); if (ex.empty()) f.d(q + ".z", z);
    snapPads(f, q + ".local", m->getLocalPadLayout());
    snapExt(f, q + ".planeExtent", m->getPlaneExtent()); snapExt(f, q + ".moduleExtent", m->getModuleExtent()); snapExt(f, q + ".localModuleExtent", m->getLocalModuleExtent());
    int n = m->getNPads();
    for (int k = 0; k < 5 && n > 0; ++k) {
      auto pads = m->getPadsInRow((m->getNRows() - 1) * k / 4); if (pads.empty()) continue;
      auto ce = m->getPadCenter(pads[pads.size() / 2]); f.d(q + fmt(".center%d_a", k), ce[0]); f.d(q + fmt(".center%d_b", k), ce[1]);
    }
    snapParams(f, q, *m);
  }
  snapParams(f, p, g);
}
template <class F> void section(Facts& f, const std::string& name, F get) {
  std::string ex = thrown([&] { get(); });
  f.s(name + ".present", ex.empty() ? "yes" : ex.find("UnknownParameter") != std::string::npos ? "no" : ex);
}
static const char* const CALO[] = {"EcalBarrel", "EcalEndcap", "EcalPlug", "YokeBarrel", "YokeEndcap", "YokePlug", "HcalBarrel", "HcalEndcap", "HcalRing", "Lcal", "LHcal", "BeamCal"};
inline const gear::CalorimeterParameters& caloGet(const gear::GearMgr& g, int i) {
  switch (i) {
    case 0: return g.getEcalBarrelParameters();
    case 1: return g.getEcalEndcapParameters();
    case 2: return g.getEcalPlugParameters();
    case 3: return g.getYokeBarrelParameters();
    case 4: return g.getYokeEndcapParameters();
    case 5: return g.getYokePlugParameters();
    case 6: return g.getHcalBarrelParameters();
    case 7: return g.getHcalEndcapParameters();
    case 8: return g.getHcalRingParameters();
    case 9: return g.getLcalParameters();
    case 10: return g.getLHcalParameters();
    case 11: return g.getBeamCalParameters();
  }
  abort();
}
inline void caloSet(gear::GearMgr& g, int i, gear::CalorimeterParameters* c) {
  switch (i) {
    case 0: g.setEcalBarrelParameters(c); return;
    case 1: g.setEcalEndcapParameters(c); return;
    case 2: g.setEcalPlugParameters(c); return;
    case 3: g.setYokeBarrelParameters(c); return;
    case 4: g.setYokeEndcapParameters(c); return;
    case 5: g.setYokePlugParameters(c); return;
    case 6: g.setHcalBarrelParameters(c); return;
    case 7: g.setHcalEndcapParameters(c); return;
    case 8: g.setHcalRingParameters(c); return;
    case 9: g.setLcalParameters(c); return;
    case 10: g.setLHcalParameters(c); return;
    case 11: g.setBeamCalParameters(c); return;
  }
  abort();
}
inline Facts snapshot(const gear::GearMgr& g) {
  Facts f;
  section(f, "detectorName", [&] { f.s("detectorName", g.getDetectorName()); });
  section(f, "BField", [&] { auto& b = g.getBField(); auto v = b.at(gear::Vector3D(1, 2, 3)); f.d("BField.x", v.x()); f.d("BField.y", v.y()); f.d("BField.z", v.z());
    snapParams(f, "BField", dynamic_cast<const gear::GearParameters&>(b)); });
  for (int i = 0; i < 12; ++i) section(f, CALO[i], [&] { snapCalo(f, CALO[i], caloGet(g, i)); });
  section(f, "VXD", [&] { snapZ(f, "VXD", g.getVXDParameters()); });
  section(f, "SIT", [&] { snapZ(f, "SIT", g.getSITParameters()); });
  section(f, "SET", [&] { snapZ(f, "SET", g.getSETParameters()); });
  section(f, "FTD", [&] { snapFTD(f, "FTD", g.getFTDParameters()); });
  section(f, "SiPlanes", [&] { snapSi(f, "SiPlanes", g.getSiPlanesParameters()); });
  section(f, "TrackerPlanes", [&] { snapTP(f, "TrackerPlanes", g.getTrackerPlanesParameters()); });
  section(f, "TPC", [&] { snapTPC(f, "TPC", g.getTPCParameters()); });
  std::string ks; for (auto& k : g.getGearParameterKeys()) { ks += k + "\x01"; snapParams(f, "Generic'" + k, g.getGearParameters(k)); }
  f.s("Generic.keys", ks);
  for (auto& k : g.getGearParameterKeys()) snapParams(f, "Generic", g.getGearParameters(k));
  ks = "";
  for (auto& k : g.getMaterialNames()) {
    ks += k + "\x01"; auto& m = g.getSimpleMaterial(k); std::string q = "Material.";
    f.s(q + "name'" + k, m.getName()); f.d(q + "A'" + k, m.getA()); f.d(q + "Z'" + k, m.getZ()); f.d(q + "density'" + k, m.getDensity()); f.d(q + "rad'" + k, m.getRadLength()); f.d(q + "int'" + k, m.getIntLength());
  }
  f.s("Material.names", ks);
  return f;
}

// ---- generators ---------------------------------------------------------------------------
// One detector description: manager, document and expected facts are built from the same random numbers.
struct Spec {
  std::unique_ptr<gear::GearMgrImpl> mgr; X doc{"gear"}; Facts want; std::vector<padgen::Lay> lays; std::string desc;
  X global{"global"}, field{"BField"}, detectors{"detectors"}, materials{"materials"}; bool hasGlobal = false, hasField = false;
  bool oldTPC = false;
  Spec() : mgr(new gear::GearMgrImpl) {}
  X document() const {
    X d("gear");
    if (hasGlobal) d.add(global);
    if (hasField) d.add(field);
    d.add(detectors);
    if (!materials.c.empty()) d.add(materials);
    return d;
  }
};
inline double num(Rng& r) {       // any finite number
  switch (r.range(0, 7)) {
    case 0: return 0; case 1: return r.range(-5, 5); case 2: return r.sgn() * r.logu(1e-200, 1e200); case 3: return r.sgn() * r.logu(1e-12, 1e-3);
    default: return r.sgn() * r.logu(1e-3, 1e6);
  }
}
inline double pos(Rng& r) { return r.chance(.2) ? r.range(1, 500) : r.logu(1e-3, 5e3); }
inline int anyInt(Rng& r) { switch (r.range(0, 5)) { case 0: return 0; case 1: return INT_MAX; case 2: return INT_MIN; case 3: return r.range(-10, 10); default: return r.range(-2000000, 2000000000); } }
inline std::string name(Rng& r, bool hostile = true) {
  static const std::vector<std::string> w = {"alpha", "layer", "Si", "x", "beam_angle", "n-1", "A.b", "param", "TPC", "width", "Ecal", "k", "value", "repeat"};
  std::string s = r.pick(w); if (r.chance(.6)) s += fmt("%d", r.range(0, 99));
  if (hostile && r.chance(.2)) { static const std::vector<std::string> h = {" ", "&", "<", ">", "\"", "'", ";", "\xC3\xA4", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xEA\xAF\x8D", "#", "%s", "\\", "]]>", "-->", "&amp;"};
    int n = r.range(1, 3); for (int i = 0; i < n; ++i) s += r.pick(h) + "z"; }
  return s;
}
inline std::string text(Rng& r) {
  if (r.chance(.08)) return "";
  std::string s; int n = r.chance(.05) ? r.range(200, 5000) : r.range(1, 24);
  for (int i = 0; i < n; ++i) { switch (r.range(0, 11)) { case 0: s += ' '; break; case 1: s += "&<>\"'"[r.range(0, 4)]; break; case 2: s += "\t\n;#%/\\=!-]["[r.range(0, 11)]; break;
    case 3: if (r.chance(.3)) { static const char* const u[] = {"\xC3\xB6", "\xE2\x82\xAC", "\xF0\x9F\xAB\x80", "\xEF\xBB\x99"}; s += u[r.range(0, 3)]; } break; default: s += (char)r.range('0', 'z'); } }
  size_t p; while ((p = s.find("&#x")) != std::string::npos) s[p] = '+';      // written unescaped by the XML layer
  return s;
}
inline std::string word(Rng& r) { std::string s = text(r); for (auto& c : s) if (c == ' ') c = '_'; if (s.empty()) s = "e"; size_t p; while ((p = s.find("&#x")) != std::string::npos) s[p] = '+'; return s; }

// generic parameters: into an implementation object, the XML element and the facts
template <class P> inline void params(Rng& r, P* g, X& x, Facts& f, const std::string& p, int max = 6, const std::set<std::string>* skip = 0) {
  std::map<std::string, int> I; std::map<std::string, double> D; std::map<std::string, std::string> S;
  std::map<std::string, std::vector<int>> IV; std::map<std::string, std::vector<double>> DV; std::map<std::string, std::vector<std::string>> SV;
  int n = r.chance(.3) ? 0 : r.range(1, max);
  auto par = [&](const std::string& k, const char* t, const std::string& v, bool numeric) {
    X e("parameter"); e.at("name", k).at("type", t);
    if (numeric && !v.empty() && r.chance(.15)) e.text = v; else e.at("value", v);
    x.add(e);
  };
  for (int i = 0; i < n; ++i) {
    std::string k = name(r);
    if (skip && skip->count(k)) continue;
    // a number without a value is ignored
    if (r.chance(.03)) { X e("parameter"); e.at("name", k); if (r.chance(.9)) e.at("type", std::string(r.chance(.5) ? "int" : "double")); if (r.chance(.7)) e.at("value", std::string(r.range(0, 2), ' ')); x.add(e); continue; }
    switch (r.range(0, 5)) {
      case 0: { int v = anyInt(r); I[k] = v; g->setIntVal(k, v); par(k, "int", fmt("%d", v), true); break; }
      case 1: { double v = num(r); D[k] = v; g->setDoubleVal(k, v); par(k, "double", fmt("%.17g", v), true); break; }
      case 2: { std::string v = text(r); S[k] = v; g->setStringVal(k, v); par(k, "string", v, false); break; }
      case 3: { std::vector<int> v; std::string t; int m = r.chance(.04) ? r.range(7, 300) : r.range(0, 6); for (int j = 0; j < m; ++j) { v.push_back(anyInt(r)); t += (j ? std::string(r.range(1, 2), ' ') : "") + fmt("%d", v[j]); }
        IV[k] = v; g->setIntVals(k, v); par(k, "IntVec", t, true); break; }
      case 4: { std::vector<double> v; std::string t; int m = r.chance(.04) ? r.range(7, 300) : r.range(0, 6); for (int j = 0; j < m; ++j) { v.push_back(num(r)); t += (j ? std::string(r.range(1, 2), ' ') : "") + fmt("%.17g", v[j]); }
        DV[k] = v; g->setDoubleVals(k, v); par(k, "DoubleVec", t, true); break; }
      default: { std::vector<std::string> v; std::string t; int m = r.chance(.04) ? r.range(7, 300) : r.range(0, 5); for (int j = 0; j < m; ++j) { v.push_back(word(r)); t += (j ? " " : "") + v[j]; }
        SV[k] = v; g->setStringVals(k, v); par(k, "StringVec", t, false); }
    }
  }
  auto keys = [&](const char* t, const std::vector<std::string>& v) { std::string s; for (auto& k : v) s += k + "\x01"; f.s(p + ".keys." + t, s); };
  auto ks = [](auto& m) { std::vector<std::string> v; for (auto& k : m) v.push_back(k.first); return v; };
  keys("int", ks(I)); keys("double", ks(D)); keys("string", ks(S)); keys("intvec", ks(IV)); keys("doublevec", ks(DV)); keys("stringvec", ks(SV));
  for (auto& k : I) f.i(p + ".intpar'" + k.first, k.second);
  for (auto& k : D) f.d(p + ".doublepar'" + k.first, k.second);
  for (auto& k : S) f.s(p + ".stringpar'" + k.first, k.second);
  for (auto& k : IV) { f.i(p + ".intvec.n'" + k.first, k.second.size()); for (size_t i = 0; i < k.second.size(); ++i) f.i(p + ".intvec.v'" + k.first + fmt("'%zu", i), k.second[i]); }
  for (auto& k : DV) { f.i(p + ".doublevec.n'" + k.first, k.second.size()); for (size_t i = 0; i < k.second.size(); ++i) f.d(p + ".doublevec.v'" + k.first + fmt("'%zu", i), k.second[i]); }
  for (auto& k : SV) { f.i(p + ".stringvec.n'" + k.first, k.second.size()); for (size_t i = 0; i < k.second.size(); ++i) f.s(p + ".stringvec.v'" + k.first + fmt("'%zu", i), k.second[i]); }
}
inline X detector(const std::string& name, const std::string& type) { X x("detector"); x.at("name", name).at("geartype", type); return x; }

// which: index into CALO
inline void calo(Rng& r, Spec& s, int which) {
  std::string n = CALO[which]; bool barrel = which == 0 || which == 3 || which == 6 || (which != 1 && which != 4 && which != 7 && r.chance(.4));
  int sym = r.range(0, 16); double phi0 = r.chance(.4) ? 0 : r.uni(-3, 3);
  X x = detector(n, "CalorimeterParameters"), lay("layout"), dim("dimensions");
  static const char* bt[] = {"Barrel", "barrel", "BARREL"}; static const char* et[] = {"Endcap", "endcap", "ENDCAP"};
  lay.at("type", barrel ? bt[r.range(0, 2)] : et[r.range(0, 2)]).at("symmetry", sym).at("phi0", phi0);
  gear::CalorimeterParametersImpl* g; double first, e[4]; Facts& f = s.want;
  if (barrel) { double a = pos(r), z = pos(r); g = new gear::CalorimeterParametersImpl(a, z, sym, phi0); first = a; dim.at("inner_r", a).at("outer_z", z); e[0] = e[1] = a; e[2] = 0; e[3] = z; }
  else { double a = r.chance(.2) ? 0 : pos(r), b = a + pos(r), z = r.chance(.1) ? -pos(r) : pos(r); g = new gear::CalorimeterParametersImpl(a, b, z, sym, phi0); first = z; dim.at("inner_r", a).at("outer_r", b).at("inner_z", z); e[0] = a; e[1] = b; e[2] = e[3] = z; }
  x.add(lay).add(dim);
  params(r, g, x, f, n);
  // the layers: groups of equal layers; neighbouring groups are equal, clearly different or differ a little
  int groups = r.chance(.06) ? 0 : r.range(1, 5), k = 0; double d = first; double th = 0, ab = 0, c0 = 0, c1 = 0;
  for (int q = 0; q < groups; ++q) {
    int rep = r.range(1, 12);
    if (q == 0 || r.chance(.9)) {
      int what = r.range(0, 4);
      if (q == 0 || what == 0) th = r.logu(.01, 50);
      if (q == 0 || what == 1) ab = r.chance(.2) ? 0 : r.logu(.01, 40);
      if (q == 0 || what == 2) c0 = r.logu(.1, 50);
      if (q == 0 || what == 3) c1 = r.logu(.1, 50);
      if (q && r.chance(.15)) { double t = 1 + r.sgn() * pow(10, r.uni(-7, -3)); (what == 1 ? ab : what == 2 ? c0 : what == 3 ? c1 : th) *= t; }
      else if (q && r.chance(.2)) (what == 2 ? c0 : c1) = what == 2 ? c1 : c0;       // square cells
      else if (q && what == 4) { th *= r.uni(1.01, 2); ab *= r.uni(1.01, 2); c0 *= r.uni(1.01, 2); c1 *= .9; }
    }
    x.add(X("layer").at("repeat", rep).at("thickness", th).at("absorberThickness", ab).at("cellSize0", c0).at("cellSize1", c1));
    for (int i = 0; i < rep; ++i, ++k) {
      if (k == 0) g->layerLayout().positionLayer(first, th, c0, c1, ab); else g->layerLayout().addLayer(th, c0, c1, ab);
      std::string t = n + fmt(".layer%d.", k);
      f.d(t + "distance", d); f.d(t + "thickness", th); f.d(t + "absorber", ab); f.d(t + "cell_a", c0); f.d(t + "cell_b", c1);
      d += th;
    }
  }
  e[barrel ? 1 : 3] = d;
  f.i(n + ".type", barrel ? 1 : 2); f.i(n + ".symmetry", sym); f.d(n + ".phi0", phi0); f.i(n + ".nLayers", k); f.i(n + ".extent.n", 4);
  for (int i = 0; i < 4; ++i) f.d(n + fmt(".extent%d", i), e[i]);
  f.s(n + ".present", "yes");
  bool crossing = which >= 9;
  caloSet(*s.mgr, which, g);
  if (crossing) {  // the manager adds a default beam crossing angle of 0 if there is none
    std::string& keys = f.m[n + ".keys.double"].s; bool has = f.m.count(n + ".doublepar'beam_crossing_angle");
    if (!has) { std::vector<std::string> v; std::string t; for (char ch : keys) if (ch == 1) { v.push_back(t); t = ""; } else t += ch;
      v.push_back("beam_crossing_angle"); std::sort(v.begin(), v.end()); keys = ""; for (auto& w : v) keys += w + "\x01"; f.d(n + ".doublepar'beam_crossing_angle", 0); }
  }
  s.detectors.add(x); s.desc += n + fmt("(%s,%d groups,%d layers) ", barrel ? "barrel" : "endcap", groups, k);
}
// realistic: a non overlapping arrangement for the geometry properties
struct ZLayer { int n; double phi0, ld, lo, lt, ll, lw, lr, sd, so, st, sl, sw, sr; };
inline void zplanar(Rng& r, Spec& s, const std::string& n) {
  int type = r.range(1, 3); double in = pos(r), out = in + pos(r), hl = pos(r), gap = r.chance(.4) ? 0 : pos(r), rad = pos(r);
  if (r.chance(.25)) { for (double* v : {&in, &out, &hl, &rad}) if (r.chance(.4)) *v = r.chance(.5) ? 0 : pos(r); if (r.chance(.3)) std::swap(in, out); }   // stored as given, whatever their relation
  auto* g = new gear::ZPlanarParametersImpl(type, in, out, hl, gap, rad);
  static const char* tn[] = {"", "CCD", "CMOS", "HYBRID"};
  X x = detector(n, r.chance(.2) ? "VXDParameters" : "ZPlanarParameters"), lays("layers");
  x.add(X(r.chance(.2) ? "vxdType" : "type").at("technology", tn[type])).add(X("shell").at("halfLength", hl).at("gap", gap).at("innerRadius", in).at("outerRadius", out).at("radLength", rad));
  Facts& f = s.want;
  f.i(n + ".type", type); f.d(n + ".shell.halfLength", hl); f.d(n + ".shell.gap", gap); f.d(n + ".shell.inner", in); f.d(n + ".shell.outer", out); f.d(n + ".shell.rad", rad);
  int N = r.range(0, 6);
  for (int i = 0; i < N; ++i) {
    auto pz = [&] { return r.chance(.03) ? 0. : pos(r); }; ZLayer z = {r.chance(.03) ? 0 : r.range(1, 40), r.chance(.1) ? r.uni(-9, 9) : r.uni(-3, 3), pz(), num(r), pz(), pz(), pz(), pz(), pz(), num(r), pz(), pz(), pz(), pz()};
    if (std::fabs(z.lo) > 1e9) z.lo = 3; if (std::fabs(z.so) > 1e9) z.so = -3;
    g->addLayer(z.n, z.phi0, z.ld, z.lo, z.lt, z.ll, z.lw, z.lr, z.sd, z.so, z.st, z.sl, z.sw, z.sr);
    std::string q = n + fmt(".layer%d.", i);
    f.i(q + "nLadders", z.n); f.d(q + "phi0", z.phi0);
    f.d(q + "lad.distance", z.ld); f.d(q + "lad.thickness", z.lt); f.d(q + "lad.offset", z.lo); f.d(q + "lad.width", z.lw); f.d(q + "lad.length", z.ll); f.d(q + "lad.rad", z.lr);
    f.d(q + "sen.distance", z.sd); f.d(q + "sen.thickness", z.st); f.d(q + "sen.offset", z.so); f.d(q + "sen.width", z.sw); f.d(q + "sen.length", z.sl); f.d(q + "sen.rad", z.sr);
    lays.add(X("layer").at("nLadders", z.n).at("phi0", z.phi0)
      .add(X("ladder").at("distance", z.ld).at("thickness", z.lt).at("width", z.lw).at("length", z.ll).at("offset", z.lo).at("radLength", z.lr))
      .add(X("sensitive").at("distance", z.sd).at("thickness", z.st).at("width", z.sw).at("length", z.sl).at("offset", z.so).at("radLength", z.sr)));
  }
  x.add(lays); params(r, g, x, f, n);
  f.i(n + ".nLayers", N); f.s(n + ".present", "yes");
  if (n == "VXD") s.mgr->setVXDParameters(g); else if (n == "SIT") s.mgr->setSITParameters(g); else s.mgr->setSETParameters(g);
  s.detectors.add(x); s.desc += n + fmt("(%d layers) ", N);
}
inline void ftd(Rng& r, Spec& s) {
  auto* g = new gear::FTDParametersImpl; X x = detector("FTD", "FTDParameters"), lays("layers"); Facts& f = s.want; int N = r.range(0, 7);
  for (int i = 0; i < N; ++i) {
    int np = r.range(1, 20), ns = r.range(1, 5) * 2, type = r.range(1, 2); bool dbl = r.chance(.5); if (!dbl && r.chance(.4)) --ns;
    double oa = r.uni(.05, 1), ph = r.uni(-3, 3), al = num(r), zp = pos(r), zo = r.chance(.3) ? 0 : pos(r), sg = r.chance(.5) ? 1 : -1;
    double a[12]; for (auto& v : a) v = r.chance(.04) ? 0 : pos(r);
    g->addLayer(np, ns, dbl, type, oa, ph, al, zp, zo, sg, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
    std::string q = fmt("FTD.layer%d.", i);
    f.i(q + "nPetals", np); f.i(q + "nSensors", ns); f.i(q + "double", dbl); f.i(q + "type", type); f.d(q + "openAngle", oa); f.d(q + "phi0", ph); f.d(q + "alpha", al);
    f.d(q + "zpos", zp); f.d(q + "zoff", zo); f.d(q + "zsign", sg);
    static const char* k[] = {"rInner", "thickness", "lmin", "lmax", "width", "rad"};
    for (int j = 0; j < 6; ++j) { f.d(q + "sup." + k[j], a[j]); f.d(q + "sen." + k[j], a[6 + j]); }
    X L("layer");
    L.at("nPetals", np).at("nSensors", ns).at("isDoubleSided", (int)dbl).at("sensorType", type == 1 ? "PIXEL" : "STRIP").at("petalOpenningAngle", oa).at("phi0", ph).at("alpha", al).at("zposition", zp).at("zoffset", zo).at("zsign0", sg);
    static const char* kx[] = {"rInner", "thickness", "lengthMin", "lengthMax", "width", "radLength"};
    X su("support"), se("sensitive"); for (int j = 0; j < 6; ++j) { su.at(kx[j], a[j]); se.at(kx[j], a[6 + j]); }
    lays.add(L.add(su).add(se));
  }
  x.add(lays); params(r, g, x, f, "FTD"); f.i("FTD.nLayers", N); f.s("FTD.present", "yes");
  s.mgr->setFTDParameters(g); s.detectors.add(x); s.desc += fmt("FTD(%d layers) ", N);
}
inline void siplanes(Rng& r, Spec& s) {
  int id = anyInt(r), type = r.range(1, 2), num_ = anyInt(r); auto* g = new gear::SiPlanesParametersImpl(id, type, num_);
  X x = detector("SiPlanes", "SiPlanesParameters"), lays("layers"); Facts& f = s.want; std::string p = "SiPlanes";
  x.add(X("siplanesID").at("ID", id)).add(X("siplanesType").at("type", type == 1 ? "TelescopeWithDUT" : "TelescopeWithoutDUT")).add(X("siplanesNumber").at("number", num_));
  f.i(p + ".id", id); f.i(p + ".type", type); f.i(p + ".number", num_);
  int N = r.range(0, 6);
  for (int i = 0; i < N; ++i) {
    int lid = anyInt(r), sid = anyInt(r), nx = r.range(0, 5000), ny = r.range(0, 5000); double l[10], t[22]; for (auto& v : l) v = num(r); for (auto& v : t) v = num(r);
    bool rot = r.chance(.7), res = r.chance(.7), rmat = r.chance(.8);
    if (!rot) l[3] = l[4] = l[5] = t[3] = t[4] = t[5] = 0;
    bool resx = res || r.chance(.3), resy = res || r.chance(.3); t[11] = pos(r); for (int j : {12, 13}) t[j] = !(j == 12 ? resx : resy) ? t[11] : r.chance(.1) ? 0 : pos(r);
    if (!rmat) { t[14] = 1; t[15] = t[16] = 0; t[17] = 1; }
    std::string q = p + fmt(".layer%d.", i);
    g->addLayer(lid, l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], sid, t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], nx, ny, t[9], t[10], t[11], t[12], t[13], t[14], t[15], t[16], t[17], t[18]);
    static const char* lk[] = {"posX", "posY", "posZ", "rotXY", "rotZX", "rotZY", "sizeX", "sizeY", "thick", "rad"};
    static const char* lx[] = {"positionX", "positionY", "positionZ", "rotationXY", "rotationZX", "rotationZY", "sizeX", "sizeY", "thickness", "radLength"};
    static const char* sk[] = {"posX", "posY", "posZ", "rotXY", "rotZX", "rotZY", "sizeX", "sizeY", "thick", "pitchX", "pitchY", "res", "resX", "resY", "rot_a", "rot_b", "rot_c", "rot_d", "rad"};
    static const char* sx[] = {"positionX", "positionY", "positionZ", "rotationXY", "rotationZX", "rotationZY", "sizeX", "sizeY", "thickness", "pitchX", "pitchY", "resolution", "resolutionX", "resolutionY", "rotation1", "rotation2", "rotation3", "rotation4", "radLength"};
    X L("ladder"), S("sensitive"); L.at("ID", lid); S.at("ID", sid).at("npixelX", nx).at("npixelY", ny);
    f.i(q + "ID", lid); f.i(q + "sen.ID", sid); f.i(q + "sen.npixX", nx); f.i(q + "sen.npixY", ny);
    for (int j = 0; j < 10; ++j) { f.d(q + lk[j], l[j]); if (!rot && j >= 3 && j <= 5) continue; L.at(lx[j], l[j]); }
    for (int j = 0; j < 19; ++j) { f.d(q + "sen." + sk[j], t[j]); if ((!rot && j >= 3 && j <= 5) || (!resx && j == 12) || (!resy && j == 13) || (!rmat && j >= 14 && j <= 17)) continue; S.at(sx[j], t[j]); }
    lays.add(X("layer").add(L).add(S));
  }
  if (type == 1) {
    int lid = anyInt(r), sid = anyInt(r), nx = r.range(0, 5000), ny = r.range(0, 5000); double l[7], t[14]; for (auto& v : l) v = num(r); for (auto& v : t) v = num(r);
    g->addDUT(lid, l[0], l[1], l[2], l[3], l[4], l[5], l[6], sid, t[0], t[1], t[2], t[3], t[4], t[5], nx, ny, t[6], t[7], t[8], t[9], t[10], t[11], t[12], t[13]);
    static const char* lk[] = {"posX", "posY", "posZ", "sizeX", "sizeY", "thick", "rad"};
    static const char* lx[] = {"positionX", "positionY", "positionZ", "sizeX", "sizeY", "thickness", "radLength"};
    static const char* sk[] = {"posX", "posY", "posZ", "sizeX", "sizeY", "thick", "pitchX", "pitchY", "res", "rot_a", "rot_b", "rot_c", "rot_d", "rad"};
    static const char* sx[] = {"positionX", "positionY", "positionZ", "sizeX", "sizeY", "thickness", "pitchX", "pitchY", "resolution", "rotation1", "rotation2", "rotation3", "rotation4", "radLength"};
    X L("dut_ladder"), S("dut_sensitive"); L.at("ID", lid); S.at("ID", sid).at("npixelX", nx).at("npixelY", ny); std::string q = p + ".dut.";
    f.i(q + "ID", lid); f.i(q + "sen.ID", sid); f.i(q + "sen.npixX", nx); f.i(q + "sen.npixY", ny);
    for (int j = 0; j < 7; ++j) { f.d(q + lk[j], l[j]); L.at(lx[j], l[j]); }
    for (int j = 0; j < 14; ++j) { f.d(q + "sen." + sk[j], t[j]); S.at(sx[j], t[j]); }
    x.add(X("dut").add(L).add(S));
  }
  x.add(lays); params(r, g, x, f, p); f.i(p + ".nLayers", N); f.s(p + ".present", "yes");
  s.mgr->setSiPlanesParameters(g); s.detectors.add(x); s.desc += fmt("SiPlanes(type %d,%d layers) ", type, N);
}
inline void trackerplanes(Rng& r, Spec& s) {
  int id = anyInt(r), num_ = anyInt(r); auto* g = new gear::TrackerPlanesParametersImpl(id, r.range(0, 3), num_); std::string p = "TrackerPlanes";
  X x = detector("TrackerPlanes", "TrackerPlanesParameters"), lays("layers"); Facts& f = s.want;
  x.add(X("LayoutID").at("ID", id)).add(X("LayoutNumberOfLayers").at("number", num_)); f.i(p + ".id", id); f.i(p + ".number", num_);
  int N = r.range(0, 5);
  for (int i = 0; i < N; ++i) {
    gear::TrackerPlanesLayerImpl L; int lid = anyInt(r); std::string info = r.chance(.3) ? "" : text(r); L.setID(lid); L.setInfo(info);
    X xl("layer"); xl.at("ID", lid); if (!info.empty() || r.chance(.5)) xl.at("info", info);
    std::string q = p + fmt(".layer%d.", i); f.i(q + "ID", lid); f.s(q + "info", info);
    static const char* lk[] = {"posX", "posY", "posZ", "rotXY", "rotZX", "rotZY", "sizeX", "sizeY", "thick", "rad", "pitchX", "pitchY", "resX", "resY"};
    static const char* lx[] = {"positionX", "positionY", "positionZ", "rotationXY", "rotationZX", "rotationZY", "sizeX", "sizeY", "thickness", "radLength", "pitchX", "pitchY", "resolutionX", "resolutionY"};
    static const double def[] = {0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0};
    int nm = r.range(0, 3), ns = r.range(0, 3);
    for (int k = 0; k < nm + ns; ++k) {
      bool sen = k >= nm; int cid = anyInt(r), nx = r.chance(.3) ? 1 : r.range(0, 5000), ny = r.chance(.3) ? 1 : r.range(0, 5000); std::string ci = r.chance(.3) ? "" : text(r);
      double v[14]; int m = sen ? 14 : 10; X e(sen ? "sensitive" : "ladder"); std::string t = q + fmt(sen ? "sen%d." : "mat%d.", sen ? k - nm : k);
      e.at("ID", cid); if (!ci.empty() || r.chance(.5)) e.at("info", ci); f.i(t + "ID", cid); f.s(t + "info", ci);
      for (int j = 0; j < m; ++j) { bool d = r.chance(.2); v[j] = d ? def[j] : num(r); f.d(t + lk[j], v[j]); if (!d || r.chance(.5)) e.at(lx[j], v[j]); }
      if (sen) { f.i(t + "npixX", nx); f.i(t + "npixY", ny); if (nx != 1 || r.chance(.5)) e.at("npixelX", nx); if (ny != 1 || r.chance(.5)) e.at("npixelY", ny);
        L.addSensitiveLayer(cid, ci, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], nx, ny, v[10], v[11], v[12], v[13]); }
      else L.addMaterialLayer(cid, ci, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]);
      xl.add(e);
    }
    f.i(q + "nMat", nm); f.i(q + "nSen", ns); g->addLayer(&L); lays.add(xl);
  }
  x.add(lays); params(r, g, x, f, p); f.i(p + ".nLayers", N); f.s(p + ".present", "yes");
  s.mgr->setTrackerPlanesParameters(g); s.detectors.add(x); s.desc += fmt("TrackerPlanes(%d layers) ", N);
}
inline void bfield(Rng& r, Spec& s) {
  double x = num(r), y = num(r), z = num(r); if (r.chance(.4)) x = y = 0; auto* b = new gear::ConstantBField(gear::Vector3D(x, y, z));
  s.field = X("BField"); s.field.at("type", "ConstantBField").at("x", x).at("y", y).at("z", z);
  s.want.d("BField.x", x); s.want.d("BField.y", y); s.want.d("BField.z", z); s.want.s("BField.present", "yes");
  params(r, b, s.field, s.want, "BField"); s.mgr->setBField(b); s.hasField = true; s.desc += "BField ";
}
inline void material(Rng& r, Spec& s) {
  std::string n = name(r); if (s.want.m.count("Material.name'" + n)) return;
  double v[5]; for (auto& k : v) k = num(r); s.mgr->registerSimpleMaterial(new gear::SimpleMaterialImpl(n, v[0], v[1], v[2], v[3], v[4]));
  s.materials.add(X("material").at("name", n).at("A", v[0]).at("Z", v[1]).at("density", v[2]).at("radLength", v[3]).at("intLength", v[4]));
  Facts& f = s.want; std::string q = "Material."; f.s(q + "name'" + n, n); f.d(q + "A'" + n, v[0]); f.d(q + "Z'" + n, v[1]); f.d(q + "density'" + n, v[2]); f.d(q + "rad'" + n, v[3]); f.d(q + "int'" + n, v[4]);
  s.desc += "material ";
}
inline void generic(Rng& r, Spec& s) {
  std::string n = name(r); if (s.want.m.count("Generic'" + n + ".keys.int")) return;
  auto* g = new gear::GearParametersImpl; X x = detector(n, "GearParameters"); params(r, g, x, s.want, "Generic'" + n, 10); s.mgr->setGearParameters(n, g); s.detectors.add(x); s.desc += "generic ";
}
inline void global(Rng& r, Spec& s) {
  std::string n = text(r); if (n.empty()) n = "d"; s.mgr->setDetectorName(n); s.global = X("global"); s.global.at("detectorName", n); s.hasGlobal = true;
  s.want.s("detectorName", n); s.want.s("detectorName.present", "yes"); s.desc += "name ";
}
// old: single pad layout, one cathode in the middle of nothing (old XML syntax)
inline void tpc(Rng& r, Spec& s, int maxPads = 150) {
  Facts& f = s.want; std::string p = "TPC"; X x = detector("TPC", "TPCParameters"); double md = pos(r); x.val("maxDriftLength", md); f.d(p + ".maxDrift", md);
  double dv = r.chance(.4) ? 0 : pos(r); f.s(p + ".present", "yes");
  s.oldTPC = r.chance(.25);
  if (s.oldTPC) {
    padgen::Lay L = padgen::make(r, -1, maxPads); double fr = pos(r); bool pol = L.polar;
    auto* g = new gear::TPCParametersImpl(md, pol ? gear::PadRowLayout2D::POLAR : gear::PadRowLayout2D::CARTESIAN);
    g->setPadLayout(L.l->clone()); g->setDriftVelocity(dv); g->setReadoutFrequency(fr);
    x.val("driftVelocity", dv).val("readoutFrequency", fr).add(L.xml);
    f.i(p + ".coord", pol ? gear::PadRowLayout2D::POLAR : gear::PadRowLayout2D::CARTESIAN); f.i(p + ".nModules", 1); f.d(p + ".driftVelocity", dv); f.d(p + ".module0.freq", fr);
    f.d(p + ".module0.off_a", 0); f.d(p + ".module0.off_b", 0); f.d(p + ".module0.angle", 0); f.d(p + ".module0.border", 0); f.i(p + ".module0.local.nPads", L.npads()); f.i(p + ".module0.local.nRows", L.rows.size());
    params(r, g, x, f, p); s.mgr->setTPCParameters(g); s.desc += "TPC(old," + L.desc + ") "; s.lays.push_back(std::move(L)); s.detectors.add(x); return;
  }
  bool pol = r.chance(.5); auto* g = new gear::TPCParametersImpl(md, pol ? gear::PadRowLayout2D::POLAR : gear::PadRowLayout2D::CARTESIAN);
  x.val("coordinateType", 0); x.c.back().a[0].second = pol ? "polar" : "cartesian"; if (dv != 0 || r.chance(.5)) x.val("driftVelocity", dv);
  g->setDriftVelocity(dv); f.d(p + ".driftVelocity", dv); f.i(p + ".coord", pol ? gear::PadRowLayout2D::POLAR : gear::PadRowLayout2D::CARTESIAN);
  int N = r.range(1, 4), start = r.range(0, 50); bool withZ = r.chance(.5), useDef = r.chance(.5), ids = r.chance(.5); double zp = padgen::r6(r.uni(100, 2000));
  X mods("modules"), def("default"); if (start || r.chance(.5)) mods.at("moduleIDStartCount", start);
  double defF = pos(r), defB = r.chance(.5) ? 0 : padgen::r6(r.uni(.1, 3)), defA = padgen::r6(r.uni(-3, 3));
  if (useDef) { def.val("readoutFrequency", defF).val("enlargeActiveAreaBy", defB).val("angle", defA); }
  std::vector<X> elems; std::set<int> used;
  for (int i = 0; i < N; ++i) {
    padgen::Lay L = padgen::make(r, pol ? r.range(1, 3) : -1, maxPads); X e("module"); int id = start + i;
    if (ids && r.chance(.5)) { int q = 100 + r.range(0, 1000) + 2000 * i; id = q; e.add(X("moduleID").at("value", id)); }
    double fr = pos(r), bo = r.chance(.4) ? 0 : padgen::r6(r.uni(.1, 3)), an = r.chance(.3) ? 0 : padgen::r6(r.chance(.1) ? r.uni(-9, 9) : r.uni(-3, 3)), ox = r.chance(.3) ? 0 : padgen::r6(pol ? r.uni(0, 500) : r.uni(-500, 500)), oy = r.chance(.3) ? 0 : padgen::r6(pol ? r.uni(0, 6) : r.uni(-500, 500));
    double z = withZ ? (r.chance(.5) ? zp : -zp) : 0;
    bool off = r.chance(.8), hb = !useDef || r.chance(.5), ha = !useDef || r.chance(.5), hf = !useDef || r.chance(.5);
    if (!off) ox = oy = 0; if (!hb) bo = defB; if (!ha) an = defA; if (!hf) fr = defF;
    if (hf) e.val("readoutFrequency", fr); if (off) e.add(X("offset").at("x_r", ox).at("y_phi", oy)); if (withZ) e.val("zPosition", z); if (ha) e.val("angle", an); if (hb) e.val("enlargeActiveAreaBy", bo);
    e.add(L.xml);
    auto* m = new gear::TPCModuleImpl(id, L.l->clone(), pol ? gear::PadRowLayout2D::POLAR : gear::PadRowLayout2D::CARTESIAN, fr);
    m->setOffset(ox, oy); if (withZ) m->setZPosition(z); m->setAngle(an); m->setBorderWidth(bo);
    std::string q = p + fmt(".module%d", id);
    params(r, m, e, f, q, 3);
    f.i(q + ".ID", id); f.d(q + ".freq", fr); f.d(q + ".off_a", ox); f.d(q + ".off_b", oy); f.d(q + ".angle", an); f.d(q + ".border", bo); f.i(q + ".local.nPads", L.npads()); f.i(q + ".local.nRows", L.rows.size());
    if (withZ) f.d(q + ".z", z);
    g->addModule(m); mods.add(e); s.desc += "module(" + L.desc + fmt(",off %g,%g angle %g border %g) ", ox, oy, an, bo); s.lays.push_back(std::move(L));
  }
  if (useDef) mods.add(def);
  x.add(mods); f.i(p + ".nModules", N); params(r, g, x, f, p); s.mgr->setTPCParameters(g); s.detectors.add(x); s.desc += fmt("TPC(%s,%d modules) ", pol ? "polar" : "cartesian", N);
}
enum Part { GLOBAL = 1, FIELD = 2, MAT = 4, GENERIC = 8, CALOS = 16, ZPL = 32, FTDS = 64, SIP = 128, TRP = 256, TPCS = 512, ALL = 1023 };
// every selected part is present with the given probability
inline void make(Rng& r, Spec& s, int parts, double prob) {
  auto want = [&](int k) { return (parts & k) && r.chance(prob); };
  if (want(GLOBAL)) global(r, s);
  if (want(FIELD)) bfield(r, s);
  if (parts & MAT) { int n = r.range(0, 4); for (int i = 0; i < n; ++i) material(r, s); }
  if (parts & GENERIC) { int n = r.range(0, 3); for (int i = 0; i < n; ++i) generic(r, s); }
  if (parts & CALOS) for (int i = 0; i < 12; ++i) if (r.chance(prob)) calo(r, s, i);
  for (auto n : {"VXD", "SIT", "SET"}) if (want(ZPL)) zplanar(r, s, n);
  if (want(FTDS)) ftd(r, s);
  if (want(SIP)) siplanes(r, s);
  if (want(TRP)) trackerplanes(r, s);
  if (want(TPCS)) tpc(r, s);
}
}  // namespace gen
#endif
