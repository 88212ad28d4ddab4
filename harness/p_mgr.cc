// P01 manager registry, P02 ownership, P03 typed parameter store, P33 copies.
#include "gen.h"
#include "gear/GearPointProperties.h"
#include "gear/GearDistanceProperties.h"
#include <algorithm>
#include <unistd.h>
using namespace gen;

// ---- objects whose life is observed ---------------------------------------------------------
struct Life { std::map<long, int> live; long next = 0; long born = 0, died = 0; std::set<long> dead; };
static Life* life = 0;
struct Tag { long id; Tag() : id(life ? life->next++ : -1) { if (life) { life->live[id]++; life->born++; } } Tag(const Tag&) : Tag() {} ~Tag() { if (life) { life->died++; life->live.erase(id); life->dead.insert(id); } } };
template <class B> struct Probe : public B { Tag tag; template <class... A> explicit Probe(A... a) : B(a...) {} };
struct PointStub : gear::GearPointProperties {
  std::string n; gear::long64 getCellID(const gear::Vector3D&) const { return 1; } const std::string& getMaterialName(const gear::Vector3D&) const { return n; } double getDensity(const gear::Vector3D&) const { return 0; } double getTemperature(const gear::Vector3D&) const { return 0; } double getPressure(const gear::Vector3D&) const { return 0; }
  double getRadlen(const gear::Vector3D&) const { return 0; } double getIntlen(const gear::Vector3D&) const { return 0; } gear::Vector3D getLocalPosition(const gear::Vector3D& p) const { return p; } gear::Vector3D getB(const gear::Vector3D& p) const { return p; } gear::Vector3D getE(const gear::Vector3D& p) const { return p; }
  std::vector<std::string> getListOfLogicalVolumes(const gear::Vector3D&) const { return {}; } std::vector<std::string> getListOfPhysicalVolumes(const gear::Vector3D&) const { return {}; } std::string getRegion(const gear::Vector3D&) const { return ""; } bool isTracker(const gear::Vector3D&) const { return false; } bool isCalorimeter(const gear::Vector3D&) const { return false; }
};
struct DistStub : gear::GearDistanceProperties {
  std::vector<std::string> a; std::vector<double> b; const std::vector<std::string>& getMaterialNames(const gear::Vector3D&, const gear::Vector3D&) const { return a; } const std::vector<double>& getMaterialThicknesses(const gear::Vector3D&, const gear::Vector3D&) const { return b; }
  double getNRadlen(const gear::Vector3D&, const gear::Vector3D&) const { return 0; } double getNIntlen(const gear::Vector3D&, const gear::Vector3D&) const { return 0; } double getBdL(const gear::Vector3D&, const gear::Vector3D&) const { return 0; } double getEdL(const gear::Vector3D&, const gear::Vector3D&) const { return 0; }
};
// slots 0..11 calorimeters, then the others; every object is returned as the pointer the manager must hand out, and its tag
enum { TPC = 12, VXD, SIT, SET, FTD, TRPL, SIPL, BF, PP, DP, NSLOT };
static const char* const NAME[] = {"TPC", "VXD", "SIT", "SET", "FTD", "TrackerPlanes", "SiPlanes", "BField", "PointProperties", "DistanceProperties"};
static std::string slotName(int s) { return s < 12 ? CALO[s] : NAME[s - 12]; }
struct Obj { const void* p; long tag; std::function<void(gear::GearMgr&)> set; std::function<void()> del; };
template <class T> static Obj mkObj(T* t) { Obj o; o.p = dynamic_cast<const void*>(t); o.tag = t->tag.id; o.del = [t] { delete t; }; return o; }
static Obj create(Rng& r, int s) {
  Obj o;
  if (s < 12) { bool b = r.chance(.5); Probe<gear::CalorimeterParametersImpl>* t = b ? new Probe<gear::CalorimeterParametersImpl>(pos(r), pos(r), 8, .1) : new Probe<gear::CalorimeterParametersImpl>(pos(r), 1e4, pos(r), 2, 0.); for (int i = r.range(0, 3); i > 0; --i) t->layerLayout().positionLayer(0, 1, 1, 1, 0); if (r.chance(.5)) t->setDoubleVal("beam_crossing_angle", 14.5); o = mkObj(t); o.set = [t, s](gear::GearMgr& g) { caloSet(g, s, t); }; return o; }
  switch (s) {
    case TPC: { auto* t = new Probe<gear::TPCParametersImpl>(100., (int)gear::PadRowLayout2D::POLAR); t->addModule(new Probe<gear::TPCModuleImpl>(1, new Probe<gear::FixedPadSizeDiskLayout>(10., 20., 1., 1., 5, 0., 6.28), (int)gear::PadRowLayout2D::POLAR, 1.)); o = mkObj(t); o.set = [t](gear::GearMgr& g) { g.setTPCParameters(t); }; break; }
    case VXD: { auto* t = new Probe<gear::ZPlanarParametersImpl>((int)gear::ZPlanarParameters::CCD, 10., 20., 30., 1., 1.); o = mkObj(t); o.set = [t](gear::GearMgr& g) { g.setVXDParameters(t); }; break; }
    case SIT: { auto* t = new Probe<gear::ZPlanarParametersImpl>((int)gear::ZPlanarParameters::CCD, 10., 20., 30., 1., 1.); o = mkObj(t); o.set = [t](gear::GearMgr& g) { g.setSITParameters(t); }; break; }
    case SET: { auto* t = new Probe<gear::ZPlanarParametersImpl>((int)gear::ZPlanarParameters::CCD, 10., 20., 30., 1., 1.); o = mkObj(t); o.set = [t](gear::GearMgr& g) { g.setSETParameters(t); }; break; }
    case FTD: { auto* t = new Probe<gear::FTDParametersImpl>(); o = mkObj(t); o.set = [t](gear::GearMgr& g) { g.setFTDParameters(t); }; break; }
    case TRPL: { auto* t = new Probe<gear::TrackerPlanesParametersImpl>(1, 1, 1); o = mkObj(t); o.set = [t](gear::GearMgr& g) { g.setTrackerPlanesParameters(t); }; break; }
    case SIPL: { auto* t = new Probe<gear::SiPlanesParametersImpl>(1, 1, 1); o = mkObj(t); o.set = [t](gear::GearMgr& g) { g.setSiPlanesParameters(t); }; break; }
    case BF: { auto* t = new Probe<gear::ConstantBField>(gear::Vector3D(1, 2, 3)); o = mkObj(t); o.set = [t](gear::GearMgr& g) { g.setBField(t); }; break; }
    case PP: { auto* t = new Probe<PointStub>(); o = mkObj(t); o.set = [t](gear::GearMgr& g) { g.setPointProperties(t); }; break; }
    default: { auto* t = new Probe<DistStub>(); o = mkObj(t); o.set = [t](gear::GearMgr& g) { g.setDistanceProperties(t); }; break; }
  }
  return o;
}
static const void* fetch(const gear::GearMgr& g, int s) {
  if (s < 12) return dynamic_cast<const void*>(&caloGet(g, s));
  switch (s) { case TPC: return dynamic_cast<const void*>(&g.getTPCParameters()); case VXD: return dynamic_cast<const void*>(&g.getVXDParameters()); case SIT: return dynamic_cast<const void*>(&g.getSITParameters()); case SET: return dynamic_cast<const void*>(&g.getSETParameters()); case FTD: return dynamic_cast<const void*>(&g.getFTDParameters());
    case TRPL: return dynamic_cast<const void*>(&g.getTrackerPlanesParameters()); case SIPL: return dynamic_cast<const void*>(&g.getSiPlanesParameters()); case BF: return dynamic_cast<const void*>(&g.getBField()); case PP: return dynamic_cast<const void*>(&g.getPointProperties()); default: return dynamic_cast<const void*>(&g.getDistanceProperties()); }
}
// The history is driven once; P01 looks at what the manager answers, P02 at which objects are alive.
static void history(Ctx& c, bool own) {
  Rng& r = c.rng; Life L; life = &L; struct Off { ~Off() { life = 0; } } off; std::map<int, Obj> slot; std::map<std::string, Obj> gen_; std::map<std::string, std::pair<long, std::vector<double>>> mat; std::string det, sig; bool hasDet = false;
  gear::GearMgr* g = new gear::GearMgrImpl; int N = r.range(5, 60); std::vector<std::string> pool; for (int i = 0; i < 6; ++i) pool.push_back(name(r)); if (r.chance(.3)) pool.push_back("");
  // every object of a case is registered here with whether it must be alive
  std::set<long> mustLive;
  auto alive = [&](const char* when) { if (!own) return; c.chk(std::all_of(mustLive.begin(), mustLive.end(), [&](long t) { return L.live.count(t); }), "owned-alive", "%s", when); long extra = 0; for (auto& k : L.live) extra += !mustLive.count(k.first); c.eqi(extra, 0, "released", "%s: objects no longer used are still alive", when); };
  std::map<long, long> width; // tag of an object -> number of observed objects it consists of (a TPC brings its module and layout)
  for (int i = 0; i < N; ++i) {
    int op = r.range(0, 9);
    if (op < 4) { int s = r.range(0, NSLOT - 1); bool again = slot.count(s) && r.chance(.15); sig += char('A' + s);
      if (again) { slot[s].set(*g); sig += '='; } else { long b = L.next; Obj o = create(r, s); width[o.tag] = L.next - b; for (long t = b; t < L.next; ++t) mustLive.insert(t);
        o.set(*g); if (slot.count(s)) for (long t = slot[s].tag, e = t + width[t]; t < e; ++t) mustLive.erase(t); slot[s] = o; } alive("after setting"); }
    else if (op == 4) { std::string k = r.pick(pool); if (gen_.count(k) && r.chance(.2)) { gen_[k].set(*g); } else { auto* t = new Probe<gear::GearParametersImpl>(); t->setIntVal("n", i); Obj o = mkObj(t); o.set = [t, k](gear::GearMgr& m) { m.setGearParameters(k, t); }; mustLive.insert(o.tag); if (gen_.count(k)) mustLive.erase(gen_[k].tag); o.set(*g); gen_[k] = o; } sig += 'g'; alive("after setting generic parameters"); }
    else if (op == 5) { g->setGearParameters(r.pick(pool), 0); sig += '0'; alive("after setting nothing"); }
    else if (op == 6) { std::string n = r.pick(pool); std::vector<double> v; for (int k = 0; k < 5; ++k) v.push_back(num(r)); auto* t = new Probe<gear::SimpleMaterialImpl>(n, v[0], v[1], v[2], v[3], v[4]); std::string ex = thrown([&] { g->registerSimpleMaterial(t); });
      if (mat.count(n)) { c.chk(isGearException(ex), "duplicate-material", "%s", ex.c_str()); delete t; } else { c.chk(ex.empty(), "register-material", "%s", ex.c_str()); if (ex.empty()) { mat[n] = {t->tag.id, v}; mustLive.insert(t->tag.id); } else delete t; } sig += 'm'; alive("after registering a material"); }
    else if (op == 7) { det = r.chance(.1) ? "" : r.chance(.05) ? r.pick(std::vector<std::string>{" ", "  ", "\t", "\n", "0", "Unknown", std::string(3000, 'x'), "a b", std::string("a\0b", 3)}) : name(r); hasDet = !det.empty(); g->setDetectorName(det); sig += 'd'; }
    else if (!own) {
      for (int s = 0; s < NSLOT; ++s) { const void* q = 0; std::string ex = thrown([&] { q = fetch(*g, s); }); if (slot.count(s)) c.chk(ex.empty() && q == slot[s].p, "get", "%s %s", slotName(s).c_str(), ex.c_str()); else c.chk(ex == "UnknownParameterException" || (isGearException(ex) && ex.find("UnknownParameter") != std::string::npos), "get-unset", "%s: %s", slotName(s).c_str(), ex.c_str()); }
      for (auto& k : pool) { const gear::GearParameters* q = 0; std::string ex = thrown([&] { q = &g->getGearParameters(k); }); if (gen_.count(k)) c.chk(ex.empty() && dynamic_cast<const void*>(q) == gen_[k].p, "get-generic"); else c.chk(isGearException(ex) && ex.find("UnknownParameter") != std::string::npos, "get-generic-unset", "%s", ex.c_str());
        const gear::SimpleMaterial* m = 0; ex = thrown([&] { m = &g->getSimpleMaterial(k); }); if (mat.count(k)) { if (c.chk(ex.empty() && m, "get-material")) { auto& v = mat[k].second; c.eq(m->getName(), k, "material-name"); c.chk(m->getA() == v[0] && m->getZ() == v[1] && m->getDensity() == v[2] && m->getRadLength() == v[3] && m->getIntLength() == v[4], "material-values"); } } else c.chk(isGearException(ex) && ex.find("UnknownParameter") != std::string::npos, "get-material-unset", "%s", ex.c_str()); }
      std::vector<std::string> k1, k2; for (auto& k : gen_) k1.push_back(k.first); for (auto& k : mat) k2.push_back(k.first); auto keys = g->getGearParameterKeys(); auto mats = g->getMaterialNames(); std::sort(keys.begin(), keys.end()); std::sort(mats.begin(), mats.end());
      c.chk(keys == k1, "keys"); c.chk(mats == k2, "material-names"); std::string ex, d; ex = thrown([&] { d = g->getDetectorName(); }); if (hasDet) c.chk(ex.empty() && d == det, "detector-name"); else c.chk(isGearException(ex), "detector-name-unset");
      for (int s : {9, 10, 11}) if (slot.count(s)) { double a = -1; std::string e2 = thrown([&] { a = caloGet(*g, s).getDoubleVal("beam_crossing_angle"); }); c.chk(e2.empty() && (a == 0 || a == 14.5), "crossing-angle"); }
    }
  }
  long before = L.live.size(); delete g; if (own) { c.eqi(L.live.size(), 0, "all-deleted", "%ld objects alive before", before); c.eqi(L.born, L.died, "exactly-once"); }
  c.state(sig);
}
static void reg(Ctx& c) { history(c, false); }
static void ownH(Ctx& c) { history(c, true); }
MON_WORKLOAD("P01", "registry", reg, 12000, 400000)
MON_WORKLOAD_F("P02", "manager", ownH, 9000, 90000, LEAKCHECK)

// TPC and modules own what they are given
static void ownTPC(Ctx& c) {
  Rng& r = c.rng; Life L; life = &L; struct Off { ~Off() { life = 0; } } off; std::string sig;
  auto mod = [&](int id, bool pol) { return new Probe<gear::TPCModuleImpl>(id, r.chance(.5) ? (gear::PadRowLayout2D*)new Probe<gear::FixedPadSizeDiskLayout>(10., 20., 1., 1., 5, 0., 6.28) : r.chance(.5) ? (gear::PadRowLayout2D*)new Probe<gear::FixedPadAngleDiskLayout>(10., 20., 3, 0., 1., 4) : (gear::PadRowLayout2D*)new Probe<gear::VersatileDiskRowLayout>(10.), pol ? (int)gear::PadRowLayout2D::POLAR : (int)gear::PadRowLayout2D::CARTESIAN, 1.); };
  { std::vector<std::unique_ptr<gear::TPCParametersImpl>> ts; int N = r.range(2, 20); long expect = 0; std::vector<int> n; bool pol = true;
    for (int i = 0; i < N; ++i) { int op = r.range(0, 7); sig += char('0' + op);
      switch (op) {
        case 0: ts.emplace_back(new gear::TPCParametersImpl(10, gear::PadRowLayout2D::POLAR)); n.push_back(0); break;
        case 1: case 2: if (!ts.empty()) { int k = r.range(0, ts.size() - 1); auto* m = mod(i, pol); if (r.chance(.3)) m->setZPosition(r.uni(-5, 5)); std::string ex = thrown([&] { ts[k]->addModule(m); }); if (ex.empty()) { n[k]++; expect += 2; } else delete m; } break;
        case 3: if (!ts.empty()) { int k = r.range(0, ts.size() - 1), id = 500; auto* m = mod(id, !pol); std::string ex = thrown([&] { ts[k]->addModule(m); }); c.chk(isGearException(ex), "refused"); delete m; } break;
        case 4: if (!ts.empty()) { int k = r.range(0, ts.size() - 1); ts.emplace_back(new gear::TPCParametersImpl(*ts[k])); n.push_back(n[k]); } break;
        case 5: if (ts.size() > 1) { int k = r.range(0, ts.size() - 1), j = r.range(0, ts.size() - 1); *ts[k] = *ts[j]; n[k] = n[j]; } break;
        case 6: if (!ts.empty()) { int k = r.range(0, ts.size() - 1); ts.erase(ts.begin() + k); n.erase(n.begin() + k); } break;
        case 7: { // modules and layouts assigned to each other, to themselves and over unrelated ones
          std::unique_ptr<gear::TPCModuleImpl> a(mod(1, pol)), b(mod(2, r.chance(.5))); for (int q = r.range(1, 4); q > 0; --q) { if (r.chance(.2)) { gear::TPCModuleImpl& self = *a; *a = self; } else if (r.chance(.5)) *a = *b; else *b = *a; if (r.chance(.3)) { gear::TPCModuleImpl copy(*a); *b = copy; } }
          (r.chance(.5) ? a : b).reset(); gear::TPCModuleImpl* left = a ? a.get() : b.get(); c.chk(left->getNPads() == (int)left->getLocalPadLayout().getNPads(), "assigned-module-alive"); c.ev("modules-assigned");
          gear::FixedPadSizeDiskLayout s1(10., 20., 1., 1., 5, 0., 6.28), s2(10., 30., 2., 1., 3, 0., 6.28); gear::FixedPadAngleDiskLayout g1(10., 20., 3, 0., 1., 4), g2(10., 40., 5, 0., 2., 2); gear::VersatileDiskRowLayout v1(10.), v2(20.); gear::RectangularPadRowLayout r1(0, 10), r2(0, 20); v1.addRow(4, 1., 1., 5.); r2.addRow(1, 3, 2., 1.);
          s1.getPadsInRow(0); g1.getPadsInRow(1); v1.getPadsInRow(0); r2.getPadsInRow(0); s2 = s1; s1 = s2; g2 = g1; g1 = g2; v2 = v1; r1 = r2; c.eqi(s2.getPadsInRow(0).size(), s1.getPadsInRow(0).size(), "assigned-layout-alive"); c.eqi(g2.getPadsInRow(0).size(), g1.getPadsInRow(0).size(), "assigned-layout-alive"); c.eqi(v2.getPadsInRow(0).size(), 4, "assigned-layout-alive"); c.eqi(r1.getPadsInRow(0).size(), 3, "assigned-layout-alive"); } break;
      }
      for (size_t k = 0; k < ts.size(); ++k) c.eqi(ts[k]->getNModules(), n[k], "modules");
    } (void)expect; }
  c.eqi(L.live.size(), 0, "all-deleted"); c.eqi(L.born, L.died, "exactly-once"); c.state(sig);
}
MON_WORKLOAD_F("P02", "tpc", ownTPC, 7500, 75000, LEAKCHECK)
// complete descriptions: built, read, written, replaced and destroyed in any order
static void whole(Ctx& c) {
  Rng& r = c.rng; std::string p = c.scratch + fmt("/own_%ld.xml", c.idx);
  { Spec s; make(r, s, r.chance(.5) ? ALL : 1 << r.range(0, 9), .6); c.describe = s.desc; bool wr = s.mgr.get() != 0; xt::writeFile(p, xt::document(s.document(), 0)); std::unique_ptr<gear::GearMgr> m; std::string ex = thrown([&] { gear::GearXML x(p); m.reset(x.createGearMgr()); });
    if (ex.empty() && m) { thrown([&] { gear::GearXML::createXMLFile(m.get(), p + ".out"); }); Facts f = snapshot(*m); c.ev("facts", f.size()); } if (wr && r.chance(.5)) thrown([&] { gear::GearXML::createXMLFile(s.mgr.get(), p + ".out"); }); }
  unlink(p.c_str()); unlink((p + ".out").c_str()); c.state(c.describe.substr(0, 60));
}
MON_WORKLOAD_F("P02", "descriptions", whole, 2100, 21000, LEAKCHECK)

// ---- P03 --------------------------------------------------------------------------------------
static gear::GearParametersImpl* store(Rng& r, int k) {
  switch (k) { case 1: return new gear::CalorimeterParametersImpl(1., 2., 8, 0.); case 2: return new gear::ConstantBField(gear::Vector3D(0, 0, 1)); case 3: return new gear::ZPlanarParametersImpl(1, 1., 2., 3., 0., 1.); case 4: return new gear::FTDParametersImpl; case 5: return new gear::SiPlanesParametersImpl(1, 1, 1); case 6: return new gear::TPCParametersImpl;
    case 7: return new gear::TPCModuleImpl(1, padgen::make(r, 1, 20).l.release(), gear::PadRowLayout2D::POLAR, 1); default: return new gear::GearParametersImpl; }
}
static void params3(Ctx& c) {
  Rng& r = c.rng; int kind = r.range(0, 7); std::unique_ptr<gear::GearParametersImpl> g(store(r, kind)); std::map<std::string, int> mi; std::map<std::string, double> md; std::map<std::string, std::string> ms; std::map<std::string, std::vector<int>> vi; std::map<std::string, std::vector<double>> vd; std::map<std::string, std::vector<std::string>> vs;
  std::vector<std::string> pool; for (int i = 0; i < 8; ++i) pool.push_back(r.chance(.1) ? "" : name(r)); std::string sig = fmt("%d", kind); int N = r.range(1, 60);
  auto check = [&] {
    for (auto& k : pool) {
#define ONE(M, G, N) { bool has = M.count(k); decltype(M)::mapped_type v{}; std::string ex = thrown([&] { v = g->G(k); }); if (has) c.chk(ex.empty() && (v == M[k] || (v != v && M[k] != M[k])), N, "key '%s' %s", k.c_str(), ex.c_str()); else c.chk(isGearException(ex) && ex.find("UnknownParameter") != std::string::npos, N "-unset", "key '%s': %s", k.c_str(), ex.c_str()); }
      ONE(mi, getIntVal, "int") ONE(md, getDoubleVal, "double") ONE(ms, getStringVal, "string") ONE(vi, getIntVals, "intvec") ONE(vd, getDoubleVals, "doublevec") ONE(vs, getStringVals, "stringvec")
    }
#define KEYS(M, G, N) { std::vector<std::string> w; for (auto& q : M) w.push_back(q.first); std::vector<std::string> h = g->G(); std::sort(h.begin(), h.end()); c.chk(h == w, N, "%zu keys expected %zu", h.size(), w.size()); }
    KEYS(mi, getIntKeys, "int-keys") KEYS(md, getDoubleKeys, "double-keys") KEYS(ms, getStringKeys, "string-keys") KEYS(vi, getIntVecKeys, "intvec-keys") KEYS(vd, getDoubleVecKeys, "doublevec-keys") KEYS(vs, getStringVecKeys, "stringvec-keys")
  };
  for (int i = 0; i < N; ++i) { std::string k = r.pick(pool); int t = r.range(0, 6); sig += char('a' + t); int n = r.range(0, 5);
    switch (t) { case 0: { int v = anyInt(r); g->setIntVal(k, v); mi[k] = v; } break; case 1: { double v = r.chance(.05) ? (r.chance(.5) ? NAN : INFINITY) : num(r); g->setDoubleVal(k, v); md[k] = v; } break; case 2: { std::string v = text(r); if (r.chance(.1)) v += std::string("\0\n\t", 3); g->setStringVal(k, v); ms[k] = v; } break;
      case 3: { std::vector<int> v; for (int q = 0; q < n; ++q) v.push_back(anyInt(r)); g->setIntVals(k, v); vi[k] = v; } break; case 4: { std::vector<double> v; for (int q = 0; q < n; ++q) v.push_back(num(r)); g->setDoubleVals(k, v); vd[k] = v; } break; case 5: { std::vector<std::string> v; for (int q = 0; q < n; ++q) v.push_back(text(r)); g->setStringVals(k, v); vs[k] = v; } break;
      case 6: check(); break; } }
  check(); c.state(sig);
}
MON_WORKLOAD("P03", "store", params3, 16000, 400000)

// ---- P33 --------------------------------------------------------------------------------------
template <class T, class S> static void copies(Ctx& c, const T& orig, const T* other, const char* what, S snap, std::function<void(T&)> change) {
  Rng& r = c.rng; Facts want = snap(orig); c.ev("copies"); const std::string w = what;
  std::unique_ptr<T> a(new T(orig)); compare(c, snap(*a), want, 0, w + "-copy");
  std::unique_ptr<T> b(new T(*a)); { T& self = *b; *b = self; } compare(c, snap(*b), want, 0, w + "-self-assign");
  T t(*b); change(t); Facts changed = snap(t); compare(c, snap(*a), want, 0, w + "-independent"); compare(c, snap(orig), want, 0, w + "-original"); compare(c, snap(*b), want, 0, w + "-independent");
  if (other && other != &orig) {   // assignment over an unrelated object, in both directions
    Facts theirs = snap(*other); c.ev("assigned-over-other"); std::unique_ptr<T> x(new T(*other)), y(new T(orig)); compare(c, snap(*x), theirs, 0, w + "-copy-of-other"); *x = orig; compare(c, snap(*x), want, 0, w + "-assign-over-other"); *y = *other; compare(c, snap(*y), theirs, 0, w + "-assign-other");
    *y = *x; change(*x); compare(c, snap(*y), want, 0, w + "-assign-and-back"); x.reset(); compare(c, snap(*y), want, 0, w + "-assign-source-deleted"); y.reset(); compare(c, snap(*other), theirs, 0, w + "-other-unchanged");
  }
  *b = t; compare(c, snap(*b), changed, 0, w + "-assign"); change(*a); compare(c, snap(*b), changed, 0, w + "-assign-independent");
  *a = orig; compare(c, snap(*a), want, 0, w + "-assign-back"); b.reset(); compare(c, snap(t), changed, 0, w + "-after-delete"); if (r.chance(.5)) { std::unique_ptr<T> d(new T(*a)); a.reset(); compare(c, snap(*d), want, 0, w + "-after-delete"); }
}
template <class T> static void touch(Rng& r, T& t) { t.setIntVal("touched", r.range(1, 100)); t.setDoubleVal("touched", 1.5); t.setStringVals("touched", std::vector<std::string>(3, "x")); for (auto& k : std::vector<std::string>(t.getDoubleKeys())) t.setDoubleVal(k, 42); }
static void copyAll(Ctx& c) {
  Rng& r = c.rng; int k = r.range(0, 7); Spec s; static const int part[] = {GENERIC, CALOS, ZPL, FTDS, SIP, TPCS, TPCS, FIELD}; make(r, s, part[k], 1); Spec s2; bool two = r.chance(.5); if (two) make(r, s2, part[k], 1); c.describe = s.desc; if (two) c.describe += "\n  other: " + s2.desc; gear::GearMgr &m = *s.mgr, &m2 = *s2.mgr;
  std::string ex; auto has = [&](std::function<void()> f) { return thrown(f).empty(); };
  switch (k) {
    case 0: { const gear::GearParametersImpl* last = 0; for (auto& key : std::vector<std::string>(m.getGearParameterKeys())) { auto* p = dynamic_cast<const gear::GearParametersImpl*>(&m.getGearParameters(key)); if (p) copies<gear::GearParametersImpl>(c, *p, last, "parameters", [](const gear::GearParametersImpl& t) { Facts f; snapParams(f, "p", t); return f; }, [&](gear::GearParametersImpl& t) { touch(r, t); }); if (p) last = p; } } break;
    case 1: { const gear::CalorimeterParametersImpl* last = 0; for (int i = 0; i < 12; ++i) { const gear::CalorimeterParameters* q = 0; if (!has([&] { q = &caloGet(m, i); })) continue; auto* p = dynamic_cast<const gear::CalorimeterParametersImpl*>(q); if (p) copies<gear::CalorimeterParametersImpl>(c, *p, last, "calorimeter", [](const gear::CalorimeterParametersImpl& t) { Facts f; snapCalo(f, "p", t); return f; }, [&](gear::CalorimeterParametersImpl& t) { touch(r, t); t.layerLayout().addLayer(3, 4, 5, 1); }); if (p) last = p; } } break;
    case 2: { const gear::ZPlanarParametersImpl* last = 0; for (int i = 0; i < 3; ++i) { const gear::ZPlanarParameters* q = 0; if (!has([&] { q = i == 0 ? &m.getVXDParameters() : i == 1 ? &m.getSITParameters() : &m.getSETParameters(); })) continue; auto* p = dynamic_cast<const gear::ZPlanarParametersImpl*>(q); if (p) copies<gear::ZPlanarParametersImpl>(c, *p, last, "zplanar", [](const gear::ZPlanarParametersImpl& t) { Facts f; snapZ(f, "p", t); return f; }, [&](gear::ZPlanarParametersImpl& t) { touch(r, t); t.addLayer(5, .1, 20, 1, .1, 50, 8, 100, 20.1, 1, .05, 50, 8, 90); }); if (p) last = p; } } break;
    case 3: if (has([&] { m.getFTDParameters(); })) { auto* p = dynamic_cast<const gear::FTDParametersImpl*>(&m.getFTDParameters()); if (p) copies<gear::FTDParametersImpl>(c, *p, two && has([&] { m2.getFTDParameters(); }) ? dynamic_cast<const gear::FTDParametersImpl*>(&m2.getFTDParameters()) : 0, "ftd", [](const gear::FTDParametersImpl& t) { Facts f; snapFTD(f, "p", t); return f; }, [&](gear::FTDParametersImpl& t) { touch(r, t); }); } break;
    case 4: if (has([&] { m.getSiPlanesParameters(); })) { auto* p = dynamic_cast<const gear::SiPlanesParametersImpl*>(&m.getSiPlanesParameters()); if (p) copies<gear::SiPlanesParametersImpl>(c, *p, two && has([&] { m2.getSiPlanesParameters(); }) ? dynamic_cast<const gear::SiPlanesParametersImpl*>(&m2.getSiPlanesParameters()) : 0, "siplanes", [](const gear::SiPlanesParametersImpl& t) { Facts f; snapSi(f, "p", t); return f; }, [&](gear::SiPlanesParametersImpl& t) { touch(r, t); }); } break;
    case 5: if (has([&] { m.getTPCParameters(); })) { auto* p = dynamic_cast<const gear::TPCParametersImpl*>(&m.getTPCParameters()); std::set<int> ids = {-7, 3}; std::vector<int> mine; std::unique_ptr<gear::TPCParametersImpl> o; if (p) { for (auto* q : p->getModules()) { ids.insert(q->getModuleID()); mine.push_back(q->getModuleID()); }
        if (two && m2.getTPCParameters().getCoordinateType() == p->getCoordinateType() && r.chance(.5)) { auto* q = dynamic_cast<const gear::TPCParametersImpl*>(&m2.getTPCParameters()); if (q) o.reset(new gear::TPCParametersImpl(*q)); }
        // another TPC, with the same IDs on different modules
        if (!o) { o.reset(new gear::TPCParametersImpl(r.uni(1, 99), p->getCoordinateType())); mine.push_back(-7); for (size_t i = mine.size(); i > 1; --i) std::swap(mine[i - 1], mine[r.range(0, i - 1)]); for (int id : mine) if (!o->getNModules() || r.chance(.8)) o->addModule(new gear::TPCModuleImpl(id, p->getCoordinateType() == gear::PadRowLayout2D::POLAR ? padgen::make(r, 2, 20).l.release() : padgen::make(r, 0, 20).l.release(), p->getCoordinateType(), 1 + id)); } for (auto* q : o->getModules()) ids.insert(q->getModuleID()); }
      if (p) copies<gear::TPCParametersImpl>(c, *p, o.get(), "tpc", [&ids](const gear::TPCParametersImpl& t) { Facts f; snapTPC(f, "p", t); for (int id : ids) { const gear::TPCModule* q = 0; thrown([&] { q = &t.getModule(id); }); int at = -1; for (size_t i = 0; i < t.getModules().size(); ++i) if (t.getModules()[i] == q) at = i; f.i(fmt("id%d", id), q ? at : -2); } if (t.getNModules()) { for (double z : {-5000., 5000.}) { int id = -99; thrown([&] { id = t.getNearestModule(10, .5, z).getModuleID(); }); f.i(fmt("near%g", z), id); } } return f; },
        [&](gear::TPCParametersImpl& t) { touch(r, t); t.setDriftVelocity(4711); t.setMaxDriftLength(12345); int id = 100000 + r.range(0, 1000000); std::string e = thrown([&] { t.addModule(new gear::TPCModuleImpl(id, new gear::FixedPadAngleDiskLayout(10, 20, 3, 0, 1, 4), t.getCoordinateType(), 3)); }); }); } break;
    case 6: { const gear::TPCModuleImpl* last = 0; if (two && has([&] { m2.getTPCParameters(); }) && m2.getTPCParameters().getNModules()) last = dynamic_cast<const gear::TPCModuleImpl*>(m2.getTPCParameters().getModules()[0]); if (has([&] { m.getTPCParameters(); })) for (gear::TPCModule* q : m.getTPCParameters().getModules()) { auto* p = dynamic_cast<const gear::TPCModuleImpl*>(q); if (!p) continue; bool polCart = p->getTPCCoordinateType() == gear::PadRowLayout2D::POLAR && p->getLocalPadLayout().getCoordinateType() == gear::PadRowLayout2D::CARTESIAN;
        copies<gear::TPCModuleImpl>(c, *p, last, "module", [](const gear::TPCModuleImpl& t) { Facts f; f.i("id", t.getModuleID()); f.d("freq", t.getReadoutFrequency()); f.d("angle", t.getAngle()); f.d("off_a", t.getOffset()[0]); f.d("off_b", t.getOffset()[1]); f.d("border", t.getBorderWidth()); double z = -1e99; thrown([&] { z = t.getZPosition(); }); f.d("z", z); snapExt(f, "plane", t.getPlaneExtent()); snapExt(f, "module", t.getModuleExtent()); snapExt(f, "local", t.getLocalModuleExtent()); snapPads(f, "pads", t, 5); gear::Vector2D v = t.localToGlobal(12, .3); f.d("g_a", v[0]); f.d("g_b", v[1]); snapParams(f, "p", t); return f; },
          [&](gear::TPCModuleImpl& t) { touch(r, t); t.setReadoutFrequency(77); if (!polCart) { t.setAngle(1.234); t.setOffset(3, 1); t.setBorderWidth(2); t.setZPosition(-4); } }); break; } } break;
    case 7: if (has([&] { m.getBField(); })) { auto* p = dynamic_cast<const gear::ConstantBField*>(&m.getBField()); if (p) copies<gear::ConstantBField>(c, *p, two && has([&] { m2.getBField(); }) ? dynamic_cast<const gear::ConstantBField*>(&m2.getBField()) : 0, "bfield", [](const gear::ConstantBField& t) { Facts f; gear::Vector3D b = t.at(gear::Vector3D(1, 2, 3)); f.d("x", b[0]); f.d("y", b[1]); f.d("z", b[2]); snapParams(f, "p", t); return f; }, [&](gear::ConstantBField& t) { touch(r, t); }); } break;
  }
  c.state(fmt("%d/", k) + s.desc.substr(0, 40));
}
MON_WORKLOAD_F("P33", "objects", copyAll, 3000, 30000, LEAKCHECK)
template <class T> static Facts padFacts(const T& t) { Facts f; snapPads(f, "l", t, 12); return f; }
// the file a description with this layout as its only TPC module is written to; takes the layout over
static std::string layoutFile(Ctx& c, gear::PadRowLayout2D* l, const char* tag) {
  int ct = l->getCoordinateType(); gear::GearMgrImpl m; auto* t = new gear::TPCParametersImpl(100., ct); m.setTPCParameters(t);
  t->addModule(new gear::TPCModuleImpl(1, l, ct, 1.));
  std::string p = c.scratch + fmt("/p33_%s_%ld.xml", tag, c.idx); gear::GearXML::createXMLFile(&m, p); std::string s = xt::readFile(p); unlink(p.c_str()); return s;
}
static void copyPads(Ctx& c) {
  Rng& r = c.rng; padgen::Lay L = padgen::make(r, -1, 120), M = padgen::make(r, L.kind, 60); c.describe = L.desc; bool warm = r.chance(.5); if (warm) for (int k = 0; k < (int)L.rows.size(); ++k) L.l->getPadsInRow(k);
  // change: assign another layout of the same kind
  switch (L.kind) {
#define KIND(K, T) case K: copies<T>(c, *dynamic_cast<T*>(L.l.get()), dynamic_cast<T*>(M.l.get()), #T, padFacts<T>, [&](T& t) { t = *dynamic_cast<T*>(M.l.get()); }); break;
    KIND(padgen::RECT, gear::RectangularPadRowLayout) KIND(padgen::FSIZE, gear::FixedPadSizeDiskLayout) KIND(padgen::FANGLE, gear::FixedPadAngleDiskLayout) KIND(padgen::VERS, gear::VersatileDiskRowLayout)
  }
  // copies are also written like the original, and so are copies that grow like it
  { gear::PadRowLayout2D* k = L.l->clone(); std::unique_ptr<gear::PadRowLayout2D> o(L.l->clone()); std::string w = layoutFile(c, L.l.release(), "orig"); L.l.reset(o->clone());
    auto grow = [&](gear::PadRowLayout2D* p) { if (auto* q = dynamic_cast<gear::RectangularPadRowLayout*>(p)) q->addRow(2, 3, 1, 1, 1); else if (auto* v = dynamic_cast<gear::VersatileDiskRowLayout*>(p)) v->addRow(3, 1, .01); };
    c.chk(layoutFile(c, k, "copy") == w && w.find("PadRowLayout2D") != std::string::npos, "written-copy", "%s", L.desc.c_str());
    gear::PadRowLayout2D* g = o->clone(); grow(o.get()); grow(g); std::unique_ptr<gear::PadRowLayout2D> h(g->clone()); Facts fo = padFacts(*o); compare(c, padFacts(*g), fo, 0, "grown"); compare(c, padFacts(*h), fo, 0, "grown-copy"); std::string a = layoutFile(c, o.release(), "o"); c.chk(layoutFile(c, g, "g") == a, "written-grown", "%s", L.desc.c_str()); c.chk(layoutFile(c, h.release(), "h") == a, "written-grown-copy", "%s", L.desc.c_str()); }
  { std::unique_ptr<gear::PadRowLayout2D> k(L.l->clone()); Facts want = padFacts(*L.l); compare(c, padFacts(*k), want, 0, "clone"); L.l.reset(); compare(c, padFacts(*k), want, 0, "clone-after-delete"); }
  c.state(fmt("%d/%zu/%d", L.kind, L.rows.size(), warm));
}
MON_WORKLOAD_F("P33", "layouts", copyPads, 3000, 30000, LEAKCHECK)
