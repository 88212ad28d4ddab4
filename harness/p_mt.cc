// P31: threads with descriptions of their own do not disturb each other; queries of a shared description agree.
// Runs under ThreadSanitizer: a data race ends the process with a report.  Results of every thread are compared with a
// serial repetition of the same job.  Oracles are only called by the main thread.
#include "gen.h"
#include "gearimpl/Util.h"
#include "gearxml/MergeXML.h"
#include "gearxml/tinyxml.h"
#include "gear/gearsurf/MeasurementSurfaceStore.h"
#include "gear/gearsurf/MeasurementSurface.h"
#include "gear/gearsurf/CartesianCoordinateSystem.h"
#include "gear/gearsurf/BoundaryRectangle.h"
#include <atomic>
#include <fstream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace gen;

typedef std::map<std::string, std::string> Result;   // name of an observation -> what was observed
static std::string flat(const Facts& f) { std::string s; for (auto& k : f.m) s += k.first + "=" + str(k.second) + "\n"; return s; }
static std::string slurp(const std::string& p) { std::ifstream i(p.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); return i ? s.str() : std::string("<no file>"); }
// the order in which the threads reach the ends of their operations; relaxed: it must not order them for the race detector
struct Order { std::atomic<unsigned> n{0}; std::atomic<int> go{0}; std::atomic<unsigned char> who[4096]; void mark(int t) { unsigned k = n.fetch_add(1, std::memory_order_relaxed); if (k < 4096) who[k].store((unsigned char)t, std::memory_order_relaxed); }
  std::string str() { std::string s; for (unsigned i = 0; i < std::min(4096u, n.load()); ++i) s += char('a' + who[i].load()); return s; } };

struct Job { uint64_t seed; int parts; double prob; std::vector<std::string> docs; };   // docs: texts to read (rendered beforehand)

static std::string surfaces(Rng& r) {
  std::string o; std::vector<std::unique_ptr<gear::MeasurementSurface>> v; int n = r.range(1, 20);
  for (int i = 0; i < n; ++i) {
    CLHEP::HepRotation R; R.rotateX(r.uni(-3, 3)); R.rotateY(r.uni(-1.5, 1.5));
    CLHEP::Hep3Vector T(r.uni(-100, 100), r.uni(-100, 100), r.uni(-100, 100));
    v.emplace_back(new gear::MeasurementSurface(i, new gear::CartesianCoordinateSystem(T, R), new gear::BoundaryRectangle(r.uni(1, 20), r.uni(1, 20), -10, -10)));
    CLHEP::Hep3Vector p(r.uni(-50, 50), r.uni(-50, 50), r.uni(-50, 50)), l = v.back()->getCoordinateSystem()->getLocalPoint(p);
    o += fmt("%.17g %.17g %.17g %d\n", l.x(), l.y(), l.z(), (int)v.back()->isLocalInBoundary(CLHEP::Hep3Vector(l.x(), l.y(), 0)));
  }
  return o;
}
// everything one thread does with its own description
static void work(const Job& j, const std::string& dir, int me, Order* ord, Result& out) {
  Rng r(j.seed); Rng slow(mix(j.seed ^ (ord ? 77 : 78)));
  auto step = [&] { if (!ord) return; ord->mark(me); int k = slow.range(0, 5); if (k == 0) usleep(slow.range(1, 400)); else if (k == 1) std::this_thread::yield(); };
  try {
    Spec s; make(r, s, j.parts, j.prob); step();
    out["made"] = flat(snapshot(*s.mgr)); step();
    std::vector<int> todo; int n = r.range(6, 14); for (int i = 0; i < n; ++i) todo.push_back(r.range(0, 7));
    std::string f = dir + "/w.xml"; bool have = false;
    for (int i = 0; i < n; ++i) {
      std::string tag = fmt("%02d", i);
      if (!have || todo[i] == 0) { out[tag + " write"] = thrown([&] { gear::GearXML::createXMLFile(s.mgr.get(), f); }); out[tag + " file"] = slurp(f); have = true; step(); }
      switch (todo[i]) {
        case 0: case 1: { std::string ex = thrown([&] { gear::GearXML x(f); std::unique_ptr<gear::GearMgr> m(x.createGearMgr()); step(); out[tag + " read"] = flat(snapshot(*m)); }); out[tag + " read-ex"] = ex; break; }
        case 2: { std::ostringstream o; out[tag + " print-ex"] = thrown([&] { o << *s.mgr; }); out[tag + " print"] = o.str(); break; }
        case 3: { gear::TiXmlDocument d(f); bool ok = d.LoadFile(); step(); gear::TiXmlDocument e(d); std::ostringstream p; p << e; out[tag + " dom"] = fmt("%d", ok) + p.str(); gear::TiXmlElement* root = e.RootElement();
                  if (root) { root->SetAttribute("x", i); root->InsertEndChild(gear::TiXmlElement("more")); std::string q = dir + "/d.xml"; e.SaveFile(q); out[tag + " dom2"] = slurp(q); } break; }
        case 4: { if (j.docs.empty()) break; std::string q = dir + "/o.xml", m3 = dir + "/m.xml"; xt::writeFile(q, r.pick(j.docs)); unlink(m3.c_str());
                  bool ok = false; out[tag + " merge-ex"] = thrown([&] { gear::MergeXML m; bool a = m.setFile1(f), b = m.setFile2(q); step(); ok = a && b && m.mergeFiles(m3); }); out[tag + " merge"] = fmt("%d", ok) + slurp(m3); break; }
        case 5: case 6: { if (j.docs.empty()) break; std::string q = dir + "/h.xml"; xt::writeFile(q, r.pick(j.docs)); std::string text;
                  out[tag + " doc-ex"] = thrown([&] { gear::GearXML x(q); std::unique_ptr<gear::GearMgr> m(x.createGearMgr()); step(); text = flat(snapshot(*m)); }); out[tag + " doc"] = text; break; }
        case 7: out[tag + " surfaces"] = surfaces(r); break;
      }
      step();
    }
  } catch (const std::exception& e) { out["exception"] = e.what(); }
}
static void jobs(Ctx& c, std::vector<Job>& js, bool small) {
  int n = c.rng.range(2, 4); std::vector<std::string> docs;
  int nd = c.rng.range(2, 5);
  for (int k = 0; k < nd; ++k) {
    Spec s; int parts = small ? TPCS | GENERIC : c.rng.chance(.5) ? ALL : 1 << c.rng.range(0, 9);
    make(c.rng, s, parts, small ? 1. : parts == ALL ? .3 : 1.); X d = s.document(); int how = c.rng.range(0, 3);
    std::string t = xt::document(d, &c.rng);
    if (how >= 2) { static const std::vector<std::string> what = {"GearParameters", "TPCParameters", "CalorimeterParameters", "ZPlanarParameters", "RectangularPadRowLayout", "FixedPadSizeDiskLayout", "FixedPadAngleDiskLayout", "VersatileDiskRowLayout"};
      for (auto& w : what) { size_t p = t.find(w); if (p != std::string::npos && c.rng.chance(.5)) t.insert(p, c.rng.chance(.5) ? "Q" : "Unknown"); } }
    if (how == 3 && t.size() > 20) t.erase(c.rng.range(0, t.size() - 2), c.rng.range(1, 20));
    docs.push_back(t);
  }
  for (int i = 0; i < n; ++i) js.push_back(Job{c.rng.next(), small ? TPCS | GENERIC | MAT : c.rng.chance(.6) ? (int)ALL : 1 << c.rng.range(0, 9) | 1 << c.rng.range(0, 9), small ? 1. : .35, docs});
  if (c.rng.chance(.2)) js.back() = js.front();   // the same job twice
}
static std::string mkdirs(const std::string& base, int i) { std::string d = base + fmt("/t%d", i); if (system(("mkdir -p " + d).c_str())) {} return d; }
static void compareResults(Ctx& c, const Result& got, const Result& want, int t) {
  for (auto& k : want) { std::string o = k.first.size() > 3 && isdigit((unsigned char)k.first[0]) ? k.first.substr(3) : k.first; auto g = got.find(k.first);
    c.chk(g != got.end() && g->second == k.second, "result-" + o, "thread %d, %s: %zu bytes instead of %zu, alone: %.300s", t, k.first.c_str(), g == got.end() ? 0 : g->second.size(), k.second.size(), k.second.c_str()); }
  c.eqi(got.size(), want.size(), "results");
}
static void runAll(const std::vector<Job>& js, const std::string& dir, std::vector<Result>& par, Order& ord) {
  std::vector<std::thread> th; std::vector<std::string> d; for (size_t i = 0; i < js.size(); ++i) d.push_back(mkdirs(dir, i));
  for (size_t i = 0; i < js.size(); ++i) th.emplace_back([&, i] { while (!ord.go.load(std::memory_order_relaxed)) std::this_thread::yield(); work(js[i], d[i], i, &ord, par[i]); });
  ord.go.store(1, std::memory_order_relaxed);
  for (auto& t : th) t.join();
}
// ---- threads with their own descriptions --------------------------------------------------
static void independent(Ctx& c) {
  std::vector<Job> js; jobs(c, js, false); static Order* ord; ord = new Order; std::vector<Result> par(js.size());
  runAll(js, c.scratch, par, *ord);
  std::string o = ord->str(); long ops = o.size(); delete ord;
  for (size_t i = 0; i < js.size(); ++i) { Result ser; work(js[i], mkdirs(c.scratch, i), i, 0, ser); auto ex = ser.find("exception"); c.chk(ex == ser.end(), "exception", "%s", ex == ser.end() ? "" : ex->second.c_str()); compareResults(c, par[i], ser, i); }
  c.ev("threads", js.size()); c.ev("operations", ops); long sw = 0; for (size_t i = 1; i < o.size(); ++i) sw += o[i] != o[i - 1]; c.ev("switches", sw);
  c.describe = fmt("%zu threads, order %s", js.size(), o.c_str()); c.state(o);
}
MON_WORKLOAD("P31", "independent", independent, 250, 6000)

// ---- the first use of the library in a process ---------------------------------------------
static void firstUse(Ctx& c) {
  std::vector<Job> js; jobs(c, js, true); std::string log = c.scratch + "/first.log"; unlink(log.c_str());
  int mode = c.rng.range(0, 2);   // a job, only reading, only writing
  fflush(0); pid_t pid = fork();
  if (pid == 0) {
    FILE* f = fopen(log.c_str(), "w"); Order ord; std::vector<Result> par(js.size()), ser(js.size());
    auto quick = [&](const Job& j, const std::string& d, int me, Order* o, Result& out) {
      if (mode == 0) { work(j, d, me, o, out); return; }
      Rng r(j.seed); std::string q = d + "/q.xml"; if (o) o->mark(me);
      if (mode == 1) { xt::writeFile(q, r.pick(j.docs)); std::string t; out["doc-ex"] = thrown([&] { gear::GearXML x(q); std::unique_ptr<gear::GearMgr> m(x.createGearMgr()); t = flat(snapshot(*m)); }); out["doc"] = t; }
      else { Spec s; make(r, s, j.parts, 1); out["write"] = thrown([&] { gear::GearXML::createXMLFile(s.mgr.get(), q); }); out["file"] = slurp(q); }
      if (o) o->mark(me);
    };
    std::vector<std::thread> th; std::vector<std::string> d; for (size_t i = 0; i < js.size(); ++i) d.push_back(mkdirs(c.scratch, i));
    for (size_t i = 0; i < js.size(); ++i) th.emplace_back([&, i] { while (!ord.go.load(std::memory_order_relaxed)) ; quick(js[i], d[i], i, &ord, par[i]); });
    ord.go.store(1, std::memory_order_relaxed);
    for (auto& t : th) t.join();
    for (size_t i = 0; i < js.size(); ++i) { quick(js[i], d[i], i, 0, ser[i]);
      for (auto& k : ser[i]) { bool same = par[i].count(k.first) && par[i][k.first] == k.second; fprintf(f, "%s %d %zu %s\n", same ? "same" : "differ", (int)i, k.second.size(), k.first.c_str()); } }
    fprintf(f, "order %s\n", ord.str().c_str()); fclose(f); _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { fprintf(stderr, "child ended with status %d\n", st); _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 99); }   // the report is on stderr
  std::ifstream in(log.c_str()); std::string l, order; long n = 0;
  while (std::getline(in, l)) { if (l.compare(0, 6, "order ") == 0) { order = l.substr(6); continue; } ++n; c.chk(l.compare(0, 5, "same ") == 0, "first-result", "%s", l.c_str()); }
  c.chk(n > 0 && !order.empty(), "first-observed", "%ld", n); c.ev("threads", js.size()); c.describe = fmt("%zu threads, mode %d, order %s", js.size(), mode, order.c_str()); c.state(fmt("%d", mode) + order + fmt("%d", (int)(js[0].seed % 16)));
}
MON_WORKLOAD("P31", "first", firstUse, 120, 3000)

// ---- queries of a shared description -------------------------------------------------------
static void ask(const gear::GearMgr& g, const Facts& known, uint64_t seed, int n, Order* ord, int me, std::string& out) {
  Rng r(seed); Rng slow(mix(seed ^ 5));
  auto vec = [&](const gear::Vector3D& v) { out += fmt("%.17g %.17g %.17g\n", v.x(), v.y(), v.z()); };
  auto par = [&](const gear::GearParameters& p, const std::string& sect) {   // by name
    static const char* t[] = {"int", "double", "string", "intvec", "doublevec", "stringvec"}; int k = r.range(0, 5); auto it = known.m.find(sect + ".keys." + t[k]); if (it == known.m.end()) return;
    std::string all = it->second.s; std::vector<std::string> names; size_t a = 0, b; while ((b = all.find('\x01', a)) != std::string::npos) { names.push_back(all.substr(a, b - a)); a = b + 1; } names.push_back("not there");
    std::string q = r.pick(names);
    out += thrown([&] { switch (k) { case 0: out += fmt("%d", p.getIntVal(q)); break; case 1: out += fmt("%.17g", p.getDoubleVal(q)); break; case 2: out += p.getStringVal(q); break; case 3: out += fmt("%zu", p.getIntVals(q).size()); break; case 4: out += fmt("%zu", p.getDoubleVals(q).size()); break; case 5: out += fmt("%zu", p.getStringVals(q).size()); } }) + "\n"; };
  for (int i = 0; i < n; ++i) {
    gear::Vector3D p(r.uni(-1500, 1500), r.uni(-1500, 1500), r.uni(-2500, 2500)), d(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    if (r.chance(.6)) p = gear::Vector3D(r.logu(.1, 2000), r.uni(-3, 3), r.uni(-300, 300), gear::Vector3D::cylindrical);
    int k = r.range(0, 8); out += fmt("%d: ", k);
    out += thrown([&] { switch (k) {
      case 0: vec(g.getBField().at(p)); par(g.getBField(), "BField"); break;
      case 1: { int w = r.range(0, 11); auto& q = caloGet(g, w); auto& l = q.getLayerLayout(); out += fmt("%d %d %.17g ", q.getSymmetryOrder(), l.getNLayers(), q.getPhi0()); int a = r.range(0, l.getNLayers()); out += fmt("%.17g %.17g %.17g", l.getDistance(a), l.getThickness(a), l.getCellSize0(a)); par(q, CALO[w]); break; }
      case 2: { int w = r.range(0, 2); auto& z = w == 0 ? g.getVXDParameters() : w == 1 ? g.getSITParameters() : g.getSETParameters(); gear::SensorID id; out += fmt("%d %d ", (int)z.isPointInLadder(p), (int)z.isPointInSensitive(p, &id));
                vec(z.distanceToNearestLadder(p)); vec(z.distanceToNearestSensitive(p)); vec(z.intersectionLadder(p, d)); vec(z.intersectionSensitive(p, d)); par(z, w == 0 ? "VXD" : w == 1 ? "SIT" : "SET"); break; }
      case 3: { auto& f = g.getFTDParameters(); auto& l = f.getFTDLayerLayout(); int a = r.range(-1, 2 * l.getNLayers()), b = r.range(0, 20); out += fmt("%d %.17g %.17g %.17g", l.getNPetals(a), l.getSupportZposition(a, b), l.getSensitiveZposition(a, b, 1), l.getPhiPetalCd(a, b)); par(f, "FTD"); break; }
      case 4: { auto& q = g.getSiPlanesParameters(); auto& l = q.getSiPlanesLayerLayout(); int a = r.range(0, l.getNLayers()); out += fmt("%d %.17g %.17g %.17g", l.getID(a), l.getLayerPositionZ(a), l.getSensitivePitchX(a), l.getLayerRadLength(a)); par(q, "SiPlanes"); break; }
      case 5: { auto& q = g.getTrackerPlanesParameters(); auto& l = q.getTrackerPlanesLayerLayout(); int a = r.range(0, l.getNLayers() - 1); if (l.getNLayers() > 0) { auto* e = l.getLayer(a); out += fmt("%d %d", e->getID(), e->getNSensitiveLayers()); } par(q, "TrackerPlanes"); break; }
      case 6: case 7: { auto& t = g.getTPCParameters(); bool pol = t.getCoordinateType() == gear::PadRowLayout2D::POLAR; double a = pol ? r.uni(0, 2000) : r.uni(-2000, 2000), b = pol ? r.uni(-7, 7) : r.uni(-2000, 2000);
                auto& ms = t.getModules(); if (!ms.empty() && r.chance(.8)) { auto* m = ms[r.range(0, ms.size() - 1)]; auto& e = m->getModuleExtent(); a = r.uni(e[0], e[1]); b = r.uni(e[2], e[3]); }
                auto pi = t.getNearestPad(a, b); out += fmt("%d %d %d %d ", pi.getModuleID(), pi.getPadIndex(), (int)t.isInsidePad(a, b), (int)t.isInsideModule(a, b)); auto& m = t.getModule(pi.getModuleID()); int q = pi.getPadIndex(); auto ce = m.getPadCenter(q);
                out += fmt("%.17g %.17g %d %d %.17g %.17g %d %d", ce[0], ce[1], m.getRowNumber(q), m.getPadNumber(q), m.getPadWidth(q), m.getPadHeight(q), m.getNPads(), m.getNRows()); out += fmt(" %d", m.getPadIndex(m.getRowNumber(q), m.getPadNumber(q)));
                out += thrown([&] { out += fmt(" %d", m.getRightNeighbour(q)); }) + thrown([&] { out += fmt(" %d", m.getLeftNeighbour(q)); }); par(t, "TPC"); break; }
      case 8: { std::vector<std::string> names; for (auto& f : known.m) if (f.first.compare(0, 14, "Material.name'") == 0) names.push_back(f.second.s); names.push_back("no"); auto& m = g.getSimpleMaterial(r.pick(names)); out += fmt("%.17g %.17g %.17g", m.getA(), m.getDensity(), m.getIntLength()); out += g.getDetectorName(); break; }
    } }) + "\n";
    if (ord) { ord->mark(me); if (slow.chance(.1)) usleep(slow.range(1, 100)); }
  }
}
static void shared(Ctx& c) {
  Spec s; make(c.rng, s, ALL, c.rng.chance(.5) ? 1. : .6); Facts known = s.want;
  std::unique_ptr<gear::GearMgr> read; const gear::GearMgr* g = s.mgr.get();
  if (c.rng.chance(.5)) { std::string p = c.scratch + "/shared.xml"; xt::writeFile(p, xt::document(s.document(), &c.rng)); gear::GearXML x(p); read.reset(x.createGearMgr()); g = read.get(); }
  int n = c.rng.range(2, 4), q = 120; bool same = c.rng.chance(.4); uint64_t base = c.rng.next(); std::vector<std::string> par(n); std::vector<std::thread> th; Order* ord = new Order;
  for (int i = 0; i < n; ++i) th.emplace_back([&, i] { while (!ord->go.load(std::memory_order_relaxed)) std::this_thread::yield(); ask(*g, known, same ? base : base + i, q, ord, i, par[i]); });
  ord->go.store(1, std::memory_order_relaxed); for (auto& t : th) t.join();
  std::string o = ord->str(); delete ord;
  for (int i = 0; i < n; ++i) { std::string ser; ask(*g, known, same ? base : base + i, q, 0, i, ser); size_t k = 0; while (k < ser.size() && k < par[i].size() && ser[k] == par[i][k]) ++k;
    c.chk(par[i] == ser, "shared-answers", "thread %d at %zu: %.200s alone: %.200s", i, k, par[i].substr(std::min(par[i].size(), k < 50 ? 0 : k - 50)).c_str(), ser.substr(std::min(ser.size(), k < 50 ? 0 : k - 50)).c_str()); c.ev("queries", q); }
  long sw = 0; for (size_t i = 1; i < o.size(); ++i) sw += o[i] != o[i - 1]; c.ev("switches", sw);
  c.describe = s.desc + fmt("%d threads, order %s", n, o.substr(0, 200).c_str()); c.state(o);
}
MON_WORKLOAD("P31", "shared", shared, 250, 6000)
