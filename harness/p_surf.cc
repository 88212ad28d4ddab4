// P28 measurement surfaces, P29 surface store.
#include "mon.h"
#include "gear/GEAR.h"
#include "gearsurf/BoundaryRectangle.h"
#include "gearsurf/BoundaryTrapezoid.h"
#include "gearsurf/CartesianCoordinateSystem.h"
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/MeasurementSurfaceStore.h"
#include "gearimpl/GearMgrImpl.h"
#include <algorithm>
#include <memory>
using namespace mon;
typedef CLHEP::Hep3Vector V3;
static double angle(Rng& r) { int k = r.range(0, 5); return k == 0 ? 0 : k == 1 ? r.range(-8, 8) * M_PI / 4 : k == 2 ? r.uni(-30, 30) : r.uni(-M_PI, M_PI); }
struct M3 { double a[3][3]; };
static M3 mul(const M3& p, const M3& q) { M3 o; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { o.a[i][j] = 0; for (int k = 0; k < 3; ++k) o.a[i][j] += p.a[i][k] * q.a[k][j]; } return o; }
static M3 rot(int ax, double t) { double c = cos(t), s = sin(t); if (ax == 0) return {{{1, 0, 0}, {0, c, -s}, {0, s, c}}}; if (ax == 1) return {{{c, 0, s}, {0, 1, 0}, {-s, 0, c}}}; return {{{c, -s, 0}, {s, c, 0}, {0, 0, 1}}}; }
static V3 app(const M3& m, const V3& v) { double x[3] = {v.x(), v.y(), v.z()}, o[3]; for (int i = 0; i < 3; ++i) o[i] = m.a[i][0] * x[0] + m.a[i][1] * x[1] + m.a[i][2] * x[2]; return V3(o[0], o[1], o[2]); }
static V3 appT(const M3& m, const V3& v) { double x[3] = {v.x(), v.y(), v.z()}, o[3]; for (int i = 0; i < 3; ++i) o[i] = m.a[0][i] * x[0] + m.a[1][i] * x[1] + m.a[2][i] * x[2]; return V3(o[0], o[1], o[2]); }
static double comp(Rng& r, double s) { return r.chance(.1) ? 0 : r.uni(-s, s); }
struct Sys { V3 T; M3 R; CLHEP::HepRotation H; std::string desc; };
static Sys mkSys(Rng& r) {
  Sys s; double sc = r.logu(.1, 3000); s.T = r.chance(.1) ? V3(0, 0, 0) : V3(comp(r, sc), comp(r, sc), comp(r, sc)); s.R = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; s.desc = fmt("T %.10g,%.10g,%.10g", s.T.x(), s.T.y(), s.T.z());
  for (int i = r.range(0, 3); i > 0; --i) { int ax = r.range(0, 2); double t = angle(r); s.R = mul(rot(ax, t), s.R); if (ax == 0) s.H.rotateX(t); else if (ax == 1) s.H.rotateY(t); else s.H.rotateZ(t); s.desc += fmt(" %c%.8g", "xyz"[ax], t); }
  return s;
}
// boundary model: signed margin, positive inside
struct Bnd { int kind = 0; double w = 0, w2 = 0, h = 0, d = 0, al = 0; bool def = false; gear::IBoundary* b = 0; std::string desc;
  double margin(const V3& l) const { double c = cos(al), s = sin(al), x = c * l.x() + s * l.y(), y = -s * l.x() + c * l.y(); double m = d - fabs(l.z());
    m = std::min(m, h / 2 - fabs(y)); double wid = kind == 1 ? w : w + (w2 - w) * (y + h / 2) / h; return std::min(m, wid / 2 - fabs(x)); }
  V3 at(double u, double v, double z) const { double y = v * h / 2, wid = kind == 1 ? w : w + (w2 - w) * (y + h / 2) / h, x = u * wid / 2, c = cos(al), s = sin(al); return V3(c * x - s * y, s * x + c * y, d > 0 ? z * d : z * .01); } };
static double size(Rng& r) { return r.chance(.5) ? r.range(1, 400) * .25 : r.logu(1e-2, 2000); }
static Bnd mkBnd(Rng& r, int kind = -1) {
  Bnd b; b.kind = kind >= 0 ? kind : r.range(1, 2); b.w = size(r); b.w2 = r.chance(.15) ? b.w : r.chance(.1) ? 0 : size(r); if (b.kind == 2 && r.chance(.05)) b.w = 0; b.h = size(r); b.d = r.chance(.03) ? 0 : r.chance(.3) ? .25 : r.logu(1e-5, 5); b.al = r.chance(.3) ? 0 : angle(r);
  b.def = b.kind == 1 && b.al == 0 && r.chance(.5);
  if (b.kind == 1) b.b = b.def ? new gear::BoundaryRectangle(b.w, b.h, b.d) : new gear::BoundaryRectangle(b.w, b.h, b.d, b.al); else b.b = new gear::BoundaryTrapezoid(b.w, b.w2, b.h, b.d, b.al);
  b.desc = fmt("%s w %.10g,%.10g h %.10g d %.10g alpha %.10g", b.kind == 1 ? "rectangle" : "trapezoid", b.w, b.w2, b.h, b.d, b.al); return b;
}
static V3 lpoint(Rng& r, const Bnd& b) {
  double f[3]; for (int i = 0; i < 3; ++i) { int k = r.range(0, 4); f[i] = k == 0 ? 0 : k == 1 ? r.sgn() * r.uni(.97, 1.03) : k == 2 ? r.uni(-2, 2) : r.uni(-1, 1); }
  if (r.chance(.03)) f[r.range(0, 2)] = r.sgn() * r.logu(1, 1e6);
  return b.at(f[0], f[1], f[2]);
}
static bool same(const V3& a, const V3& b, double tol) { return fabs(a.x() - b.x()) <= tol && fabs(a.y() - b.y()) <= tol && fabs(a.z() - b.z()) <= tol; }
#define VF "(%.10g,%.10g,%.10g)"
#define VA(v) (v).x(), (v).y(), (v).z()
static void surfaces(Ctx& c) {
  Rng& r = c.rng; Sys s = mkSys(r); bool bound = !r.chance(.1); Bnd b; if (bound) b = mkBnd(r); int id = (int)r.next(); c.describe = s.desc + " " + (bound ? b.desc : "no boundary");
  gear::CartesianCoordinateSystem* cs = new gear::CartesianCoordinateSystem(s.T, s.H); auto* msp = bound ? new gear::MeasurementSurface(id, cs, b.b) : r.chance(.5) ? new gear::MeasurementSurface(id, cs) : new gear::MeasurementSurface(id, cs, 0);
  std::unique_ptr<gear::MeasurementSurface> ms(msp); const gear::MeasurementSurface& cms = *ms;
  c.eqi(ms->getID(), id, "id"); c.chk(cms.getCoordinateSystem() == cs, "system"); c.chk(same(*cs->getOrigin(), s.T, 0), "origin");
  V3 ax[3] = {cs->getLocalXAxis(), cs->getLocalYAxis(), cs->getLocalZAxis()}; for (int i = 0; i < 3; ++i) c.chk(same(ax[i], V3(s.R.a[0][i], s.R.a[1][i], s.R.a[2][i]), 1e-11), "axis", "axis %d " VF, i, VA(ax[i]));
  const CLHEP::HepRotation& H = *cs->getR(); c.chk(fabs(H.xx() - s.R.a[0][0]) < 1e-11 && fabs(H.xy() - s.R.a[0][1]) < 1e-11 && fabs(H.zx() - s.R.a[2][0]) < 1e-11, "rotation");
  int in = 0, out = 0, n = 30; double ext = bound ? b.w + b.w2 + b.h : 1;
  for (int i = 0; i < n; ++i) {
    V3 l = bound ? lpoint(r, b) : V3(comp(r, 1e4), comp(r, 1e4), comp(r, 1e4)); double tol = 1e-11 * (1 + s.T.mag() + l.mag() + ext); gear::ICoordinateSystem& ics = *cms.getCoordinateSystem();
    V3 g = s.T + app(s.R, l), gg = ics.getGlobalPoint(l), ll = ics.getLocalPoint(g); c.chk(same(gg, g, tol), "global", "local " VF " global " VF " expected " VF, VA(l), VA(gg), VA(g)); c.chk(same(ll, l, 3 * tol), "local", "global " VF " local " VF " expected " VF, VA(g), VA(ll), VA(l)); c.chk(same(ics.getLocalPoint(gg), l, 3 * tol), "there-and-back");
    V3 g2(comp(r, 5e3), comp(r, 5e3), comp(r, 5e3)), l2 = appT(s.R, g2 - s.T); c.chk(same(ics.getLocalPoint(g2), l2, 1e-11 * (1 + s.T.mag() + g2.mag())), "local", "global " VF, VA(g2)); c.chk(same(ics.getGlobalPoint(ics.getLocalPoint(g2)), g2, 1e-11 * (1 + s.T.mag() + g2.mag())), "back-and-there");
    if (!bound) { c.chk(cms.isLocalInBoundary(l) && cms.isGlobalInBoundary(g), "unbounded", "point " VF " outside a surface without boundary", VA(l)); continue; }
    double m = b.margin(l); double slack = 10 * tol;
    if (fabs(m) <= slack) { c.ev("on the edge"); continue; }
    bool want = m > 0; (want ? in : out)++;
    c.chk(b.b->isInBoundary(l) == want, "boundary", "point " VF " margin %g", VA(l), m); c.chk(cms.isLocalInBoundary(l) == want, "local-boundary", "point " VF " margin %g", VA(l), m); c.chk(cms.isGlobalInBoundary(g) == want, "global-boundary", "local " VF " margin %g", VA(l), m);
    double m2 = b.margin(l2); if (fabs(m2) > 1e-10 * (1 + s.T.mag() + g2.mag() + ext)) c.chk(cms.isGlobalInBoundary(g2) == (m2 > 0), "global-boundary", "global " VF " margin %g", VA(g2), m2);
  }
  if (bound && b.al == 0) {   // the limits themselves belong to the surface (exactly representable values)
    double q = .25; b.w = r.range(1, 100) * q; b.h = r.range(1, 100) * q; b.d = r.range(0, 8) * q; gear::BoundaryRectangle R(b.w, b.h, b.d); gear::BoundaryTrapezoid Z(b.w, b.w, b.h, b.d, 0.);
    for (int k = 0; k < 6; ++k) { double x = r.range(-1, 1) * b.w / 2, y = r.range(-1, 1) * b.h / 2, z = r.range(-1, 1) * b.d; c.chk(R.isInBoundary(V3(x, y, z)), "limits-rectangle", "w %g h %g d %g point %g,%g,%g", b.w, b.h, b.d, x, y, z); c.chk(Z.isInBoundary(V3(x, y, z)), "limits-trapezoid", "w %g h %g d %g point %g,%g,%g", b.w, b.h, b.d, x, y, z); }
  }
  c.state(c.describe.substr(0, 0) + fmt("%d %d %d %d %d in%d out%d", bound, b.kind, b.al != 0, (int)(s.desc.size() / 12), (int)std::log10(1 + s.T.mag()), in, out));
}
MON_WORKLOAD("P28", "surfaces", surfaces, 60000, 600000)

// ------------------------------------------------------------------------------------------- store
struct Life { int sys = 0, bnd = 0; };
struct LSys : gear::CartesianCoordinateSystem { Life* l; LSys(V3 t, CLHEP::HepRotation R, Life* l_) : CartesianCoordinateSystem(t, R), l(l_) {} ~LSys() { l->sys++; } };
struct LBnd : gear::BoundaryRectangle { Life* l; LBnd(double w, Life* l_) : BoundaryRectangle(w, w, 1.), l(l_) {} ~LBnd() { l->bnd++; } };
struct Fill : gear::MeasurementSurfaceStoreFiller { std::vector<gear::MeasurementSurface*> v; std::string n; mutable int calls = 0; void getMeasurementSurfaces(std::vector<gear::MeasurementSurface*>& o) const override { ++calls; for (auto* p : v) o.push_back(p); } std::string getName() const override { return n; } };
static int pickID(Rng& r) { int k = r.range(0, 3); return k == 0 ? r.range(-5, 40) : k == 1 ? (int)r.next() : k == 2 ? (r.chance(.5) ? INT32_MAX : INT32_MIN) : (r.range(0, 31) << r.range(0, 26)); }
static void checkStore(Ctx& c, const gear::MeasurementSurfaceStore& s, const std::map<int, gear::MeasurementSurface*>& want, bool filled, const std::string& name, const char* who) {
  Rng& r = c.rng; c.eqi(s.isFilled(), filled, "filled", "%s", who); std::string n, ex = thrown([&] { n = s.getFillerName(); });
  if (filled) c.chk(ex == "" && n == name, "filler-name", "%s got %s '%s' want '%s'", who, ex.c_str(), n.c_str(), name.c_str()); else c.chk(isGearException(ex), "filler-name-unfilled", "%s '%s' %s", who, n.c_str(), ex.c_str());
  for (auto& kv : want) { const gear::MeasurementSurface* p = 0; ex = thrown([&] { p = s.GetMeasurementSurface(kv.first); }); c.chk(ex == "" && p == kv.second, "lookup", "%s id %d %s", who, kv.first, ex.c_str()); if (p == kv.second) c.eqi(kv.second->getID(), kv.first, "surface-id"); }
  for (int i = 0; i < 8; ++i) { int id = r.chance(.5) && want.size() ? (int)((unsigned)std::next(want.begin(), r.range(0, want.size() - 1))->first + (unsigned)r.range(-2, 2)) : pickID(r); const gear::MeasurementSurface* p = 0; ex = thrown([&] { p = s.GetMeasurementSurface(id); }); auto it = want.find(id); if (it == want.end()) c.chk(isGearException(ex), "unknown", "%s id %d %s %p", who, id, ex.c_str(), (const void*)p); else c.chk(ex == "" && p == it->second, "lookup", "%s id %d", who, id); }
}
static void store(Ctx& c) {
  Rng& r = c.rng; std::vector<std::unique_ptr<Life>> lives; std::map<int, gear::MeasurementSurface*> want; Fill f; f.n = r.chance(.1) ? "" : fmt("filler %d", r.range(0, 99)); int n = r.chance(.1) ? 0 : r.chance(.1) ? r.range(100, 600) : r.range(1, 30);
  auto mk = [&](int id) { lives.emplace_back(new Life); Life* l = lives.back().get(); bool b = r.chance(.7); if (!b) l->bnd = -1; return b ? new gear::MeasurementSurface(id, new LSys(V3(r.uni(-9, 9), id % 1000, 0), CLHEP::HepRotation(), l), new LBnd(r.uni(1, 5), l)) : new gear::MeasurementSurface(id, new LSys(V3(0, 0, 0), CLHEP::HepRotation(), l)); };
  for (int i = 0; i < n; ++i) { int id; do id = pickID(r); while (want.count(id)); auto* s = mk(id); want[id] = s; f.v.push_back(s); }
  bool viaMgr = r.chance(.4), ownMgr = viaMgr; std::unique_ptr<gear::GearMgrImpl> mgr; std::unique_ptr<gear::MeasurementSurfaceStore> own; (void)ownMgr;
  if (viaMgr) mgr.reset(new gear::GearMgrImpl); else own.reset(new gear::MeasurementSurfaceStore); gear::MeasurementSurfaceStore& s = viaMgr ? mgr->getMeasurementSurfaceStore() : *own; c.describe = fmt("%d surfaces %s", n, viaMgr ? "manager" : "store");
  if (viaMgr) c.chk(&mgr->getMeasurementSurfaceStore() == &s, "same-store");
  std::map<int, gear::MeasurementSurface*> none; checkStore(c, s, none, false, "", "new");
  // a filler that delivers the same ID twice is refused
  if (n > 0 && r.chance(.15)) {
    gear::MeasurementSurface* dup = mk(want.begin()->first); f.v.insert(f.v.begin() + r.range(0, f.v.size()), dup); size_t pd = std::find(f.v.begin(), f.v.end(), dup) - f.v.begin(), po = std::find(f.v.begin(), f.v.end(), want.begin()->second) - f.v.begin(); size_t second = std::max(pd, po); std::string ex = thrown([&] { s.FillStore(&f); });
    c.chk(isGearException(ex), "duplicate", "%s", ex.c_str()); c.chk(!s.isFilled(), "duplicate-filled"); c.chk(isGearException(thrown([&] { s.getFillerName(); })), "filler-name-unfilled");
    const gear::MeasurementSurface* p = 0; std::string e2 = thrown([&] { p = s.GetMeasurementSurface(want.begin()->first); }); c.chk(e2 != "" || p == f.v[std::min(pd, po)], "duplicate-replaced");
    std::set<const gear::MeasurementSurface*> held; for (auto* q : f.v) { const gear::MeasurementSurface* h = 0; thrown([&] { h = s.GetMeasurementSurface(q->getID()); }); if (h) held.insert(h); } (void)second;
    for (auto* q : f.v) if (!held.count(q)) delete q;    // what the store did not take is still the caller's
    if (r.chance(.6)) {     // another filler may fill the store after all
      Fill g; g.n = r.chance(.1) ? "" : fmt("filler %d", r.range(100, 199)); std::map<int, gear::MeasurementSurface*> all; for (auto* h : held) { auto* q = const_cast<gear::MeasurementSurface*>(h); all[q->getID()] = q; }
      for (int i = r.range(0, 5); i > 0; --i) { int k; do k = pickID(r); while (want.count(k) || all.count(k)); auto* q = mk(k); all[k] = q; g.v.push_back(q); }
      std::string e = thrown([&] { s.FillStore(&g); }); c.chk(e == "", "fill-after-refusal", "%s", e.c_str()); checkStore(c, s, all, true, g.n, "filled after a refusal");
    }
    own.reset(); mgr.reset(); for (size_t i = 0; i < lives.size(); ++i) c.chk(lives[i]->sys == 1 && (lives[i]->bnd == 1 || lives[i]->bnd == -1), "deleted-once-after-refusal", "sys %d bnd %d", lives[i]->sys, lives[i]->bnd);
    c.state(fmt("dup %d %zu %zu", n, pd, po)); return;
  }
  std::string ex = thrown([&] { s.FillStore(&f); }); c.chk(ex == "", "fill", "%s", ex.c_str()); c.eqi(f.calls, 1, "filler-calls"); checkStore(c, s, want, true, f.n, "filled");
  std::vector<std::unique_ptr<gear::MeasurementSurfaceStore>> copies; std::string ops;
  for (int i = r.range(0, 6); i > 0; --i) {
    int k = r.range(0, 3); ops += char('a' + k);
    if (k == 0) { Fill g; g.n = "other"; int id; do id = pickID(r); while (want.count(id)); auto* q = mk(id); if (r.chance(.7)) g.v.push_back(q); std::string e = thrown([&] { (copies.size() && copies.back() && r.chance(.4) ? *copies.back() : s).FillStore(&g); }); c.chk(isGearException(e), "second-fill", "%s", e.c_str()); delete q; }
    else if (k == 1) copies.emplace_back(new gear::MeasurementSurfaceStore(s));
    else if (k == 2 && copies.size()) { size_t j = r.range(0, copies.size() - 1); copies.erase(copies.begin() + j); }
    checkStore(c, s, want, true, f.n, "later"); for (auto& q : copies) checkStore(c, *q, want, true, f.n, "copy");
    for (size_t j = 0; j < (size_t)n; ++j) c.chk(lives[j]->sys == 0 && lives[j]->bnd <= 0, "alive", "surface deleted too early");
  }
  bool copyLast = copies.size() && r.chance(.5); if (copyLast) { own.reset(); mgr.reset(); for (auto& q : copies) checkStore(c, *q, want, true, f.n, "copy-after-original"); copies.clear(); } else { copies.clear(); checkStore(c, s, want, true, f.n, "after-copies"); own.reset(); mgr.reset(); }
  for (size_t i = 0; i < lives.size(); ++i) c.chk(lives[i]->sys == 1 && (lives[i]->bnd == 1 || lives[i]->bnd == -1), "deleted-once", "sys %d bnd %d", lives[i]->sys, lives[i]->bnd);
  c.state(fmt("%d %d ", n, viaMgr) + ops);
}
MON_WORKLOAD_F("P29", "store", store, 12000, 120000, LEAKCHECK)
