// P32: material maps: exact at the grid points, weighted in between, refused outside; one map per grid from the factory.
#include "mon.h"
#include "gear/GEAR.h"
#include "gear/GearDistanceProperties.h"
#include "gear/geartgeo/MaterialMap.h"
#include "gear/geartgeo/MaterialMapFactory.h"
#include "gearimpl/GearMgrImpl.h"
#include <memory>
using namespace mon;

// an analytic "detector": smooth functions of the end point
struct Fake : gear::GearDistanceProperties {
  double a, b; mutable long calls = 0, wrongStart = 0; mutable long failAt = -1; std::vector<std::string> n; std::vector<double> t;
  Fake(double a_, double b_) : a(a_), b(b_) {}
  static double f(double k, double x, double y, double z) { return std::sqrt(x * x + y * y + z * z) / 300 * (k + 2 + std::sin(k + x / 300) + .5 * std::cos(1 + y / 170 * k) + std::fabs(z) / 1000 + (x - y + 2 * z) / 50000); }   // continuous and zero at the vertex
  void seen(const gear::Vector3D& p) const { ++calls; if (p.x() != 0 || p.y() != 0 || p.z() != 0) ++wrongStart; if (failAt >= 0 && calls > failAt) throw gear::OutsideGeometryException("stub"); }
  const std::vector<std::string>& getMaterialNames(const gear::Vector3D&, const gear::Vector3D&) const { return n; }
  const std::vector<double>& getMaterialThicknesses(const gear::Vector3D&, const gear::Vector3D&) const { return t; }
  double getNRadlen(const gear::Vector3D& p, const gear::Vector3D& q) const { seen(p); return f(a, q.x(), q.y(), q.z()); }
  double getNIntlen(const gear::Vector3D& p, const gear::Vector3D& q) const { seen(p); return f(b, q.x(), q.y(), q.z()); }
  double getBdL(const gear::Vector3D&, const gear::Vector3D&) const { return 0; }
  double getEdL(const gear::Vector3D&, const gear::Vector3D&) const { return 0; }
};
struct Grid { double lo[3], hi[3]; int n[3], coord;
  int steps(int k) const { return hi[k] == lo[k] ? 0 : n[k]; }
  double at(int k, int i) const { return steps(k) == 0 ? lo[k] : lo[k] + i * ((hi[k] - lo[k]) / n[k]); }
  std::string str() const { return fmt("x %.17g..%.17g/%d y %.17g..%.17g/%d z %.17g..%.17g/%d coord %d", lo[0], hi[0], n[0], lo[1], hi[1], n[1], lo[2], hi[2], n[2], coord); } };
static double value(const Grid& g, double k, double a, double b, double c) {
  double x = a, y = b, z = c;
  if (g.coord == 1) { x = a * std::cos(b); y = a * std::sin(b); }
  if (g.coord == 2) { x = a * std::sin(b) * std::cos(c); y = a * std::sin(b) * std::sin(c); z = a * std::cos(b); }
  return Fake::f(k, x, y, z);
}
static Grid grid(Rng& r, int coord) {
  Grid g; g.coord = coord;
  for (int k = 0; k < 3; ++k) {
    g.n[k] = r.chance(.12) ? 0 : r.range(1, 6); double lo, hi, max = 0;
    if (coord == 1 && k == 1) max = 2 * M_PI; if (coord == 2 && k == 1) max = M_PI; if (coord == 2 && k == 2) max = 2 * M_PI;
    if (max > 0) { lo = r.chance(.4) ? 0 : r.uni(0, max * .9); hi = r.chance(.4) ? max : r.uni(lo, max); if (r.chance(.3) && lo < .5) { lo = .1 * r.range(0, 5); hi = lo + .1 * r.range(1, 9); } }
    else if (coord > 0 && k == 0) { lo = r.chance(.4) ? 0 : r.uni(0, 1000); hi = lo + (r.chance(.5) ? r.range(1, 900) : r.uni(.1, 2000)); }
    else { switch (r.range(0, 3)) { case 0: lo = r.range(-400, 400); hi = lo + r.range(1, 400); break; case 1: lo = .1 * r.range(-9, 9); hi = lo + .1 * r.range(1, 40); break; case 2: lo = -r.uni(1, 500); hi = -lo; break; default: lo = r.uni(-2000, 2000); hi = lo + r.logu(.05, 3000); } }
    if (r.chance(.06)) hi = lo;
    g.lo[k] = lo; g.hi[k] = hi;
    if (hi > lo && g.n[k] && (hi - lo) / g.n[k] < 5e-3) g.n[k] = 1;
  }
  return g;
}
// inverse distance weighting over the grid points of one cell (c: lowest grid point)
static double idw(const Grid& g, double k, const int* c, const double* p) {
  double s = 0, w = 0;
  for (int m = 0; m < 8; ++m) {
    int i[3]; double d = 0, q[3]; bool ok = true;
    for (int a = 0; a < 3; ++a) { i[a] = c[a] + ((m >> a) & 1); if (i[a] > g.steps(a)) { ok = false; break; } q[a] = g.at(a, i[a]); d += (p[a] - q[a]) * (p[a] - q[a]); }
    if (!ok) continue;
    d = std::sqrt(d); s += value(g, k, q[0], q[1], q[2]) / d; w += 1 / d;
  }
  return s / w;
}
static void checkMap(Ctx& c, const gear::MaterialMap& m, const Grid& g, const Fake& f, int points) {
  double scale = 1e-7;   // positions of grid points are known to rounding
  auto both = [&](double x, double y, double z, double* out) { return thrown([&] { out[0] = m.getRadiationLength(x, y, z); out[1] = m.getInteractionLength(x, y, z); }); };
  double ab[2] = {f.a, f.b};
  for (int i = 0; i <= g.steps(0); ++i) for (int j = 0; j <= g.steps(1); ++j) for (int k = 0; k <= g.steps(2); ++k) {
    double x = g.at(0, i), y = g.at(1, j), z = g.at(2, k), got[2] = {NAN, NAN}; std::string ex = both(x, y, z, got); if (!c.chk(ex.empty(), "node-refused", "%s at %.17g %.17g %.17g", ex.c_str(), x, y, z)) continue;
    for (int q = 0; q < 2; ++q) { double want = value(g, ab[q], x, y, z);
      c.near(got[q], want, scale, q ? "node-interaction-length" : "node-radiation-length", "at %d %d %d (%.17g %.17g %.17g)", i, j, k, x, y, z); }
  }
  for (int t = 0; t < points; ++t) {
    double p[3]; int cell[3][2], nc[3]; int face = 0; double nearest = 1e99;
    for (int a = 0; a < 3; ++a) {
      int n = g.steps(a); nc[a] = 1;
      if (n == 0) { p[a] = c.rng.chance(.5) ? g.lo[a] : c.rng.uni(g.lo[a], g.hi[a]); cell[a][0] = 0; continue; }
      if (c.rng.chance(.25)) { int i = c.rng.range(0, n); p[a] = g.at(a, i); nc[a] = 0; if (i > 0) cell[a][nc[a]++] = i - 1; cell[a][nc[a]++] = i; ++face; continue; }
      int i = c.rng.range(0, n - 1); double u = c.rng.chance(.3) ? (c.rng.chance(.5) ? c.rng.uni(1e-6, 1e-2) : 1 - c.rng.uni(1e-6, 1e-2)) : c.rng.uni(.001, .999); p[a] = g.at(a, i) + u * (g.at(a, i + 1) - g.at(a, i)); cell[a][0] = i;
    }
    { double d2 = 0; for (int a = 0; a < 3; ++a) { double b = 1e99; for (int i = 0; i <= g.steps(a); ++i) b = std::min(b, std::fabs(p[a] - g.at(a, i))); d2 += b * b; } nearest = std::sqrt(d2); }
    if (nearest < 1e-3) { continue; }
    double got[2] = {NAN, NAN}; std::string ex = both(p[0], p[1], p[2], got); if (!c.chk(ex.empty(), "point-refused", "%s at %.17g %.17g %.17g", ex.c_str(), p[0], p[1], p[2])) continue;
    for (int q = 0; q < 2; ++q) {
      bool ok = false; double want = 0;
      for (int i = 0; i < nc[0]; ++i) for (int j = 0; j < nc[1]; ++j) for (int k = 0; k < nc[2]; ++k) { int ce[3] = {cell[0][i], cell[1][j], cell[2][k]}; want = idw(g, ab[q], ce, p); ok |= std::fabs(got[q] - want) <= 1e-6 * (1 + std::fabs(want)); }
      c.chk(ok, q ? "between-interaction-length" : "between-radiation-length", "at %.17g %.17g %.17g: %.17g, want %.17g", p[0], p[1], p[2], got[q], want);
    }
    c.ev(face ? "points-on-faces" : "points-inside");
    // outside in one direction
    int a = c.rng.range(0, 2); double o[3] = {p[0], p[1], p[2]}; o[a] = c.rng.chance(.5) ? g.lo[a] - c.rng.logu(3e-5, 1e4) : g.hi[a] + c.rng.logu(3e-5, 1e4);
    std::string e1 = thrown([&] { m.getRadiationLength(o[0], o[1], o[2]); }), e2 = thrown([&] { m.getInteractionLength(o[0], o[1], o[2]); });
    c.chk(isGearException(e1) && isGearException(e2), "outside-accepted", "%.17g %.17g %.17g: %s %s", o[0], o[1], o[2], e1.c_str(), e2.c_str());
    o[a] = c.rng.chance(.5) ? g.lo[a] - c.rng.uni(0, 5e-6) : g.hi[a] + c.rng.uni(0, 5e-6);   // the border belongs to the map, within rounding
    ex = both(o[0], o[1], o[2], got); c.chk(ex.empty() && std::isfinite(got[0]) && std::isfinite(got[1]) && got[0] >= 0 && got[0] < 1e4, "border", "%.17g %.17g %.17g: %s %.17g", o[0], o[1], o[2], ex.c_str(), got[0]);
  }
}
struct World { gear::GearMgrImpl mgr; Fake* f; World(double a, double b) : f(new Fake(a, b)) { mgr.setDistanceProperties(f); } };
static void map(Ctx& c) {
  World w(c.rng.uni(0, 5), c.rng.uni(5, 9)); Grid g = grid(c.rng, c.rng.range(0, 2)); c.describe = g.str(); std::unique_ptr<gear::MaterialMap> m;
  std::string ex = thrown([&] { m.reset(new gear::MaterialMap(&w.mgr, g.lo[0], g.hi[0], g.n[0], g.lo[1], g.hi[1], g.n[1], g.lo[2], g.hi[2], g.n[2], g.coord)); });
  if (!c.chk(ex.empty(), "grid-refused", "%s", ex.c_str())) return;
  c.eqi(w.f->wrongStart, 0, "start-not-vertex"); checkMap(c, *m, g, *w.f, 25);
  // the map does not change when the geometry does, nor by queries
  long calls = w.f->calls; if (g.steps(0) > 0) { double b = m->getRadiationLength(g.hi[0], g.hi[1], g.hi[2]); c.near(b, value(g, w.f->a, g.at(0, g.steps(0)), g.at(1, g.steps(1)) , g.at(2, g.steps(2))), g.steps(1) && g.steps(2) ? 1e-6 : 1e99, "last-point"); }
  c.eqi(w.f->calls, calls, "query-asked-geometry");
  c.state(fmt("%d/%d/%d/%d/%d/%d/%d", g.coord, g.steps(0), g.steps(1), g.steps(2), g.lo[0] < 0, g.hi[1] > M_PI, g.lo[2] < 0));
}
MON_WORKLOAD_F("P32", "map", map, 15000, 150000, LEAKCHECK)

static void refused(Ctx& c) {
  World w(1, 6); Grid g = grid(c.rng, c.rng.range(0, 2)); for (int k = 0; k < 3; ++k) if (g.n[k] > 3) g.n[k] = 3;
  int k = c.rng.range(0, 6), a = c.rng.range(0, 2); bool bad = true;
  switch (k) {
    case 0: if (g.hi[a] == g.lo[a]) { bad = false; } std::swap(g.lo[a], g.hi[a]); break;
    case 1: g.n[a] = -c.rng.range(1, 1000); break;
    case 2: g.coord = c.rng.chance(.5) ? -c.rng.range(1, 100) : c.rng.range(3, 100); break;
    case 3: bad = g.coord > 0; if (bad) g.lo[0] = -c.rng.logu(1e-9, 1e3); break;
    case 4: bad = g.coord > 0; if (bad) { g.hi[1] = (g.coord == 1 ? 2 * M_PI : M_PI) + c.rng.logu(1e-9, 1e2); } break;
    case 5: bad = g.coord > 0; if (bad) { if (g.coord == 2 && c.rng.chance(.5)) g.lo[2] = -c.rng.logu(1e-9, 10.); else g.lo[1] = -c.rng.logu(1e-9, 10.); } break;
    case 6: bad = g.coord == 2; if (bad) g.hi[2] = 2 * M_PI + c.rng.logu(1e-9, 1e2); break;
  }
  c.describe = g.str(); gear::MaterialMapFactory fac(&w.mgr); bool direct = c.rng.chance(.5); std::unique_ptr<gear::MaterialMap> m;
  std::string ex = thrown([&] { auto* p = direct ? new gear::MaterialMap(&w.mgr, g.lo[0], g.hi[0], g.n[0], g.lo[1], g.hi[1], g.n[1], g.lo[2], g.hi[2], g.n[2], g.coord)
                                          : fac.createMaterialMap(g.lo[0], g.hi[0], g.n[0], g.lo[1], g.hi[1], g.n[1], g.lo[2], g.hi[2], g.n[2], g.coord); m.reset(p); });
  if (bad) { c.chk(isGearException(ex), "bad-grid-accepted", "%s: '%s'", g.str().c_str(), ex.c_str()); c.eqi(w.f->calls, 0, "bad-grid-asked-geometry"); } else c.chk(ex.empty(), "good-grid-refused", "%s: %s", g.str().c_str(), ex.c_str());
  gear::GearMgrImpl none; ex = thrown([&] { Grid h = grid(c.rng, 0); m.reset(new gear::MaterialMap(&none, h.lo[0], h.hi[0], 1, h.lo[1], h.hi[1], 1, h.lo[2], h.hi[2], 1, 0)); });
  c.chk(ex == "gear::UnknownParameterException", "no-geometry", "%s", ex.c_str());
  c.state(fmt("%d/%d/%d/%d", k, a, g.coord, bad));
}
MON_WORKLOAD("P32", "refused", refused, 15000, 150000)

static void factory(Ctx& c) {
  World w(c.rng.uni(0, 5), c.rng.uni(5, 9)); gear::MaterialMapFactory fac(&w.mgr); std::vector<Grid> gs; std::map<gear::MaterialMap*, size_t> own; std::string sig; std::vector<gear::MaterialMap*> at;
  int n = c.rng.range(2, 8); bool failed = false;
  for (int i = 0; i < n; ++i) {
    Grid g; int how = gs.empty() ? 0 : c.rng.range(0, 3);
    if (how == 0) { g = grid(c.rng, c.rng.range(0, 2)); for (int k = 0; k < 3; ++k) g.n[k] = std::min(g.n[k], 3); }
    else if (how == 1) g = c.rng.pick(gs);
    else { g = c.rng.pick(gs); int k = c.rng.range(0, 9); // one number differs
      if (k < 3) { if (g.hi[k] > g.lo[k]) g.hi[k] = g.lo[k] + (g.hi[k] - g.lo[k]) * .5; } else if (k < 6) { k -= 3; if (g.hi[k] > g.lo[k]) g.lo[k] += (g.hi[k] - g.lo[k]) * .25; } else if (k < 9) g.n[k - 6] += 1;
      else { g.coord = 0; if (g.lo[0] >= 0 && g.lo[1] >= 0 && g.hi[1] <= M_PI && c.rng.chance(.7)) g.coord = g.lo[2] >= 0 && g.hi[2] <= 2 * M_PI ? c.rng.range(1, 2) : 1; } }
    size_t same = gs.size(); for (size_t k = 0; k < gs.size(); ++k) { bool e = gs[k].coord == g.coord; for (int a = 0; a < 3; ++a) e = e && gs[k].lo[a] == g.lo[a] && gs[k].hi[a] == g.hi[a] && gs[k].n[a] == g.n[a]; if (e) same = k; }
    gear::MaterialMap* m = 0; bool fail = same == gs.size() && c.rng.chance(.15); long calls = w.f->calls; if (fail) w.f->failAt = calls;
    std::string ex = thrown([&] { m = fac.createMaterialMap(g.lo[0], g.hi[0], g.n[0], g.lo[1], g.hi[1], g.n[1], g.lo[2], g.hi[2], g.n[2], g.coord); });
    w.f->failAt = -1;
    if (fail && !ex.empty()) { c.chk(ex == "gear::OutsideGeometryException", "geometry-exception", "%s", ex.c_str()); failed = true; m = 0; ex = thrown([&] { m = fac.createMaterialMap(g.lo[0], g.hi[0], g.n[0], g.lo[1], g.hi[1], g.n[1], g.lo[2], g.hi[2], g.n[2], g.coord); }); c.chk(ex.empty() && m, "retry", "%s", ex.c_str()); }
    if (!c.chk(ex.empty() && m, "factory-refused", "%s", ex.c_str())) continue;
    if (same < gs.size()) { c.chk(at[same] == m, "same-grid-new-map", "%s", g.str().c_str()); c.eqi(w.f->calls, calls, "same-grid-asked-geometry"); sig += 's'; }
    else { c.chk(!own.count(m), "different-grid-same-map", "%s", g.str().c_str()); own[m] = gs.size(); sig += char('0' + g.coord); gs.push_back(g); at.push_back(m); checkMap(c, *m, g, *w.f, 3); }
  }
  for (size_t i = 0; i < gs.size(); ++i) checkMap(c, *at[i], gs[i], *w.f, 2);
  for (auto& o : own) delete o.first;
  c.describe = sig; c.state(sig + (failed ? "f" : ""));
}
MON_WORKLOAD("P32", "factory", factory, 7500, 75000)
