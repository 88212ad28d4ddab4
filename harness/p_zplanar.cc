// P22 point in ladder, P23 distance to ladder, P24 ray intersection of planar vertex and silicon trackers.
#include "mon.h"
#include "gear/GEAR.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearimpl/Vector3D.h"
#include <algorithm>
#include <cfloat>
#include <memory>
using namespace mon; using gear::Vector3D;
struct Part { double d, off, th, len, w, rad; };
struct Lay { int n; double phi0; Part q[2]; };            // q[0] ladder, q[1] sensitive
struct Det { std::unique_ptr<gear::ZPlanarParametersImpl> p; std::vector<Lay> v; double gap, shell; int type; std::string desc; double big = 1, thick = 0; };
static Part part(Rng& r) { Part p; p.d = r.logu(2, 500); p.w = r.logu(.5, 120); p.off = r.chance(.35) ? 0 : r.uni(-.6, .6) * p.w; if (r.chance(.12)) p.off = r.sgn() * r.uni(.5, 2) * p.w; p.th = r.logu(.01, 5); p.len = r.logu(2, 600); p.rad = r.logu(1, 500); return p; }
static Det mk(Rng& r) {
  Det D; D.gap = r.chance(.4) ? 0 : r.logu(.01, 10); double L = 0; int n = r.chance(.05) ? 0 : r.range(1, 5); D.desc = fmt("gap %.10g", D.gap); double base = r.logu(3, 60);
  for (int i = 0; i < n; ++i) {
    Lay l; l.n = r.chance(.25) ? r.range(1, 3) : r.range(3, 20); int k = r.range(0, 4); l.phi0 = k == 0 ? 0 : k == 1 ? r.range(-4, 4) * M_PI / 2 : k == 2 ? r.uni(-10, 10) : r.uni(-M_PI, M_PI); l.q[0] = part(r);
    if (r.chance(.7)) { l.q[0].d = base * (1 + i * r.uni(.5, 1.2)); l.q[0].w = 2 * l.q[0].d * tan(std::min(1., M_PI / std::max(3, l.n))) * r.uni(.6, 1.2); if (l.q[0].off != 0) l.q[0].off = r.uni(-.5, .5) * l.q[0].w; }
    l.q[1] = l.q[0]; if (r.chance(.7)) { l.q[1].d = l.q[0].d + r.uni(0, 1) * l.q[0].th; l.q[1].th = r.uni(.05, 1) * l.q[0].th; l.q[1].w *= r.uni(.3, 1); l.q[1].len *= r.uni(.3, 1); if (r.chance(.5)) l.q[1].off += r.uni(-.2, .2) * l.q[0].w; l.q[1].rad = r.logu(1, 500); } if (r.chance(.1)) l.q[1] = part(r);
    for (auto& q : l.q) { L = std::max(L, q.len); D.big = std::max({D.big, q.d + q.th, q.w, fabs(q.off), q.len}); D.thick = std::max(D.thick, q.th); }
    D.v.push_back(l); D.desc += fmt(" | n%d phi0 %.10g lad %.8g,%.8g,%.8g,%.8g,%.8g sen %.8g,%.8g,%.8g,%.8g,%.8g", l.n, l.phi0, l.q[0].d, l.q[0].off, l.q[0].th, l.q[0].len, l.q[0].w, l.q[1].d, l.q[1].off, l.q[1].th, l.q[1].len, l.q[1].w);
  }
  D.shell = r.chance(.4) ? 0 : L + (r.chance(.5) ? r.uni(.001, .05) : r.uni(.5, 100)); D.type = r.range(1, 3); D.p.reset(new gear::ZPlanarParametersImpl(D.type, r.logu(1, 10), r.logu(10, 900), D.shell, D.gap, r.logu(1, 500))); D.desc += fmt(" shell %.10g", D.shell);
  for (auto& l : D.v) D.p->addLayer(l.n, l.phi0, l.q[0].d, l.q[0].off, l.q[0].th, l.q[0].len, l.q[0].w, l.q[0].rad, l.q[1].d, l.q[1].off, l.q[1].th, l.q[1].len, l.q[1].w, l.q[1].rad);
  return D;
}
struct Fr { double nx, ny, ex, ey; };
static Fr frame(const Lay& l, int k) { double a = l.phi0 + k * 2 * M_PI / l.n; return {cos(a), sin(a), -sin(a), cos(a)}; }
struct Box { double lo[3], hi[3]; };   // along normal, along increasing phi, along z
static Box box(const Det& D, const Part& q, int side) { double g = D.gap / 2; Box b; b.lo[0] = q.d; b.hi[0] = q.d + q.th; b.lo[1] = q.off - q.w / 2; b.hi[1] = q.off + q.w / 2; if (side > 0) { b.lo[2] = g; b.hi[2] = g + q.len; } else { b.lo[2] = -g - q.len; b.hi[2] = -g; } return b; }
static void loc(const Fr& f, const double* p, double* o) { o[0] = p[0] * f.nx + p[1] * f.ny; o[1] = p[0] * f.ex + p[1] * f.ey; o[2] = p[2]; }
// signed margin: positive inside
static double margin(const Det& D, const Lay& l, int s, int k, const double* p) {
  Fr f = frame(l, k); double o[3]; loc(f, p, o); double best = -1e99; for (int side = -1; side <= 1; side += 2) { Box b = box(D, l.q[s], side); if (D.gap == 0) { b.lo[2] = -l.q[s].len; b.hi[2] = l.q[s].len; } double m = 1e99; for (int i = 0; i < 3; ++i) m = std::min({m, o[i] - b.lo[i], b.hi[i] - o[i]}); best = std::max(best, m); } return best;
}
static double dist(const Det& D, const Lay& l, int s, int k, const double* p) {
  Fr f = frame(l, k); double o[3]; loc(f, p, o); double best = 1e99; for (int side = -1; side <= 1; side += 2) { Box b = box(D, l.q[s], side); double q = 0; for (int i = 0; i < 3; ++i) { double e = std::max({b.lo[i] - o[i], o[i] - b.hi[i], 0.}); q += e * e; } best = std::min(best, sqrt(q)); } return best;
}
static void point(Rng& r, const Det& D, double* p) {
  int k = r.range(0, 9);
  if (k < 7 && D.v.size()) {
    const Lay& l = r.pick(D.v); int s = r.range(0, 1); Fr f = frame(l, r.range(0, l.n - 1)); Box b = box(D, l.q[s], r.chance(.5) ? 1 : -1); double o[3];
    for (int i = 0; i < 3; ++i) { int m = r.range(0, 5); double w = b.hi[i] - b.lo[i]; o[i] = m < 3 ? r.uni(b.lo[i], b.hi[i]) : m == 3 ? (r.chance(.5) ? b.lo[i] : b.hi[i]) + r.uni(-.02, .02) * std::max(w, .2) : m == 4 ? r.uni(b.lo[i] - w, b.hi[i] + w) : (b.lo[i] + b.hi[i]) / 2; }
    p[0] = o[0] * f.nx + o[1] * f.ex; p[1] = o[0] * f.ny + o[1] * f.ey; p[2] = o[2];
  } else if (k < 9) { double q = r.logu(.1, 2) * D.big; p[0] = r.uni(-q, q); p[1] = r.uni(-q, q); p[2] = r.uni(-q, q); }
  else { double q = D.big * r.uni(0, 2); p[0] = p[1] = p[2] = 0; int a = r.range(0, 3); if (a < 3) p[a] = r.sgn() * q; }
  // points exactly on the axes and in the planes between them
  if (r.chance(.15)) p[r.range(0, 2)] = r.chance(.5) ? 0. : -0.;
  if (r.chance(.08) && D.v.size()) { const Lay& l = r.pick(D.v); const Part& q = l.q[r.range(0, 1)]; double rr = q.d + r.uni(0, 1) * q.th; int a = r.range(0, 1); p[a] = r.sgn() * rr; p[1 - a] = r.chance(.5) ? 0. : -0.; p[2] = r.sgn() * r.uni(0, D.gap / 2 + q.len); }
}
static double tolOf(const Det& D, const double* p) { return 3e-4 * (1 + D.thick) + 2e-6 * (D.big + fabs(p[0]) + fabs(p[1]) + fabs(p[2])); }
static void inside(Ctx& c) {
  Rng& r = c.rng; Det D = mk(r); c.describe = D.desc; const gear::ZPlanarParameters& P = *D.p; int in = 0, out = 0, skip = 0, neg = 0;
  for (int i = 0; i < 60; ++i) {
    double p[3]; point(r, D, p); double tol = tolOf(D, p);
    for (int s = 0; s < 2; ++s) {
      double m = -1e99; for (auto& l : D.v) for (int k = 0; k < l.n; ++k) m = std::max(m, margin(D, l, s, k, p));
      Vector3D x(p[0], p[1], p[2]); gear::SensorID id; id.layer = -7; id.side = -7; id.module = -7; id.sensor = -7; bool useId = s == 1 && r.chance(.7); bool got = s ? (useId ? P.isPointInSensitive(x, &id) : P.isPointInSensitive(x)) : P.isPointInLadder(x);
      if (fabs(m) <= tol) { ++skip; c.ev("near the surface"); } else { c.chk(got == (m > 0), m > 0 ? (s ? "sensitive-missed" : "ladder-missed") : (s ? "sensitive-false" : "ladder-false"), "point %.17g,%.17g,%.17g margin %g", p[0], p[1], p[2], m); (m > 0 ? in : out)++; if (m > 0 && p[2] < 0) ++neg; }
      if (useId && got) {
        bool okl = id.layer >= 0 && id.layer < (int)D.v.size(); c.chk(okl, "sensor-layer", "layer %d", id.layer); if (!okl) continue; const Lay& l = D.v[id.layer]; bool okm = id.module >= 0 && id.module < l.n; c.chk(okm, "sensor-module-range", "module %d of %d", id.module, l.n); if (!okm) continue;
        c.chk(margin(D, l, 1, id.module, p) >= -tol, "sensor-module", "point %.17g,%.17g,%.17g is not in layer %d module %d (margin %g)", p[0], p[1], p[2], id.layer, id.module, margin(D, l, 1, id.module, p)); c.eqi(id.side, p[2] >= 0 ? 1 : -1, "sensor-side"); c.eqi(id.sensor, 0, "sensor-number");
      } else if (useId) c.chk(id.layer == -7 && id.module == -7 && id.side == -7, "sensor-untouched");
    }
  }
  // the plain values
  const gear::ZPlanarLayerLayout& L = P.getZPlanarLayerLayout(); c.eqi(L.getNLayers(), D.v.size(), "layers"); c.chk(&P.getVXDLayerLayout() == &L, "same-layout"); c.eqi(P.getType(), D.type, "det-type"); c.near(P.getShellGap(), D.gap, 1e-12, "gap"); c.near(P.getShellHalfLength(), D.shell, 1e-12, "shell");
  for (size_t i = 0; i < D.v.size(); ++i) { const Lay& l = D.v[i]; c.eqi(L.getNLadders(i), l.n, "ladders"); c.near(L.getPhi0(i), l.phi0, 1e-11, "phi0"); const Part &a = l.q[0], &b = l.q[1];
    double g[12] = {L.getLadderDistance(i), L.getLadderOffset(i), L.getLadderThickness(i), L.getLadderLength(i), L.getLadderWidth(i), L.getLadderRadLength(i), L.getSensitiveDistance(i), L.getSensitiveOffset(i), L.getSensitiveThickness(i), L.getSensitiveLength(i), L.getSensitiveWidth(i), L.getSensitiveRadLength(i)}, w[12] = {a.d, a.off, a.th, a.len, a.w, a.rad, b.d, b.off, b.th, b.len, b.w, b.rad}; for (int k = 0; k < 12; ++k) c.near(g[k], w[k], 1e-12, fmt("value%d", k)); }
  c.chk(thrown([&] { L.getLadderWidth(D.v.size()); }) != "" && thrown([&] { L.getSensitiveOffset(-1); }) != "", "bad-index");
  c.state(fmt("%zu g%d s%d in%d out%d neg%d", D.v.size(), D.gap != 0, D.shell != 0, in, out, neg));
}
MON_WORKLOAD("P22", "inside", inside, 50000, 500000)
static void distance(Ctx& c) {
  Rng& r = c.rng; Det D = mk(r); c.describe = D.desc; const gear::ZPlanarParameters& P = *D.p; int zero = 0, far = 0;
  for (int i = 0; i < 25; ++i) {
    double p[3]; point(r, D, p); if (r.chance(.05)) { double q = r.logu(1, 1e6); for (double& x : p) x = r.uni(-q, q); } double tol = tolOf(D, p);
    for (int s = 0; s < 2; ++s) {
      double want = 1e99; for (auto& l : D.v) for (int k = 0; k < l.n; ++k) want = std::min(want, dist(D, l, s, k, p)); Vector3D x(p[0], p[1], p[2]), v = s ? P.distanceToNearestSensitive(x) : P.distanceToNearestLadder(x); double len = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
      if (D.v.empty()) { c.chk(len == 0, "no-ladders"); continue; }
      c.chk(fabs(len - want) <= 2 * tol, s ? "sensitive-distance" : "ladder-distance", "point %.17g,%.17g,%.17g got %.10g (%g,%g,%g) nearest %.10g", p[0], p[1], p[2], len, v[0], v[1], v[2], want); (want < tol ? zero : far)++;
      double e[3] = {p[0] + v[0], p[1] + v[1], p[2] + v[2]}, rest = 1e99; for (auto& l : D.v) for (int k = 0; k < l.n; ++k) rest = std::min(rest, dist(D, l, s, k, e)); c.chk(rest <= 2 * tol, s ? "sensitive-end-point" : "ladder-end-point", "point %.17g,%.17g,%.17g vector %g,%g,%g ends %g away", p[0], p[1], p[2], v[0], v[1], v[2], rest);
    }
  }
  c.state(fmt("%zu g%d s%d z%d f%d", D.v.size(), D.gap != 0, D.shell != 0, zero, far) + fmt(" %d", D.v.size() ? D.v[0].n : 0));
}
MON_WORKLOAD("P23", "distance", distance, 50000, 500000)
// first crossing of the surface of any box that is enlarged by e, as path length, or -1
static double firstHit(const Det& D, int s, const double* p, const double* v, double e, double edge = 0, bool* onEdge = nullptr) {
  double best = 1e99; double nv = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
  for (auto& l : D.v) for (int k = 0; k < l.n; ++k) { Fr f = frame(l, k); double o[3], w[3]; loc(f, p, o); loc(f, v, w); for (int side = -1; side <= 1; side += 2) { Box b = box(D, l.q[s], side); double t0 = -1e300, t1 = 1e300; bool ok = true; for (int i = 0; i < 3; ++i) { double lo = b.lo[i] - e, hi = b.hi[i] + e; if (lo > hi) { ok = false; break; } if (fabs(w[i]) < 1e-14 * nv) { if (o[i] < lo || o[i] > hi) ok = false; } else { double a = (lo - o[i]) / w[i], z = (hi - o[i]) / w[i]; if (a > z) std::swap(a, z); t0 = std::max(t0, a); t1 = std::min(t1, z); } } if (!ok || t0 > t1) continue; double t = t0 >= 0 ? t0 : t1 >= 0 ? t1 : -1; if (t >= 0 && t * nv < best) { best = t * nv; if (onEdge) { int near = 0; for (int i = 0; i < 3; ++i) { double x = o[i] + t * w[i]; if (std::min(fabs(x - b.lo[i]), fabs(x - b.hi[i])) < edge) ++near; } *onEdge = near > 1; } } } }
  return best > 1e98 ? -1 : best;
}
static void ray(Ctx& c) {
  Rng& r = c.rng; Det D = mk(r); c.describe = D.desc; const gear::ZPlanarParameters& P = *D.p; int hit = 0, miss = 0, skip = 0, neg = 0;
  for (int i = 0; i < 40; ++i) {
    double p[3], q[3], v[3]; if (r.chance(.3)) p[0] = p[1] = p[2] = 0; else if (r.chance(.4)) { p[0] = r.uni(-2, 2); p[1] = r.uni(-2, 2); p[2] = r.uni(-20, 20); } else point(r, D, p);
    if (r.chance(.7)) { point(r, D, q); for (int k = 0; k < 3; ++k) v[k] = q[k] - p[k]; } else for (int k = 0; k < 3; ++k) v[k] = r.gauss(); if (r.chance(.1)) v[r.range(0, 2)] = 0; double nv = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); if (nv < 1e-9) continue; double sc = r.chance(.5) ? 1 / nv : r.logu(.01, 100); for (double& x : v) x *= sc; nv *= sc;
    if (r.chance(.06)) { double L = r.logu(100, 1e6); for (int k = 0; k < 3; ++k) p[k] -= v[k] / nv * L; c.ev("far_rays"); }
    for (int s = 0; s < 2; ++s) {
      bool onEdge = false; double e = 1e-5 * (1 + D.big / 50 + (fabs(p[0]) + fabs(p[1]) + fabs(p[2])) / 50), h = firstHit(D, s, p, v, 0, e, &onEdge), h1 = firstHit(D, s, p, v, e), h2 = firstHit(D, s, p, v, -e); bool any = h >= 0; double spread = std::max(fabs(h - h1), fabs(h - h2));
      Vector3D g = s ? P.intersectionSensitive(Vector3D(p[0], p[1], p[2]), Vector3D(v[0], v[1], v[2])) : P.intersectionLadder(Vector3D(p[0], p[1], p[2]), Vector3D(v[0], v[1], v[2]));
      if (onEdge || (h1 >= 0) != any || (h2 >= 0) != any || (any && (spread > .05 + 1e-3 * h || h > 2e6 || h < 10 * e))) { ++skip; c.ev("grazing"); continue; }
      if (!any) { c.chk(g[0] == 0 && g[1] == 0 && g[2] == 0, s ? "sensitive-no-hit" : "ladder-no-hit", "from %.17g,%.17g,%.17g along %.17g,%.17g,%.17g got %g,%g,%g", p[0], p[1], p[2], v[0], v[1], v[2], g[0], g[1], g[2]); ++miss; continue; }
      double w[3], d2 = 0; for (int k = 0; k < 3; ++k) { w[k] = p[k] + v[k] / nv * h; d2 += (g[k] - w[k]) * (g[k] - w[k]); } ++hit; if (w[2] < 0) ++neg; if (h > 9999) c.ev("far_hits");
      c.chk(sqrt(d2) <= 2 * spread + 10 * e, s ? "sensitive-hit" : "ladder-hit", "from %.17g,%.17g,%.17g along %.17g,%.17g,%.17g got %.10g,%.10g,%.10g first %.10g,%.10g,%.10g", p[0], p[1], p[2], v[0], v[1], v[2], g[0], g[1], g[2], w[0], w[1], w[2]);
    }
  }
  c.state(fmt("%zu g%d h%d m%d n%d", D.v.size(), D.gap != 0, hit, miss, neg) + fmt(" %d", D.v.size() ? D.v[0].n : 0));
}
MON_WORKLOAD("P24", "ray", ray, 24000, 240000)
