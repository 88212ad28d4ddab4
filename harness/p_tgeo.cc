// P36: material along a straight line, P37: properties of a point; the real src/geartgeo over a stand-in for ROOT (tgeo/).
#include "mon.h"
#include "TGeoManager.h"
#include "gear/GEAR.h"
#include "gear/GearMgr.h"
#include "gear/geartgeo/TGeoGearDistanceProperties.h"
#include "gear/geartgeo/TGeoGearPointProperties.h"
#include "gear/geartgeo/TGeoGeometryInitializer.h"
#include "gearxml/GearXML.h"
#include <algorithm>
#include <fstream>
#include <iostream>
#include <memory>
using namespace mon;
TGeoManager* gGeoManager = nullptr;

// ---- the oracle's own description of the detector -------------------------------------------------------------
struct Mat { std::string name; double v[5]; };                    // density, temperature, pressure, radiation and interaction length
struct Vol { std::string name, node; int mat, parent; bool sphere; double h[3], R[3][3], T[3], gR[3][3], gT[3]; std::vector<int> kids;
  void local(const double* p, double* l) const { for (int i = 0; i < 3; ++i) { l[i] = 0; for (int j = 0; j < 3; ++j) l[i] += gR[j][i] * (p[j] - gT[j]); } }
  bool in(const double* p) const { double l[3]; local(p, l); if (sphere) return l[0] * l[0] + l[1] * l[1] + l[2] * l[2] <= h[0] * h[0]; return std::fabs(l[0]) <= h[0] && std::fabs(l[1]) <= h[1] && std::fabs(l[2]) <= h[2]; } };
struct Piece { int vol; double len; };
struct World {
  std::vector<Mat> m; std::vector<Vol> v; std::unique_ptr<TGeoManager> mgr; double size;
  int deepest(const double* p) const { if (!v[0].in(p)) return -1; int k = 0; for (;;) { int n = -1; for (int c : v[k].kids) if (v[c].in(p)) { n = c; break; } if (n < 0) return k; k = n; } }
  bool clear(const double* p, double e) const { int d = deepest(p); for (int i = 0; i < 3; ++i) for (int s = -1; s <= 1; s += 2) { double q[3] = {p[0], p[1], p[2]}; q[i] += s * e; if (deepest(q) != d) return false; } return true; }
  std::vector<Piece> line(const double* p, const double* q) const {
    double d[3], L = 0; for (int i = 0; i < 3; ++i) { d[i] = q[i] - p[i]; L += d[i] * d[i]; } L = std::sqrt(L); std::vector<double> t = {0, L};
    for (auto& w : v) { double a[3], b[3]; w.local(p, a); w.local(q, b); for (int i = 0; i < 3; ++i) b[i] = (b[i] - a[i]) / L;
      if (w.sphere) { double B = 0, C = -w.h[0] * w.h[0]; for (int i = 0; i < 3; ++i) { B += a[i] * b[i]; C += a[i] * a[i]; } double D = B * B - C; if (D > 0) { t.push_back(-B - std::sqrt(D)); t.push_back(-B + std::sqrt(D)); } }
      else for (int i = 0; i < 3; ++i) if (b[i] != 0) { t.push_back((w.h[i] - a[i]) / b[i]); t.push_back((-w.h[i] - a[i]) / b[i]); } }
    t.erase(std::remove_if(t.begin(), t.end(), [&](double x) { return x < 0 || x > L; }), t.end()); std::sort(t.begin(), t.end());
    std::vector<Piece> out; for (size_t k = 0; k + 1 < t.size(); ++k) { double s = t[k + 1] - t[k]; if (s < 1e-11) continue; double x[3]; for (int i = 0; i < 3; ++i) x[i] = p[i] + d[i] / L * (t[k] + s / 2); int w = deepest(x); if (!out.empty() && out.back().vol == w) out.back().len += s; else out.push_back({w, s}); }
    return out; }
};
static void rotation(Rng& r, double R[3][3]) {
  double q[4], n = 0; for (double& x : q) { x = r.gauss(); n += x * x; } n = std::sqrt(n); for (double& x : q) x /= n; double a = q[0], b = q[1], c = q[2], d = q[3];
  double M[3][3] = {{a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)}, {2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)}, {2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d}};
  memcpy(R, M, sizeof M);
}
static int place(World& w, int parent, const double* T, const double (*R)[3], bool sphere, double hx, double hy, double hz, Rng& r) {
  Vol v; v.parent = parent; v.sphere = sphere; v.h[0] = hx; v.h[1] = sphere ? hx : hy; v.h[2] = sphere ? hx : hz; v.mat = r.range(0, w.m.size() - 1);
  v.name = r.chance(.3) ? "ladder" : r.chance(.08) ? "world" : fmt("vol%d", (int)w.v.size()); v.node = v.name + fmt("_%d", v.name == "world" ? 1 : (int)w.v.size() * (r.chance(.8) ? 1 : 0));
  for (int i = 0; i < 3; ++i) { v.T[i] = T[i]; for (int j = 0; j < 3; ++j) v.R[i][j] = R ? R[i][j] : i == j; }
  const Vol& p = w.v[parent]; for (int i = 0; i < 3; ++i) { v.gT[i] = p.gT[i]; for (int j = 0; j < 3; ++j) { v.gT[i] += p.gR[i][j] * T[j]; v.gR[i][j] = 0; for (int k = 0; k < 3; ++k) v.gR[i][j] += p.gR[i][k] * v.R[k][j]; } }
  w.v.push_back(v); w.v[parent].kids.push_back(w.v.size() - 1); return w.v.size() - 1;
}
static void fill(World& w, int k, int depth, Rng& r, std::string& sig) {
  double h[3]; for (int i = 0; i < 3; ++i) h[i] = w.v[k].sphere ? w.v[k].h[0] / std::sqrt(3.) * .999 : w.v[k].h[i];
  int how = r.range(0, 2); double T[3] = {0, 0, 0}, R[3][3]; std::vector<int> made; sig += char('a' + how);
  if (how == 0) { // layers along one axis, some of them touching or nearly touching
    int a = r.range(0, 2), n = r.range(1, 5); double at = -h[a] * (r.chance(.3) ? 1 : r.uni(.2, .95)), room = h[a] - at;
    for (int i = 0; i < n; ++i) { double th = room / (n + 1) * r.uni(.2, .9), g = r.chance(.35) ? 0 : r.chance(.35) ? r.logu(1e-8, 3e-7) : r.uni(.001, .1) * room / n; double s[3]; for (int j = 0; j < 3; ++j) s[j] = j == a ? th / 2 : h[j] * (r.chance(.3) ? 1 : r.uni(.3, .999)); T[0] = T[1] = T[2] = 0; T[a] = at + th / 2; made.push_back(place(w, k, T, nullptr, false, s[0], s[1], s[2], r)); at += th + g; if (g == 0) sig += 't'; else if (g < 1e-6) sig += 'g'; }
  } else if (how == 1) { // turned boxes and spheres in the cells of a grid
    int n[3]; for (int& x : n) x = r.range(1, 2); for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int l = 0; l < n[2]; ++l) { if (r.chance(.25)) continue; int c[3] = {i, j, l}; double rad = 1e300; for (int x = 0; x < 3; ++x) { double s = h[x] / n[x]; T[x] = -h[x] + (2 * c[x] + 1) * s; rad = std::min(rad, s); } rotation(r, R); bool sp = r.chance(.35); double f[3] = {r.uni(.1, 1), r.uni(.1, 1), r.uni(.1, 1)}, q = std::sqrt(f[0] * f[0] + f[1] * f[1] + f[2] * f[2]); rad *= .98; made.push_back(place(w, k, T, R, sp, sp ? rad * r.uni(.3, 1) : rad * f[0] / q, rad * f[1] / q, rad * f[2] / q, r)); sig += sp ? 'o' : 'r'; }
  } else { for (int x = 0; x < 3; ++x) T[x] = h[x] * r.uni(-.3, .3); rotation(r, R); bool turn = r.chance(.6); double s = r.uni(.1, .65); if (turn) { double mn = std::min(h[0], std::min(h[1], h[2])) * .68 / std::sqrt(3.); made.push_back(place(w, k, T, R, false, mn * r.uni(.2, 1), mn * r.uni(.2, 1), mn * r.uni(.2, 1), r)); } else made.push_back(place(w, k, T, nullptr, false, h[0] * s, h[1] * s, h[2] * s, r)); }
  if (depth > 0) for (int m : made) if (w.v.size() < 40 && r.chance(.5)) fill(w, m, depth - 1, r, sig);
}
static std::unique_ptr<World> world(Ctx& c, std::string& sig) {
  Rng& r = c.rng; std::unique_ptr<World> w(new World); int nm = r.range(1, 5); const char* names[] = {"vacuum", "air", "silicon", "iron", "G4_W"};
  for (int i = 0; i < nm; ++i) w->m.push_back({names[i], {r.logu(1e-9, 20), r.uni(1, 400), r.logu(1e-20, 10), r.chance(.1) ? 0 : r.chance(.2) ? 1e30 : r.logu(.05, 1e5), r.chance(.1) ? 0 : r.logu(.05, 1e5)}});
  w->size = r.logu(5, 3000); Vol v; v.name = "world"; v.node = "world_1"; v.mat = r.range(0, nm - 1); v.parent = -1; v.sphere = r.chance(.15); for (int i = 0; i < 3; ++i) { v.h[i] = w->size * (v.sphere || i == 0 ? 1 : r.uni(.2, 1)); v.T[i] = v.gT[i] = 0; for (int j = 0; j < 3; ++j) v.R[i][j] = v.gR[i][j] = i == j; } w->v.push_back(v);
  if (r.chance(.95)) fill(*w, 0, r.range(0, 3), r, sig); else sig += '-';
  w->mgr.reset(new TGeoManager); TGeoManager& g = *w->mgr; std::vector<TGeoVolume*> tv;
  for (auto& m : w->m) { g.mats.emplace_back(new TGeoMaterial(m.name, m.v[0], m.v[1], m.v[2], m.v[3], m.v[4])); g.meds.emplace_back(new TGeoMedium("med_" + m.name, g.mats.back().get())); }
  for (auto& x : w->v) { TGeoShape s; s.sphere = x.sphere; for (int i = 0; i < 3; ++i) s.h[i] = x.h[i]; g.vols.emplace_back(new TGeoVolume(x.name, g.meds[x.mat].get(), s)); g.vols.back()->mgr = &g; tv.push_back(g.vols.back().get()); }
  for (size_t k = 1; k < w->v.size(); ++k) { auto& x = w->v[k]; g.nodes.emplace_back(new TGeoNode(x.node, tv[k], tv[x.parent])); TGeoNode* n = g.nodes.back().get(); for (int i = 0; i < 3; ++i) { n->tr[i] = x.T[i]; for (int j = 0; j < 3; ++j) n->rot[i][j] = x.R[i][j]; } tv[x.parent]->nodes.push_back(n); }
  g.top = nullptr; return w;
}
static gear::Vector3D V(const double* p) { return gear::Vector3D(p[0], p[1], p[2]); }
static void point(World& w, Rng& r, double* p, bool inside) {
  for (int t = 0; t < 100; ++t) { for (int i = 0; i < 3; ++i) p[i] = w.v[0].h[i] * r.uni(-1, 1) * (inside ? 1 : 1.5); if (!inside && r.chance(.3)) { p[r.range(0, 2)] = r.sgn() * w.size * r.logu(1.01, 100); }
    if (inside && r.chance(.5) && w.v.size() > 1) { const Vol& v = r.pick(w.v); double l[3]; for (int i = 0; i < 3; ++i) l[i] = v.h[i] * r.uni(-1.1, 1.1) * (v.sphere ? .6 : 1); for (int i = 0; i < 3; ++i) { p[i] = v.gT[i]; for (int j = 0; j < 3; ++j) p[i] += v.gR[i][j] * l[j]; } }
    if ((w.deepest(p) >= 0) == inside && w.clear(p, 1e-6)) return; }
  for (int i = 0; i < 3; ++i) p[i] = inside ? w.v[0].h[i] * .01234 * (i + 1) : 2 * w.size;
}
struct Query { double p[3], q[3]; };
static std::string str(const Query& k) { return fmt("(%.17g %.17g %.17g)-(%.17g %.17g %.17g)", k.p[0], k.p[1], k.p[2], k.q[0], k.q[1], k.q[2]); }

// one query: any of the five functions, in any order
static void ask(Ctx& c, World& w, const gear::TGeoGearDistanceProperties& D, const Query& k) {
  gear::Vector3D p = V(k.p), q = V(k.q); bool same = p == q, start = w.deepest(k.p) >= 0; std::vector<int> fn; int n = c.rng.range(1, 6); for (int i = 0; i < n; ++i) fn.push_back(c.rng.range(0, 4));
  std::vector<std::string> mats, vols; std::vector<double> len; double nr = 0, ni = 0; bool has[5] = {0, 0, 0, 0, 0};
  for (int f : fn) {
    w.mgr->runaway = 0;
    std::string ex = thrown([&] { switch (f) { case 0: mats = D.getMaterialNames(p, q); break; case 1: vols = D.getVolumeNames(p, q); break; case 2: len = D.getMaterialThicknesses(p, q); break; case 3: nr = D.getNRadlen(p, q); break; default: ni = D.getNIntlen(p, q); } });
    c.chk(w.mgr->tracks.size() <= 1, "tracks-pile-up", "%zu", w.mgr->tracks.size());
    if (!start && !same) { c.chk(ex == "gear::OutsideGeometryException", "outside-not-refused", "function %d %s: '%s'", f, str(k).c_str(), ex.c_str()); continue; }
    if (!start) { c.chk(ex.empty() || isGearException(ex), "outside-point", "%s", ex.c_str()); continue; }
    if (!c.chk(ex.empty(), "refused", "function %d %s: %s", f, str(k).c_str(), ex.c_str())) return;
    has[f] = true;
  }
  if (!start) { c.ev("outside-queries"); return; }
  if (same) { c.chk(mats.empty() && vols.empty() && len.empty() && nr == 0 && ni == 0, "no-distance", "%zu %zu %zu %g %g", mats.size(), vols.size(), len.size(), nr, ni); return; }
  std::vector<Piece> want; double shortSum = 0, total = 0, tol = 1e-4; bool judge = true; double worst = 0; std::vector<Piece> all = w.line(k.p, k.q);
  for (auto& s : all) { if (s.vol < 0) break; total += s.len; tol += 2.5e-5; if (s.len > 3e-6 && s.len < 3e-4) judge = false; if (s.len <= 3e-6) { shortSum += s.len; continue; } if (!want.empty() && want.back().vol == s.vol) want.back().len += s.len; else want.push_back(s); }
  double xr = 0, xi = 0, mr = 0, mi = 0; for (auto& s : all) { if (s.vol < 0) break; const double* v = w.m[w.v[s.vol].mat].v; if (v[3]) { xr += s.len / v[3]; } if (v[4]) { xi += s.len / v[4]; } } for (auto& m : w.m) { if (m.v[3]) mr = std::max(mr, 1 / m.v[3]); if (m.v[4]) mi = std::max(mi, 1 / m.v[4]); } (void)worst;
  // end or exit at a grazing angle moves the crossings by more than the tolerance only together with a short piece
  if (!judge) { c.ev("not-judged-short-piece"); return; }
  if (has[3]) c.chk(std::fabs(nr - xr) <= tol * mr * 2 + 1e-9 * xr, "radiation-lengths", "%s: %.12g, want %.12g", str(k).c_str(), nr, xr);
  if (has[4]) c.chk(std::fabs(ni - xi) <= tol * mi * 2 + 1e-9 * xi, "interaction-lengths", "%s: %.12g, want %.12g", str(k).c_str(), ni, xi);
  if (has[2]) { double s = 0; for (double x : len) { s += x; c.chk(x >= 0 && std::isfinite(x), "thickness-negative", "%g", x); } c.chk(std::fabs(s - total) <= tol + 1e-9 * total, "total-thickness", "%s: %.12g, want %.12g", str(k).c_str(), s, total); }
  if (has[0] && has[2]) c.eqi(mats.size(), len.size(), "parallel-arrays"); if (has[1] && has[2]) c.eqi(vols.size(), len.size(), "parallel-volumes"); if (has[0] && has[1]) c.eqi(mats.size(), vols.size(), "parallel-names");
  auto list = [&](std::function<std::string(int)> wname, const std::vector<std::string>& names, const char* o) {
    std::vector<std::pair<std::string, double>> g, x; if (names.size() != len.size()) return;
    for (size_t i = 0; i < names.size(); ++i) { if (len[i] <= 3e-5) continue; if (!g.empty() && g.back().first == names[i]) g.back().second += len[i]; else g.push_back({names[i], len[i]}); }
    for (auto& s : want) { std::string nm = wname(s.vol); if (!x.empty() && x.back().first == nm) x.back().second += s.len; else x.push_back({nm, s.len}); }
    bool ok = g.size() == x.size(); for (size_t i = 0; ok && i < g.size(); ++i) ok = g[i].first == x[i].first && std::fabs(g[i].second - x[i].second) <= tol; std::string a, b; if (!ok) { for (auto& e : g) a += fmt(" %s:%.9g", e.first.c_str(), e.second); for (auto& e : x) b += fmt(" %s:%.9g", e.first.c_str(), e.second); }
    c.chk(ok, o, "%s got%s want%s", str(k).c_str(), a.c_str(), b.c_str()); c.ev("pieces-compared", x.size()); };
  if (has[0] && has[2]) list([&](int v) { return w.m[w.v[v].mat].name; }, mats, "materials-along-line"); if (has[1] && has[2]) list([&](int v) { return w.v[v].node; }, vols, "volumes-along-line");
  if (shortSum > 0) c.ev("lines-with-tiny-gaps");
}
static Query query(World& w, Rng& r, const std::vector<Query>& old) {
  Query k; int how = old.empty() ? 0 : r.range(0, 9);
  if (how <= 3 || how > 7) { point(w, r, k.p, !r.chance(.08)); if (r.chance(.06)) memcpy(k.q, k.p, sizeof k.q); else point(w, r, k.q, !r.chance(.12)); if (r.chance(.2)) { int a = r.range(0, 2); for (int i = 0; i < 3; ++i) if (i != a) k.q[i] = k.p[i]; } }
  else if (r.chance(.4)) { // nearly the last line: moved, longer or shorter, or one coordinate different
    k = old.back(); int m = r.range(0, 4); double x[3]; point(w, r, x, true);
    if (m == 0) for (int i = 0; i < 3; ++i) { k.q[i] += x[i] - k.p[i]; k.p[i] = x[i]; } else if (m == 1) { double f = r.chance(.3) ? -1 : r.uni(.1, 1.5); for (int i = 0; i < 3; ++i) k.q[i] = k.p[i] + f * (k.q[i] - k.p[i]); }
    else if (m == 2) { int i = r.range(0, 2); (r.chance(.5) ? k.p : k.q)[i] = r.chance(.5) ? x[i] : k.p[i] + r.sgn() * r.logu(1e-6, 1) * w.size; } else if (m == 3) { int i = r.range(0, 2); k.p[i] = x[i]; k.q[i] = x[i]; } else for (int i = 0; i < 3; ++i) { k.p[i] = -k.p[i]; k.q[i] = -k.q[i]; }
    if (!w.clear(k.p, 1e-6) || !w.clear(k.q, 1e-6)) k = old.back(); }
  else { k = r.pick(old); if (how == 5) { std::swap(k.p, k.q); } else if (how == 6) { memcpy(k.p, k.q, sizeof k.p); point(w, r, k.q, true); } else if (how == 7) { if (r.chance(.5)) memcpy(k.q, k.p, sizeof k.q); else point(w, r, r.chance(.5) ? k.q : k.p, true); } }
  if (r.chance(.03)) for (double& x : k.p) x = 0; if (r.chance(.03)) for (double& x : k.q) x = 0;
  return k;
}
static void lines(Ctx& c) {
  std::string sig; auto w = world(c, sig); w->mgr->SetTopVolume(w->mgr->vols[0].get()); w->mgr->CloseGeometry(); if (c.rng.chance(.25)) { w->mgr->stuckEvery = c.rng.range(1, 5); w->mgr->stuckStep = c.rng.chance(.5) ? 1e-10 : c.rng.chance(.5) ? 0 : c.rng.logu(1e-12, 1e-6); sig += '!'; }
  gear::TGeoGearDistanceProperties D(w->mgr.get()), D2(w->mgr.get()); gear::TGeoGearPointProperties P(w->mgr.get()); std::vector<Query> qs; int n = c.rng.range(2, 9); c.describe = fmt("world %g, %zu volumes, %s", w->size, w->v.size(), sig.c_str());
  for (int i = 0; i < n; ++i) { Query k = query(*w, c.rng, qs); qs.push_back(k); ask(c, *w, c.rng.chance(.8) ? D : D2, k); if (c.rng.chance(.2)) { double p[3]; point(*w, c.rng, p, true); c.eq(P.getMaterialName(V(p)), w->m[w->v[w->deepest(p)].mat].name, "material-between"); } }
  c.ev("mock-steps", w->mgr->steps); c.ev("mock-stuck-steps", w->mgr->stuckSteps);
  c.chk(thrown([&] { D.getBdL(V(qs[0].p), V(qs[0].q)); }) == "gear::NotImplementedException" && thrown([&] { D.getEdL(V(qs[0].p), V(qs[0].q)); }) == "gear::NotImplementedException", "field-integrals"); c.state(sig);
}
MON_WORKLOAD("P36", "lines", lines, 70000, 700000)

static void onePoint(Ctx& c, World& w, const gear::GearPointProperties& P, const double* p) {
  gear::Vector3D v = V(p); int k = w.deepest(p); std::vector<int> path; for (int i = k; i >= 0; i = w.v[i].parent) path.push_back(i); int n = c.rng.range(1, 4);
  for (int t = 0; t < n; ++t) { int f = c.rng.range(0, 8); std::string s; double d = 0; gear::Vector3D l; std::vector<std::string> names;
    std::string ex = thrown([&] { switch (f) { case 0: s = P.getMaterialName(v); break; case 1: d = P.getDensity(v); break; case 2: d = P.getTemperature(v); break; case 3: d = P.getPressure(v); break; case 4: d = P.getRadlen(v); break; case 5: d = P.getIntlen(v); break; case 6: l = P.getLocalPosition(v); break; case 7: names = P.getListOfLogicalVolumes(v); break; case 8: names = P.getListOfPhysicalVolumes(v); } });
    if (k < 0) { c.chk(ex == "gear::OutsideGeometryException", "outside-not-refused", "function %d: '%s' at %.17g %.17g %.17g", f, ex.c_str(), p[0], p[1], p[2]); continue; }
    if (!c.chk(ex.empty(), "refused", "function %d: %s", f, ex.c_str())) continue; const Mat& m = w.m[w.v[k].mat]; static const char* o[] = {"material", "density", "temperature", "pressure", "radiation-length", "interaction-length"};
    if (f == 0) c.eq(s, m.name, o[0]); else if (f < 6) c.near(d, m.v[f - 1], 1e-12, o[f]);
    else if (f == 6) { double x[3]; w.v[k].local(p, x); double e = std::fabs(l[0] - x[0]) + std::fabs(l[1] - x[1]) + std::fabs(l[2] - x[2]); c.chk(e <= 1e-9 * (1 + w.size), "local-position", "%s (%.12g %.12g %.12g), want (%.12g %.12g %.12g)", w.v[k].node.c_str(), l[0], l[1], l[2], x[0], x[1], x[2]); }
    else { std::string a, b; for (auto& x : names) a += x + " "; for (int i : path) b += (f == 7 ? w.v[i].name : w.v[i].node) + " "; c.eq(a, b, f == 7 ? "logical-volumes" : "physical-volumes"); } }
}
static void points(Ctx& c) {
  std::string sig; auto w = world(c, sig); w->mgr->SetTopVolume(w->mgr->vols[0].get()); w->mgr->CloseGeometry(); gear::TGeoGearPointProperties P(w->mgr.get()); gear::TGeoGearDistanceProperties D(w->mgr.get()); c.describe = fmt("world %g, %zu volumes, %s", w->size, w->v.size(), sig.c_str()); int n = c.rng.range(3, 20), deep = 0;
  for (int i = 0; i < n; ++i) { double p[3]; point(*w, c.rng, p, !c.rng.chance(.1)); if (c.rng.chance(.02)) for (double& x : p) x = 0; if (!w->clear(p, 1e-6)) continue; onePoint(c, *w, P, p); for (int k = w->deepest(p), l = 0; k >= 0; k = w->v[k].parent) deep = std::max(deep, ++l); if (c.rng.chance(.15)) { double a[3], b[3]; point(*w, c.rng, a, true); point(*w, c.rng, b, true); w->mgr->runaway = 0; thrown([&] { D.getNRadlen(V(a), V(b)); }); } }
  double p[3] = {0, 0, 0}; gear::Vector3D v = V(p); auto ni = [&](std::function<void()> f) { return thrown(f) == "gear::NotImplementedException"; };
  c.chk(ni([&] { P.getCellID(v); }) && ni([&] { P.getB(v); }) && ni([&] { P.getE(v); }) && ni([&] { P.getRegion(v); }) && ni([&] { P.isTracker(v); }) && ni([&] { P.isCalorimeter(v); }), "not-implemented"); c.state(sig + fmt("%d", deep));
}
MON_WORKLOAD("P37", "points", points, 120000, 1200000)

// a steering file that names a geometry makes it available from the manager
static void steering(Ctx& c) {
  std::string sig; auto w = world(c, sig); c.describe = fmt("world %g, %zu volumes, %s", w->size, w->v.size(), sig.c_str()); std::string name = fmt("geo%d.gdml", c.rng.range(0, 9)); TGDMLParse::files().clear(); TGDMLParse::files()[name] = w->mgr->vols[0].get(); bool missing = c.rng.chance(.15), none = !missing && c.rng.chance(.1);
  std::string f = c.scratch + "/steer.xml"; { std::ofstream o(f); o << "<gear>" << (none ? "" : "<GDMLFile name=\"" + (missing ? "no" + name : name) + "\"/>") << "<detectors></detectors></gear>"; }
  gear::GearXML x(f); std::unique_ptr<gear::GearMgr> m; std::stringbuf sink; auto* old = std::cout.rdbuf(&sink); std::string ex = thrown([&] { m.reset(x.createGearMgr()); }); std::cout.rdbuf(old);
  if (missing) { c.chk(ex == "gear::ParseException", "missing-geometry", "%s", ex.c_str()); return; }
  if (!c.chk(ex.empty() && m, "refused", "%s", ex.c_str())) return;
  if (none) { c.chk(isGearException(thrown([&] { m->getPointProperties(); })) && isGearException(thrown([&] { m->getDistanceProperties(); })), "properties-from-nowhere"); return; }
  c.chk(w->mgr->closed && w->mgr->GetTopVolume() == w->mgr->vols[0].get(), "not-closed");
  const gear::GearPointProperties* P = 0; const gear::GearDistanceProperties* D = 0; ex = thrown([&] { P = &m->getPointProperties(); D = &m->getDistanceProperties(); }); if (!c.chk(ex.empty(), "no-properties", "%s (is the stub of libgeartgeo.so in the search path?)", ex.c_str())) return;
  auto* T = dynamic_cast<const gear::TGeoGearDistanceProperties*>(D); if (!c.chk(T && dynamic_cast<const gear::TGeoGearPointProperties*>(P), "kind")) return;
  std::vector<Query> qs; for (int i = 0; i < 4; ++i) { double p[3]; point(*w, c.rng, p, true); if (w->clear(p, 1e-6)) onePoint(c, *w, *P, p); Query k = query(*w, c.rng, qs); qs.push_back(k); ask(c, *w, *T, k); } c.state(sig);
}
MON_WORKLOAD("P37", "steering", steering, 20000, 200000)
