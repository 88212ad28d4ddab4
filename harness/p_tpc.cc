// P18 module transform, P19 module area, P20 TPC lookup.
#include "padgen.h"
#include "gearimpl/TPCModuleImpl.h"
#include "gearimpl/TPCParametersImpl.h"
#include <algorithm>
using namespace mon; using namespace padgen;
using gear::PadRowLayout2D; using gear::Vector2D;
struct P2 { double x, y; };
struct Mod {
  Lay L; gear::TPCModuleImpl* m = 0; bool own = true; bool pol = false; double oa = 0, ob = 0, cx = 0, cy = 0, angle = 0, border = 0, z = 1, freq = 0; bool zset = false; int id = 0; double le[4]; std::string desc;
  Mod() {} Mod(Mod&& o) { *this = std::move(o); }
  Mod& operator=(Mod&& o) { L = std::move(o.L); m = o.m; own = o.own; o.m = 0; pol = o.pol; oa = o.oa; ob = o.ob; cx = o.cx; cy = o.cy; angle = o.angle; border = o.border; z = o.z; freq = o.freq; zset = o.zset; id = o.id; desc = o.desc; for (int i = 0; i < 4; ++i) le[i] = o.le[i]; return *this; }
  ~Mod() { if (own) delete m; }
  bool flip() const { return zset && z <= 0; }
  P2 cart(bool polar, double a, double b) const { return polar ? P2{a * cos(b), a * sin(b)} : P2{a, b}; }
  P2 l2g(double a, double b) const { P2 p = cart(L.polar, a, b); double c = cos(angle), s = sin(angle); P2 g{p.x * c - p.y * s + cx, p.x * s + p.y * c + cy}; if (flip()) g.x = -g.x; return g; }
  P2 g2l(double a, double b) const { P2 p = cart(pol, a, b); if (flip()) p.x = -p.x; p.x -= cx; p.y -= cy; double c = cos(angle), s = sin(angle); return {p.x * c + p.y * s, -p.x * s + p.y * c}; }
  // local coordinates in the type of the pad layout
  void g2lc(double a, double b, double& u, double& v) const { P2 p = g2l(a, b); if (L.polar) { u = hypot(p.x, p.y); v = atan2(p.y, p.x); } else { u = p.x; v = p.y; } }
  void toGlobal(P2 g, double& a, double& b, Rng& r) const { if (pol) { a = hypot(g.x, g.y); b = atan2(g.y, g.x) + 2 * M_PI * (r.chance(.3) ? r.range(-1, 1) : 0); } else { a = g.x; b = g.y; } }
  double scale() const { return 1 + fabs(le[0]) + fabs(le[1]) + (L.polar ? 0 : fabs(le[2]) + fabs(le[3])) + hypot(cx, cy); }
};
static double pickAngle(Rng& r) { int k = r.range(0, 5); return k == 0 ? 0 : k == 1 ? r.range(-4, 4) * M_PI / 2 : k == 2 ? r.uni(-20, 20) : r.uni(-M_PI, 2 * M_PI); }
static Mod mk(Rng& r, int glob = -1, int maxPads = 200, bool simple = false) {
  Mod m; m.pol = glob < 0 ? r.chance(.4) : glob; bool polCart = glob < 0 && m.pol && r.chance(.05);
  m.L = make(r, m.pol ? (polCart ? 0 : r.range(1, 3)) : -1, maxPads); m.id = r.range(-5, 2000); m.freq = r.logu(1, 1e9);
  m.m = new gear::TPCModuleImpl(m.id, m.L.l.release(), m.pol ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN, m.freq);
  if (!simple && !polCart) {
    // settings in any order, some of them changed several times
    std::vector<int> ops; for (int k = 0; k < 4; ++k) for (int i = r.range(0, 2); i > 0; --i) ops.push_back(k);
    for (size_t i = ops.size(); i > 1; --i) std::swap(ops[i - 1], ops[r.range(0, i - 1)]);
    for (int k : ops) switch (k) {
      case 0: if (r.chance(.15)) m.oa = m.ob = 0; else if (m.pol) { m.oa = r.chance(.4) ? 0 : r.logu(1, 2000); m.ob = r.chance(.15) ? 0 : pickAngle(r); } else { m.oa = r.chance(.2) ? 0 : r.uni(-2000, 2000); m.ob = r.chance(.2) ? 0 : r.uni(-2000, 2000); } m.m->setOffset(m.oa, m.ob); break;
      case 1: m.angle = pickAngle(r); m.m->setAngle(m.angle); break;
      case 2: m.border = r.chance(.2) ? 0 : r.logu(.1, 60); m.m->setBorderWidth(m.border); break;
      case 3: m.z = r.chance(.3) ? 0 : r.uni(-2000, 2000); m.zset = true; m.m->setZPosition(m.z); break;
    }
    if (r.chance(.3)) { m.freq = r.logu(1, 1e9); m.m->setReadoutFrequency(m.freq); }
  }
  if (m.pol) { m.cx = m.oa * cos(m.ob); m.cy = m.oa * sin(m.ob); } else { m.cx = m.oa; m.cy = m.ob; }
  for (int i = 0; i < 4; ++i) { if (m.L.kind == VERS) m.L.ext[i] = m.m->getLocalPadLayout().getPlaneExtent()[i]; m.le[i] = m.L.ext[i]; }  // the extent of that layout is checked in P17
  if (m.border > 0) {
    if (m.L.polar) {
      m.le[0] = std::max(0., m.L.ext[0] - m.border); m.le[1] += m.border; double pb = m.L.ext[0] > 0 ? m.border / m.L.ext[0] : M_PI, w = m.L.ext[3] - m.L.ext[2];
      if (w + 2 * pb > 2 * M_PI) pb = (2 * M_PI - w) / 2; m.le[2] -= pb; m.le[3] += pb;
    } else { m.le[0] -= m.border; m.le[1] += m.border; m.le[2] -= m.border; m.le[3] += m.border; }
  }
  m.desc = fmt("module %d %s off %.10g,%.10g angle %.10g border %.10g z %s%.10g ", m.id, m.pol ? "polar" : "cart", m.oa, m.ob, m.angle, m.border, m.zset ? "" : "unset", m.z) + m.L.desc;
  return m;
}
// a point in global coordinates in or around the module
static void gpoint(Rng& r, const Mod& m, double& a, double& b) {
  double u, v; point(r, m.L, u, v); if (m.L.polar && u < 0) u = -u; P2 g = m.l2g(u, v);
  if (r.chance(.1)) { g.x = r.uni(-3000, 3000); g.y = r.uni(-3000, 3000); }
  m.toGlobal(g, a, b, r);
}
static void transform(Ctx& c) {
  Rng& r = c.rng; Mod m = mk(r); c.describe = m.desc; auto& t = *m.m; const PadRowLayout2D& l = t.getLocalPadLayout(); double tol = 1e-9 * m.scale();
  c.eqi(t.getModuleID(), m.id, "id"); c.near(t.getReadoutFrequency(), m.freq, 1e-12, "frequency"); c.near(t.getAngle(), m.angle, 1e-12, "angle"); c.near(t.getOffset()[0], m.oa, 1e-12, "offset"); c.near(t.getOffset()[1], m.ob, 1e-12, "offset"); c.near(t.getBorderWidth(), m.border, 1e-12, "border");
  c.eqi(t.getTPCCoordinateType(), m.pol ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN, "tpc-type"); c.eqi(t.getCoordinateType(), t.getTPCCoordinateType(), "type"); c.eqi(l.getCoordinateType(), m.L.polar ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN, "local-type");
  double z = 0; std::string ex = thrown([&] { z = t.getZPosition(); }); if (m.zset) c.chk(ex.empty() && fabs(z - m.z) <= 1e-12 * (1 + fabs(m.z)), "z"); else c.chk(isGearException(ex), "z-unset", "%s", ex.c_str());
  for (int i = 0; i < 40; ++i) {
    double u, v; point(r, m.L, u, v); if (m.L.polar && u < 0) u = -u;
    P2 want = m.l2g(u, v); Vector2D g = t.localToGlobal(u, v); P2 got = m.cart(m.pol, g[0], g[1]);
    c.chk(hypot(got.x - want.x, got.y - want.y) <= tol, "local-to-global", "local %.12g,%.12g gives %.12g,%.12g expected %.12g,%.12g", u, v, got.x, got.y, want.x, want.y); if (m.pol) c.chk(g[0] >= 0, "global-radius");
    Vector2D b = t.globalToLocal(g[0], g[1]); P2 b1 = m.cart(m.L.polar, b[0], b[1]), b0 = m.cart(m.L.polar, u, v); c.chk(hypot(b1.x - b0.x, b1.y - b0.y) <= tol, "round-trip-local", "%.12g,%.12g gives %.12g,%.12g", u, v, b[0], b[1]);
    double ga, gb; gpoint(r, m, ga, gb); Vector2D q = t.globalToLocal(ga, gb); P2 q1 = m.cart(m.L.polar, q[0], q[1]), q0 = m.g2l(ga, gb);
    c.chk(hypot(q1.x - q0.x, q1.y - q0.y) <= tol, "global-to-local", "global %.12g,%.12g gives %.12g,%.12g expected %.12g,%.12g", ga, gb, q1.x, q1.y, q0.x, q0.y); if (m.L.polar) c.chk(q[0] >= 0, "local-radius");
    Vector2D h = t.localToGlobal(q[0], q[1]); P2 h1 = m.cart(m.pol, h[0], h[1]), h0 = m.cart(m.pol, ga, gb); c.chk(hypot(h1.x - h0.x, h1.y - h0.y) <= tol, "round-trip-global", "%.12g,%.12g", ga, gb);
  }
  c.eqi(t.getNPads(), m.L.npads(), "npads"); c.eqi(t.getNRows(), m.L.rows.size(), "nrows"); c.eqi(t.getPadShape(), l.getPadShape(), "shape");
  for (int i = 0; i < 25; ++i) {
    int k = r.range(0, m.L.rows.size() - 1); if (!m.L.rows[k].n) continue; int p = r.range(0, m.L.rows[k].n - 1), id = t.getPadIndex(k, p); c.eqi(id, l.getPadIndex(k, p), "pad-index"); c.eqi(t.getRowNumber(id), k, "row"); c.eqi(t.getPadNumber(id), p, "pad");
    const MRow& w = m.L.rows[k]; double u = m.L.polar ? w.wc() : w.uc(p), v = m.L.polar ? w.uc(p) : w.wc(); P2 want = m.l2g(u, v); Vector2D g = t.getPadCenter(id); P2 got = m.cart(m.pol, g[0], g[1]);
    // the reference point of a rectangular pad is fixed by the layout (P14), the module only moves it
    Vector2D lc = l.getPadCenter(id); want = m.l2g(lc[0], lc[1]);
    c.chk(hypot(got.x - want.x, got.y - want.y) <= tol, "pad-center", "pad %d: %.12g,%.12g expected %.12g,%.12g", id, got.x, got.y, want.x, want.y);
    c.near(t.getPadWidth(id), l.getPadWidth(id), 1e-12, "width"); c.near(t.getPadHeight(id), l.getPadHeight(id), 1e-12, "height"); c.near(t.getRowHeight(k), l.getRowHeight(k), 1e-12, "row-height");
    c.eqi(t.getPadsInRow(k).size(), w.n, "pads-in-row");
    int a = 0, b = 0; std::string e1 = thrown([&] { a = t.getRightNeighbour(id); }), e2 = thrown([&] { b = l.getRightNeighbour(id); }); c.chk(e1 == e2 && a == b, "right-neighbour"); a = b = 0; e1 = thrown([&] { a = t.getLeftNeighbour(id); }); e2 = thrown([&] { b = l.getLeftNeighbour(id); }); c.chk(e1 == e2 && a == b, "left-neighbour");
    c.eqi(t.getNearestPad(g[0], g[1]), id, "nearest-to-center"); c.chk(t.isInsidePad(g[0], g[1], id), "center-inside");
  }
  c.state(fmt("%d%d%d%d%d%d%d", m.pol, m.L.kind, m.oa == 0 && m.ob == 0, m.angle == 0, m.border == 0, m.zset, m.z > 0) + fmt("/%zu/%d", m.L.rows.size(), m.L.npads()));
}
MON_WORKLOAD("P18", "transform", transform, 24000, 1500000)

static double modDist(const Mod& m, double u, double v) { return m.L.polar ? sectorDist(u, v, m.le[0], m.le[1], m.le[2], m.le[3]) : boxDist(u, v, m.le[0], m.le[1], m.le[2], m.le[3]); }
static double modMargin(const Mod& m, double u, double v) {  // distance to the border of the area
  if (!m.L.polar) { double d = std::min(std::min(fabs(u - m.le[0]), fabs(u - m.le[1])), std::min(fabs(v - m.le[2]), fabs(v - m.le[3]))); return d; }
  double d = std::min(fabs(u - m.le[0]), fabs(u - m.le[1])); d = std::min(d, u * fabs(sin((v - m.le[2]) / 2))); return std::min(d, u * fabs(sin((v - m.le[3]) / 2)));
}
static void area(Ctx& c) {
  Rng& r = c.rng; Mod m = mk(r, r.chance(.6) ? 0 : 1); c.describe = m.desc; auto& t = *m.m; double sc = m.scale(), tol = 1e-8 * sc; const PadRowLayout2D& l = t.getLocalPadLayout();
  for (int i = 0; i < 4; ++i) c.near(t.getLocalModuleExtent()[i], m.le[i], 1e-9, "local-extent", "%d", i);
  bool fullMod = m.L.polar && m.le[3] - m.le[2] > 2 * M_PI - 1e-9; long in = 0, inPad = 0;
  for (int i = 0; i < 60; ++i) {
    double a, b; gpoint(r, m, a, b);
    if (r.chance(.3)) { double w = m.L.polar ? r.uni(m.le[0] - 2, m.le[1] + 2) : r.uni(m.le[0] - 5, m.le[1] + 5), v = r.uni(m.le[2] - .02, m.le[3] + .02); if (!m.L.polar) v = r.uni(m.le[2] - 5, m.le[3] + 5); m.toGlobal(m.l2g(std::max(0., w), v), a, b, r); }
    double u, v; m.g2lc(a, b, u, v); double d = fullMod ? std::max(0., std::max(m.le[0] - u, u - m.le[1])) : modDist(m, u, v), mg = fullMod ? std::min(fabs(u - m.le[0]), fabs(u - m.le[1])) : modMargin(m, u, v);
    if (mg > 1e-6 * sc) {
      c.chk(t.isInsideModule(a, b) == (d == 0), "inside-module", "global %.12g,%.12g local %.12g,%.12g expected %d", a, b, u, v, d == 0); in += d == 0;
      double got = t.getDistanceToModule(a, b); c.chk(fabs(got - d) <= 1e-6 * sc, "distance-module", "global %.12g,%.12g: %.12g expected %.12g", a, b, got, d); if (d == 0) c.chk(got == 0, "distance-inside");
    }
    bool any = false, near = false; int hit = -1;
    for (size_t k = 0; k < m.L.rows.size(); ++k) { const MRow& w = m.L.rows[k]; double x = m.L.polar ? u : v; if (x < w.wlo - 1e-3 * sc || x > w.whi + 1e-3 * sc) continue;
      for (int p = 0; p < w.n; ++p) { double e = padMargin(m.L, u, v, k, p); if (fabs(e) < 1e-6 * sc) near = true; if (e > 0) { any = true; hit = l.getPadIndex(k, p); } } }
    if (!near && u > 1e-6 * sc) { c.chk(t.isInsidePad(a, b) == any, "inside-any-pad", "global %.12g,%.12g local %.12g,%.12g expected %d", a, b, u, v, any); inPad += any; if (any) { c.chk(t.isInsidePad(a, b, hit), "inside-pad"); c.eqi(t.getNearestPad(a, b), hit, "nearest-contains"); } }
    int k = r.range(0, m.L.rows.size() - 1); if (!m.L.rows[k].n) continue; int p = r.range(0, m.L.rows[k].n - 1), id = l.getPadIndex(k, p); double e = padMargin(m.L, u, v, k, p);
    if (fabs(e) > 1e-6 * sc && u > 1e-6 * sc) c.chk(t.isInsidePad(a, b, id) == (e > 0), "inside-this-pad", "pad %d,%d", k, p);
    double dp = t.getDistanceToPad(a, b, id), dm = l.getDistanceToPad(t.globalToLocal(a, b)[0], t.globalToLocal(a, b)[1], id); c.near(dp, dm, 1e-9, "distance-pad");
    if (m.L.uniformExact || m.L.kind != RECT) c.chk(fabs(dp - padDist(m.L, u, v, k, p)) <= 1e-6 * sc, "distance-pad-value", "global %.12g,%.12g pad %d: %.12g expected %.12g", a, b, id, dp, padDist(m.L, u, v, k, p));
  }
  // extents: nothing outside of them, and no larger than needed
  for (int q = 0; q < 2; ++q) {
    const std::vector<double>& E = q ? t.getModuleExtent() : t.getPlaneExtent(); const double* e = q ? m.le : m.L.ext; std::string n = q ? "module-extent" : "plane-extent"; if (!c.chk(E.size() == 4, n + "-size")) continue;
    double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}; bool full = m.L.polar && e[3] - e[2] > 2 * M_PI - 1e-9;
    auto visit = [&](double u, double v, bool exact) {
      P2 g = m.l2g(u, v); double a = g.x, b = g.y; if (m.pol) { a = hypot(g.x, g.y); b = atan2(g.y, g.x); }
      lo[0] = std::min(lo[0], a); hi[0] = std::max(hi[0], a); lo[1] = std::min(lo[1], b); hi[1] = std::max(hi[1], b); (void)exact;
      c.chk(a >= E[0] - tol && a <= E[1] + tol, n + "-contains-0", "local %.12g,%.12g global %.12g not in [%.12g,%.12g]", u, v, a, E[0], E[1]);
      if (!m.pol) c.chk(b >= E[2] - tol && b <= E[3] + tol, n + "-contains-1", "local %.12g,%.12g global %.12g not in [%.12g,%.12g]", u, v, b, E[2], E[3]);
      else if (a > 1e-6 * sc) { double w = E[2] + std::fmod(std::fmod(b - E[2], 2 * M_PI) + 2 * M_PI, 2 * M_PI); bool ok = w <= E[3] + 1e-6 || w >= E[2] + 2 * M_PI - 1e-6; c.chk(ok, n + "-contains-phi", "local %.12g,%.12g global phi %.12g not in [%.12g,%.12g]", u, v, b, E[2], E[3]); }
    };
    for (int i = 0; i < 40; ++i) visit(r.uni(e[0], e[1]), r.uni(e[2], e[3]), false);
    for (int i = 0; i < 4; ++i) visit(e[i & 1], e[2 + (i >> 1)], true);
    for (int i = 0; i <= 50; ++i) { double f = i / 50.; for (int k = 0; k < 2; ++k) { visit(e[0] + f * (e[1] - e[0]), e[2 + k], true); visit(e[k], e[2] + f * (e[3] - e[2]), true); } }
    if (m.L.polar) {
      // directions in which an arc can touch the extent
      std::vector<double> dirs; if (!m.pol) for (int i = 0; i < 4; ++i) dirs.push_back(i * M_PI / 2 - m.angle); else { dirs.push_back(atan2(m.cy, m.cx) - m.angle); dirs.push_back(atan2(m.cy, m.cx) - m.angle + M_PI); }
      for (double d : dirs) { double w = wrapTo(d, e[2]); if (full || w <= e[3]) for (int k = 0; k < 2; ++k) visit(e[k], w, true); }
      if (m.pol) for (int k = 0; k < 2; ++k) { // foot point of the origin on the radial edges
        double a0 = e[2 + k] + m.angle, tt = -(m.cx * cos(a0) + m.cy * sin(a0)); if (tt >= e[0] && tt <= e[1]) visit(tt, e[2 + k], true); }
    }
    if (m.pol) { double u, v; m.g2lc(0, 0, u, v); double d = full ? std::max(0., std::max(e[0] - u, u - e[1])) : sectorDist(u, v, e[0], e[1], e[2], e[3]); if (d == 0) lo[0] = 0; }
    c.chk(fabs(E[0] - lo[0]) <= 1e-7 * sc && fabs(E[1] - hi[0]) <= 1e-7 * sc, n + "-tight-0", "[%.12g,%.12g] expected [%.12g,%.12g]", E[0], E[1], lo[0], hi[0]);
    if (!m.pol) c.chk(fabs(E[2] - lo[1]) <= 1e-7 * sc && fabs(E[3] - hi[1]) <= 1e-7 * sc, n + "-tight-1", "[%.12g,%.12g] expected [%.12g,%.12g]", E[2], E[3], lo[1], hi[1]);
    else { c.chk(E[3] >= E[2] && E[3] - E[2] <= 2 * M_PI + 1e-9, n + "-phi-range", "[%.12g,%.12g]", E[2], E[3]); if (m.oa == 0) c.near(E[3] - E[2], e[3] - e[2], 1e-9, n + "-phi-width"); }
  }
  c.state(fmt("%d%d%d%d%d%d%d", m.pol, m.L.kind, m.oa == 0 && m.ob == 0, m.angle == 0, m.border == 0, m.zset, m.z > 0) + fmt("/%ld/%ld", in, inPad));
}
MON_WORKLOAD("P19", "area", area, 32000, 800000)

static void tpc(Ctx& c) {
  Rng& r = c.rng; bool pol = r.chance(.4); double drift = r.logu(10, 3000); gear::TPCParametersImpl T(drift, pol ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN); std::vector<Mod> ms; int N = r.range(0, 6), mode = r.range(0, 3); double zp = r.uni(1, 2000), zn = r.chance(.4) ? 0 : -r.uni(1, 2000); std::string ex;
  std::map<int, size_t> ids; double vd = 0;
  c.chk(isGearException(thrown([&] { T.getNearestModule(1, 1); })), "empty-nearest-module"); c.chk(isGearException(thrown([&] { T.getNearestPad(1, 1); })), "empty-nearest-pad"); c.chk(isGearException(thrown([&] { T.getPlaneExtent(); })), "empty-extent"); c.chk(isGearException(thrown([&] { T.getPadLayout(); })), "empty-layout"); c.chk(isGearException(thrown([&] { T.getReadoutFrequency(); })), "empty-frequency"); c.chk(!T.isInsideModule(1, 1) && !T.isInsidePad(1, 1), "empty-inside"); c.eqi(T.getNModules(), 0, "empty-count");
  c.chk(isGearException(thrown([&] { T.addModule(0); })), "add-null");
  if (r.chance(.3)) { vd = r.logu(1, 1e8); T.setDriftVelocity(vd); } c.near(T.getDriftVelocity(), vd, 1e-12, "drift-velocity");
  for (int i = 0; i < N; ++i) {
    Mod m = mk(r, pol, 60); // end plates: 0 no z, 1 both, 2 only positive, 3 only negative
    bool neg = mode == 3 || (mode == 1 && r.chance(.5));
    if (mode == 0) { if (m.zset) { --i; continue; } } else { m.z = neg ? zn : zp; m.zset = true; m.m->setZPosition(m.z); }
    if (ids.count(m.id)) { c.chk(isGearException(thrown([&] { T.addModule(m.m); })), "duplicate-id"); --i; continue; }
    if (r.chance(.15)) { Mod w = mk(r, !pol, 30); c.chk(isGearException(thrown([&] { T.addModule(w.m); })), "wrong-coordinates"); }
    T.addModule(m.m); m.own = false; ids[m.id] = ms.size(); ms.push_back(std::move(m));
    { Mod d = mk(r, pol, 20); int id = ms[r.range(0, ms.size() - 1)].id; d.own = false; gear::TPCModuleImpl dup(id, make(r, pol ? 1 : 0, 20).l.release(), pol ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN, 1); delete d.m; d.m = 0; if (r.chance(.3)) c.chk(isGearException(thrown([&] { T.addModule(&dup); })), "duplicate-id"); }
    c.eqi(T.getNModules(), ms.size(), "count");
  }
  c.describe = fmt("TPC %s drift %.9g mode %d: ", pol ? "polar" : "cart", drift, mode); for (auto& m : ms) c.describe += "\n   " + m.desc;
  if (r.chance(.4)) { drift = r.logu(10, 3000); T.setMaxDriftLength(drift); } c.near(T.getMaxDriftLength(), drift, 1e-12, "drift-length"); c.eqi(T.getCoordinateType(), pol ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN, "type");
  c.eqi(T.getNModules(), ms.size(), "count"); c.eqi(T.getModules().size(), ms.size(), "modules"); for (size_t i = 0; i < ms.size() && i < T.getModules().size(); ++i) c.chk(T.getModules()[i] == ms[i].m, "module-order");
  for (auto& p : ids) { const gear::TPCModule* q = 0; ex = thrown([&] { q = &T.getModule(p.first); }); c.chk(ex.empty() && q == ms[p.second].m, "by-id", "%d %s", p.first, ex.c_str()); }
  for (int i = 0; i < 10; ++i) { int id = r.range(-20, 2100); if (!ids.count(id)) c.chk(isGearException(thrown([&] { T.getModule(id); })), "unknown-id"); }
  if (N != 1) { c.chk(isGearException(thrown([&] { T.getPadLayout(); })), "layout-needs-one"); c.chk(isGearException(thrown([&] { T.getReadoutFrequency(); })), "frequency-needs-one"); c.chk(isGearException(thrown([&] { T.setReadoutFrequency(3); })), "set-frequency-needs-one"); }
  if (N == 1) { c.near(T.getReadoutFrequency(), ms[0].freq, 1e-12, "frequency"); bool plain = ms[0].angle == 0 && ms[0].oa == 0 && ms[0].ob == 0; const PadRowLayout2D* q = 0; ex = thrown([&] { q = &T.getPadLayout(); }); c.chk(plain ? ex.empty() && q == (const PadRowLayout2D*)ms[0].m : isGearException(ex), "layout-of-one"); }
  if (!N) { c.state("empty"); return; }
  // extent
  const std::vector<double>& E = T.getPlaneExtent(); for (int k = 0; k < 4; ++k) { double w = ms[0].m->getModuleExtent()[k]; for (auto& m : ms) { double x = m.m->getModuleExtent()[k]; w = k % 2 ? std::max(w, x) : std::min(w, x); } c.near(E[k], w, 1e-9, "extent", "%d", k); }
  // cathode
  bool hp = false, hn = false; for (auto& m : ms) { if (!m.zset || m.z > 0) hp = true; if (!m.zset || m.z <= 0) hn = true; }
  double cath = mode == 0 ? 0 : hp && hn ? (zp + zn) / 2 : hp ? zp - drift : zn + drift; long hits = 0;
  for (int i = 0; i < 40; ++i) {
    double a, b; gpoint(r, ms[r.range(0, N - 1)], a, b); bool three = r.chance(.6); double z = cath + r.sgn() * (r.chance(.3) ? r.logu(1e-3, 1) : r.logu(1, 3000)); if (mode && r.chance(.1)) z = r.chance(.5) ? zp : zn;
    if (fabs(z - cath) < 1e-9) continue; std::vector<Mod*> cand; for (auto& m : ms) if (!three || !m.zset || (z <= cath) == (m.z <= 0)) cand.push_back(&m);
    double sc = 1; for (auto& m : ms) sc = std::max(sc, m.scale());
    if (cand.empty()) { c.chk(isGearException(thrown([&] { T.getNearestModule(a, b, z); })), "no-module-in-half"); c.chk(isGearException(thrown([&] { T.getNearestPad(a, b, z); })), "no-pad-in-half"); c.chk(!T.isInsideModule(a, b, z) && !T.isInsidePad(a, b, z), "empty-half-inside"); continue; }
    double best = 1e300, bestPad = 1e300; bool in = false, inPad = false, nearB = false, exact = true;
    for (Mod* m : cand) { double u, v; m->g2lc(a, b, u, v); bool fullMod = m->L.polar && m->le[3] - m->le[2] > 2 * M_PI - 1e-9; double d = fullMod ? std::max(0., std::max(m->le[0] - u, u - m->le[1])) : modDist(*m, u, v); if ((fullMod ? std::min(fabs(u - m->le[0]), fabs(u - m->le[1])) : modMargin(*m, u, v)) < 1e-6 * sc) nearB = true; best = std::min(best, d); in |= d == 0; if (m->L.polar && u < 1e-6 * sc) nearB = true;
      if (!m->L.uniformExact) exact = false;
      for (size_t k = 0; k < m->L.rows.size(); ++k) for (int p = 0; p < m->L.rows[k].n; ++p) { double e = padMargin(m->L, u, v, k, p); if (fabs(e) < 1e-6 * sc) nearB = true; inPad |= e > 0; bestPad = std::min(bestPad, padDist(m->L, u, v, k, p)); } }
    const gear::TPCModule& q = three ? T.getNearestModule(a, b, z) : T.getNearestModule(a, b); Mod* qm = 0; for (Mod* m : cand) if (m->m == &q) qm = m;
    if (c.chk(qm != 0, "nearest-module-half", "z %.9g cathode %.9g gives module %d", z, cath, q.getModuleID())) { double d = q.getDistanceToModule(a, b); c.chk(fabs(d - best) <= 1e-6 * sc, "nearest-module", "%.12g,%.12g: module %d at %.12g, nearest %.12g", a, b, q.getModuleID(), d, best); }
    if (!nearB) { c.chk((three ? T.isInsideModule(a, b, z) : T.isInsideModule(a, b)) == in, "inside-module", "%.12g,%.12g expected %d", a, b, in); c.chk((three ? T.isInsidePad(a, b, z) : T.isInsidePad(a, b)) == inPad, "inside-pad", "%.12g,%.12g expected %d", a, b, inPad); hits += in; }
    gear::GlobalPadIndex g = three ? T.getNearestPad(a, b, z) : T.getNearestPad(a, b); Mod* gm = 0; for (Mod* m : cand) if (m->id == g.getModuleID()) gm = m;
    if (c.chk(gm != 0, "nearest-pad-half", "z %.9g cathode %.9g gives module %d", z, cath, g.getModuleID())) {
      c.eqi(g.getPadIndex(), gm->m->getNearestPad(a, b), "nearest-pad-of-module"); double d = gm->m->getDistanceToPad(a, b, g.getPadIndex()); if (exact) c.chk(fabs(d - bestPad) <= 1e-6 * sc, "nearest-pad", "%.12g,%.12g: module %d pad %d at %.12g, nearest %.12g", a, b, g.getModuleID(), g.getPadIndex(), d, bestPad);
      else for (Mod* m : cand) { double e = m->m->getDistanceToPad(a, b, m->m->getNearestPad(a, b)); c.chk(d <= e + 1e-6 * sc, "nearest-pad-among-modules", "%.12g,%.12g: module %d at %.12g but module %d at %.12g", a, b, g.getModuleID(), d, m->id, e); } }
  }
  c.state(fmt("%d/%d/%d/%ld", pol, mode, N, hits));
}
MON_WORKLOAD("P20", "tpc", tpc, 24000, 450000)

static void single(Ctx& c) {  // the old interface: one pad layout
  Rng& r = c.rng; bool pol = r.chance(.7); gear::TPCParametersImpl T; if (!pol) T = gear::TPCParametersImpl(r.uni(1, 100), PadRowLayout2D::CARTESIAN); Lay L = make(r, pol ? r.range(1, 3) : r.range(0, 3), 80); c.describe = L.desc; PadRowLayout2D* raw = L.l.release(); double f = r.logu(1, 1e8);
  T.setPadLayout(raw); T.setReadoutFrequency(f); c.near(T.getReadoutFrequency(), f, 1e-12, "frequency"); c.eqi(T.getNModules(), 1, "count"); c.eqi(T.getModule(0).getModuleID(), 0, "id"); c.chk(&T.getModule(0).getLocalPadLayout() == raw, "local-layout");
  const PadRowLayout2D& q = T.getPadLayout(); c.eqi(q.getNPads(), L.npads(), "npads"); c.eqi(q.getNRows(), L.rows.size(), "nrows"); bool same = L.polar == pol;
  if (same && L.kind != VERS) for (int k = 0; k < 4; ++k) c.near(T.getPlaneExtent()[k], L.ext[k], 1e-9, "extent");
  for (int i = 0; i < 20; ++i) { double u, v; point(r, L, u, v); if (L.polar && u < 0) u = -u; if (!same) continue; bool near = L.polar && u < 1e-4, in = false; for (size_t k = 0; k < L.rows.size(); ++k) for (int p = 0; p < L.rows[k].n; ++p) { double e = padMargin(L, u, v, k, p); near |= fabs(e) < 1e-4; in |= e > 0; }
    if (!near) { c.chk(T.isInsidePad(u, v) == in, "inside-pad", "%.12g,%.12g", u, v); c.chk(T.isInsidePad(u, v, r.uni(-10, 10)) == in, "inside-pad-z", "%.12g,%.12g", u, v); } c.eqi(T.getNearestPad(u, v).getPadIndex(), raw->getNearestPad(u, v), "nearest-pad"); }
  { std::unique_ptr<PadRowLayout2D> o(make(r, 0, 20).l.release()); c.chk(isGearException(thrown([&] { T.setPadLayout(o.get()); })), "second-layout"); }
  c.state(fmt("%d%d%d", pol, L.kind, L.npads()));
}
MON_WORKLOAD("P20", "single", single, 6000, 100000)
