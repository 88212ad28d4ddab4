// P14 pad numbering, P15 pad neighbours, P16 point to pad lookup, P17 pad geometry
#include "padgen.h"
#include "gearimpl/GlobalPadIndex.h"
#include <algorithm>
using namespace mon;
using namespace padgen;

static const char* KN[] = {"rect", "fsize", "fangle", "vers"};
static void note(Ctx& c, const Lay& L) {
  c.describe = L.desc;
  c.state(fmt("%d/%d/%d/%d/%d", L.kind, (int)L.rows.size(), L.npads() / 8, (int)(L.ext[0] / 50), L.uniformExact) + (L.full(0) ? "F" : "p"));
  c.ev(fmt("layout-%s", KN[L.kind]));
}
static std::unique_ptr<gear::PadRowLayout2D> variant(Rng& r, const gear::PadRowLayout2D& l) {
  return std::unique_ptr<gear::PadRowLayout2D>(l.clone());
}

// ---------------------------------------------------------------- P14
static void indicesOf(Ctx& c, int wide) {
  Rng& r = c.rng;
  Lay L = make(r, -1, c.thorough ? 2000 : 400, wide);
  note(c, L);
  std::unique_ptr<gear::PadRowLayout2D> cl; const gear::PadRowLayout2D* l = L.l.get();
  if (r.chance(.3)) { cl = variant(r, *l); if (r.chance(.5)) L.l.reset(); l = cl.get(); c.ev("on-clone"); }
  c.eqi(l->getNRows(), L.rows.size(), "rows");
  c.eqi(l->getNPads(), L.npads(), "pads");
  std::set<int> seen; long tot = 0;
  for (int k = 0; k < (int)L.rows.size(); ++k) {
    const std::vector<int>& v = l->getPadsInRow(k);
    if (!c.eqi(v.size(), L.rows[k].n, "pads-in-row-size", "row %d", k)) return;
    tot += v.size();
    for (int p = 0; p < (int)v.size(); ++p) {
      int idx = l->getPadIndex(k, p);
      c.eqi(v[p], idx, "pads-in-row-order", "row %d pad %d", k, p);
      c.eqi(l->getRowNumber(idx), k, "row-of-index", "index %x", idx);
      c.eqi(l->getPadNumber(idx), p, "pad-of-index", "index %x", idx);
      c.chk(seen.insert(idx).second, "index-unique", "index %x row %d pad %d", idx, k, p);
    }
  }
  c.eqi(tot, l->getNPads(), "sum-of-rows");
  // outside
  auto refused = [&](int k, int p) {
    std::string t = thrown([&]() { (void)l->getPadIndex(k, p); });
    c.chk(t == "std::out_of_range" || isGearException(t), "outside-refused", "row %d pad %d -> '%s'", k, p, t.c_str());
  };
  int R = L.rows.size(), k = r.range(0, R - 1);
  refused(R, 0); refused(R + r.range(0, 100), r.range(0, 5)); refused(-1 - r.range(0, 3), 0);
  refused(k, L.rows[k].n); refused(k, L.rows[k].n + r.range(0, 50)); refused(k, -1 - r.range(0, 3));
  c.eqi(l->getPadsInRow(R + r.range(0, 3)).size(), 0, "outside-row-empty");
  c.eqi(l->getPadsInRow(-1 - r.range(0, 3)).size(), 0, "outside-row-empty");
}
static void indices(Ctx& c) { indicesOf(c, 0); }
static void indicesWide(Ctx& c) { indicesOf(c, 1 + (c.idx & 1)); }
static void globalIndex(Ctx& c) {
  Rng& r = c.rng;
  std::vector<std::pair<int, int>> m; std::vector<gear::GlobalPadIndex> g;
  for (int i = 0; i < 12; ++i) {
    int mod = r.chance(.5) ? r.range(-3, 3) : (int)r.next(), pad = r.chance(.5) ? r.range(-3, 3) : (int)r.next();
    gear::GlobalPadIndex x(pad, mod);
    if (r.chance(.3)) { gear::GlobalPadIndex y(1, 2); y.setPadIndex(pad); y.setModuleID(mod); x = y; }
    c.eqi(x.getPadIndex(), pad, "pad"); c.eqi(x.getModuleID(), mod, "module");
    m.push_back({mod, pad}); g.push_back(x);
    c.state(fmt("%d/%d", mod, pad));
  }
  for (int i = 0; i < 12; ++i) for (int j = 0; j < 12; ++j) {
    c.chk((g[i] < g[j]) == (m[i] < m[j]), "less", "(%d,%d)<(%d,%d)", m[i].first, m[i].second, m[j].first, m[j].second);
    c.chk((g[i] == g[j]) == (m[i] == m[j]), "equal");
  }
  std::set<gear::GlobalPadIndex> s(g.begin(), g.end()); std::set<std::pair<int, int>> ms(m.begin(), m.end());
  c.eqi(s.size(), ms.size(), "set-size");
}
static void growing(Ctx& c) {   // rows added step by step; queries between the additions
  Rng& r = c.rng;
  int k0 = r.chance(.5) ? 1 : 0; c.describe = k0 ? "rect" : "versatile";
  gear::RectangularPadRowLayout R(0, 100); gear::VersatileDiskRowLayout V(100);
  gear::PadRowLayout2D* l = k0 ? (gear::PadRowLayout2D*)&R : &V;
  std::vector<int> n;
  auto tryq = [&]() { return thrown([&]() { (void)l->getNearestPad(r.uni(1, 50), r.uni(0, 1)); }); };
  c.chk(isGearException(tryq()), "empty-nearest-refused");
  c.chk(!thrown([&]() { (void)l->getPadIndex(0, 0); }).empty(), "empty-index-refused");
  c.chk(!thrown([&]() { (void)l->getRowNumber(0); }).empty(), "empty-row-refused");
  for (int s = 0; s < r.range(1, 8); ++s) {
    int rep = r.range(1, 4), np = r.range(1, 20);
    if (k0) R.addRow(rep, np, 100. / np * .9, 2, 0, 0, 0); else V.addRow(np, 1.5, 3, 0, 0, 0, rep);
    for (int i = 0; i < rep; ++i) n.push_back(np);
    if (r.chance(.4)) {   // a row that cannot be placed is refused and leaves no trace
      int k = r.range(0, 8), bn = 1 + r.range(0, 9); std::string e = thrown([&]() {
        if (k0) switch (k) { case 0: R.addRow(1, bn, 101. / bn, 2, 0, 0, 0); break; case 1: R.addRow(2, bn, 1, 5, 4, 0, 0); break; case 2: R.addRow(1, 0, 1, 1, 0, 0, 0); break; case 3: R.addRow(1, bn, -1, 1, 0, 0, 0); break; case 4: R.addRow(3, bn, 60. / bn, 1, 0, 30, 20); break; case 5: R.addRow(1, 65537 + r.range(0, 99), .0001, 1, 0, 0, 0); break; case 6: R.addRow(65537, bn, .1, 1, 0, 0, 0); break; case 7: R.addRow(0, bn, .1, 1, 0, 0, 0); break; default: R.addRow(1, bn, .1, 1, 0, -1, 0); }
        else switch (k) { case 0: V.addRow(bn, 2 * M_PI * 400 / bn, 3, 0, 0, 0, 1 + r.range(0, 2)); break; case 1: V.addRow(bn, 1.5, 3, 0, 2, 0, 1); break; case 2: V.addRow(0, 1, 1); break; case 3: V.addRow(bn, -1, 1); break; case 4: V.addRow(bn, 1, 0); break; case 5: V.addRow(65537 + r.range(0, 99), .0001, 1); break; case 6: V.addRow(bn, .1, .1, 0, 0, 0, 65537); break; case 7: V.addRow(bn, 1, 1, 0, 0, 0, 0); break; default: V.addRow(bn, 1, 1, 0, -1); }
      });
      c.chk(isGearException(e), "refused-row", "case %d: '%s'", k, e.c_str());
      int t = 0; for (int x : n) t += x; c.eqi(l->getNPads(), t, "pads-after-refused-row", "case %d", k); c.eqi(l->getNRows(), n.size(), "rows-after-refused-row", "case %d", k);
    }
    if (r.chance(.7)) {
      for (int k = 0; k < (int)n.size(); ++k) c.eqi(l->getPadsInRow(k).size(), n[k], "row-size-after-add", "row %d of %d", k, (int)n.size());
      c.eqi(l->getNRows(), n.size(), "rows-after-add");
      int t = 0; for (int x : n) t += x;
      c.eqi(l->getNPads(), t, "pads-after-add");
    }
  }
  if (k0 && r.chance(.5)) {
    int cnt = r.range(0, 3); R.repeatRows(cnt); int m = n.size();
    for (int i = 1; i < cnt; ++i) for (int j = 0; j < m; ++j) n.push_back(n[j]);
    c.eqi(l->getNRows(), n.size(), "rows-after-repeat", "count %d", cnt);
    for (int k = 0; k < (int)n.size(); ++k) c.eqi(l->getPadsInRow(k).size(), n[k], "row-size-after-repeat");
  }
  c.state(fmt("%d", (int)n.size()) + c.describe + fmt("%d", n[0]));
}

// ---------------------------------------------------------------- P15
static void neighboursOf(Ctx& c, int wide) {
  Rng& r = c.rng;
  Lay L = make(r, -1, 400, wide);
  note(c, L);
  std::unique_ptr<gear::PadRowLayout2D> cl; const gear::PadRowLayout2D* l = L.l.get();
  if (r.chance(.2)) { cl = variant(r, *l); l = cl.get(); }
  for (int t = 0; t < 30; ++t) {
    int k = r.range(0, (int)L.rows.size() - 1), n = L.rows[k].n, p = r.chance(.4) ? (r.chance(.5) ? 0 : n - 1) : r.range(0, n - 1);
    bool full = L.full(k);
    int idx = l->getPadIndex(k, p), up = p + 1, dn = p - 1;
    if (full) { up = up % n; dn = (dn + n) % n; }
    auto check = [&](int want, bool plus, const char* key) {
      bool left = L.polar ? plus : !plus;   // left is towards larger phi, or smaller x
      int got = 0; std::string e = thrown([&]() { got = left ? l->getLeftNeighbour(idx) : l->getRightNeighbour(idx); });
      if (want < 0 || want >= n) { c.chk(isGearException(e), std::string(key) + "-edge", "row %d pad %d/%d: '%s' index %x", k, p, n, e.c_str(), got); return; }
      if (!c.chk(e.empty(), std::string(key) + "-exists", "row %d pad %d/%d: %s", k, p, n, e.c_str())) return;
      c.eqi(got, l->getPadIndex(k, want), key, "row %d pad %d/%d", k, p, n);
      int back = left ? l->getRightNeighbour(got) : l->getLeftNeighbour(got);
      c.eqi(back, idx, std::string(key) + "-inverse");
      gear::Vector2D a = l->getPadCenter(idx), b = l->getPadCenter(got);
      int wc = L.polar ? 0 : 1;
      c.near(b[wc], a[wc], 1e-9, std::string(key) + "-same-row");
      double d = b[1 - wc] - a[1 - wc], want_d = plus ? L.rows[k].pitch : -L.rows[k].pitch;
      if (L.polar) { c.chk(std::fabs(std::sin((d - want_d) / 2)) < 1e-6, std::string(key) + "-pitch", "distance %g want %g", d, want_d); }
      else c.near(d, want_d, 1e-9, std::string(key) + "-pitch");
    };
    check(up, true, "up");
    check(dn, false, "down");
  }
  // walk along a row
  int k = r.range(0, (int)L.rows.size() - 1), n = L.rows[k].n, idx = l->getPadIndex(k, 0); std::set<int> seen = {idx};
  for (int i = 1; i < n; ++i) { idx = L.polar ? l->getLeftNeighbour(idx) : l->getRightNeighbour(idx); seen.insert(idx); }
  c.eqi(seen.size(), n, "walk-visits-row");
  if (L.full(k)) c.eqi(l->getLeftNeighbour(idx), l->getPadIndex(k, 0), "walk-closes");
}

static void neighbours(Ctx& c) { neighboursOf(c, 0); }
static void neighboursWide(Ctx& c) { neighboursOf(c, 1 + (c.idx & 1)); }

// ---------------------------------------------------------------- P16
static void lookupIn(Ctx& c, int wide) {
  Rng& r = c.rng;
  Lay L = make(r, -1, c.thorough ? 1000 : 250, wide);
  note(c, L);
  const gear::PadRowLayout2D* l = L.l.get();
  double scale = std::max(std::fabs(L.rows.back().whi), 1.) + std::fabs(L.rows[0].wlo);
  if (!L.polar) scale += std::fabs(L.ext[0]) + std::fabs(L.ext[1]);
  const double mrg = 1e-9 * scale + 1e-9, dtol = 3e-8 * scale;
  for (int t = 0; t < (wide ? 3 : c.thorough ? 40 : 20); ++t) {
    double c0, c1; point(r, L, c0, c1);
    int near = l->getNearestPad(c0, c1);
    int nk = l->getRowNumber(near), np = l->getPadNumber(near);
    if (!c.chk(nk >= 0 && nk < (int)L.rows.size() && np >= 0 && np < L.rows[nk].n, "nearest-valid", "(%.12g,%.12g) -> %x", c0, c1, near)) continue;
    double best = 1e300, bestRow = 1e300; int bk = -1, bp = -1; int in = 0, unsure = 0, ik = -1, ip = -1;
    for (int k = 0; k < (int)L.rows.size(); ++k) for (int p = 0; p < L.rows[k].n; ++p) {
      double d = padDist(L, c0, c1, k, p), m = padMargin(L, c0, c1, k, p);
      if (d < best) { best = d; bk = k; bp = p; }
      if (k == nk) bestRow = std::min(bestRow, d);
      if (m > mrg) { ++in; ik = k; ip = p; } else if (m > -mrg) ++unsure;
    }
    double got = padDist(L, c0, c1, nk, np);
    if (L.uniformExact)
      c.chk(got <= best + dtol, fmt("nearest-%s", KN[L.kind]), "(%.12g,%.12g): row %d pad %d at %.9g, but row %d pad %d at %.9g", c0, c1, nk, np, got, bk, bp, best);
    else {
      c.chk(got <= bestRow + dtol, "nearest-in-row", "(%.12g,%.12g): row %d pad %d at %.9g, best in row %.9g", c0, c1, nk, np, got, bestRow);
      auto yd = [&](int k) { return std::max(0., std::fabs(c1 - L.rows[k].wc()) - L.rows[k].mw / 2); };
      double by = 1e300; for (int k = 0; k < (int)L.rows.size(); ++k) by = std::min(by, yd(k));
      c.chk(yd(nk) <= by + dtol, "nearest-row", "(%.12g,%.12g): row %d at %.9g, best %.9g", c0, c1, nk, yd(nk), by);
    }
    if (in == 1 && unsure == 0) {
      c.chk(nk == ik && np == ip, "nearest-is-containing", "(%.12g,%.12g): row %d pad %d but inside row %d pad %d", c0, c1, nk, np, ik, ip);
      c.chk(l->isInsidePad(c0, c1), fmt("inside-%s", KN[L.kind]), "(%.12g,%.12g) is in row %d pad %d", c0, c1, ik, ip);
      c.chk(l->isInsidePad(c0, c1, l->getPadIndex(ik, ip)), "inside-index", "(%.12g,%.12g)", c0, c1);
    } else if (in == 0 && unsure == 0)
      c.chk(!l->isInsidePad(c0, c1), fmt("outside-%s", KN[L.kind]), "(%.12g,%.12g) is in no pad", c0, c1);
    for (int q = 0; q < 4; ++q) {
      int k = q == 0 ? nk : q == 1 ? bk : r.range(0, (int)L.rows.size() - 1), p = q == 0 ? np : q == 1 ? bp : r.range(0, L.rows[k].n - 1), idx = l->getPadIndex(k, p);
      double m = padMargin(L, c0, c1, k, p);
      if (std::fabs(m) > mrg) c.chk(l->isInsidePad(c0, c1, idx) == (m > 0), fmt("inside-pad-%s", KN[L.kind]), "(%.12g,%.12g) row %d pad %d margin %g", c0, c1, k, p, m);
      double d = padDist(L, c0, c1, k, p), g = l->getDistanceToPad(c0, c1, idx);
      // sqrt(r^2+r0^2-2 r r0 cos) cancels for small distances
      c.chk(std::fabs(g - d) <= dtol + 1e-12 * scale * scale / std::max(d, 1e-6 * scale), fmt("distance-%s", KN[L.kind]), "(%.12g,%.12g) row %d pad %d got %.12g want %.12g", c0, c1, k, p, g, d);
    }
  }
}

static void lookup(Ctx& c) { lookupIn(c, 0); }
static void lookupWide(Ctx& c) { lookupIn(c, 1 + (c.idx & 1)); }

// ---------------------------------------------------------------- P17
static void geometry(Ctx& c) {
  Rng& r = c.rng; int wide = c.idx % 4000 == 77 ? 1 : 0;
  Lay L = make(r, -1, 400, wide);
  note(c, L);
  std::unique_ptr<gear::PadRowLayout2D> cl; const gear::PadRowLayout2D* l = L.l.get();
  if (r.chance(.2)) { cl = variant(r, *l); l = cl.get(); }
  static const int types[] = {gear::PadRowLayout2D::RECTANGULARPADROWLAYOUT, gear::PadRowLayout2D::FIXEDPADSIZEDISKLAYOUT, gear::PadRowLayout2D::FIXEDPADANGLEDISKLAYOUT, gear::PadRowLayout2D::VERSATILEDISKROWLAYOUT};
  c.eqi(l->getPadLayoutImplType(), types[L.kind], "impl-type");
  c.eqi(l->getCoordinateType(), L.polar ? gear::PadRowLayout2D::POLAR : gear::PadRowLayout2D::CARTESIAN, "coordinate-type");
  c.eqi(l->getPadLayoutType(), l->getCoordinateType(), "layout-type");
  c.eqi(l->getPadShape(), gear::PadRowLayout2D::RECTANGLE, "shape");
  const std::vector<double>& e = l->getPlaneExtent();
  if (!c.eqi(e.size(), 4, "extent-size")) return;
  for (int i = 0; i < 4; ++i) if (!std::isnan(L.ext[i])) c.near(e[i], L.ext[i], 1e-9, fmt("extent%d-%s", i, KN[L.kind]));
  if (std::isnan(L.ext[2])) c.near(e[3] - e[2], 2 * M_PI, 1e-6, "extent-full-circle");
  for (int k = 0; k < (int)L.rows.size(); ++k) {
    const MRow& m = L.rows[k];
    c.near(l->getRowHeight(k), m.whi - m.wlo, 1e-9, "row-height");
    for (int t = 0; t < 6; ++t) {
      int p = t == 0 ? 0 : t == 1 ? m.n - 1 : r.range(0, m.n - 1), idx = l->getPadIndex(k, p);
      gear::Vector2D v = l->getPadCenter(idx);
      c.near(v[L.polar ? 0 : 1], m.wc(), 1e-9, "centre-across", "row %d", k);
      c.near(v[L.polar ? 1 : 0], m.uc(p), 1e-9, "centre-along", "row %d pad %d", k, p);
      c.near(l->getPadPitch(idx), m.pitch, 1e-9, "pitch");
      c.near(l->getPadWidth(idx), m.mu, 1e-9, "width");
      c.near(l->getPadHeight(idx), L.kind == FANGLE ? m.whi - m.wlo : m.mw, 1e-9, "height");
      c.chk(l->getPadWidth(idx) <= l->getPadPitch(idx) * (1 + 1e-9) && l->getPadHeight(idx) <= l->getRowHeight(k) * (1 + 2e-2), "pad-in-cell");
      c.chk(l->isInsidePad(v[0], v[1], idx) && l->isInsidePad(v[0], v[1]), "centre-inside", "row %d pad %d", k, p);
      c.eqi(l->getNearestPad(v[0], v[1]), idx, "centre-nearest", "row %d pad %d", k, p);
      c.chk(v[0] >= e[0] - 1e-6 && v[0] <= e[1] + 1e-6, "centre-in-extent0", "row %d pad %d", k, p);
      if (!(L.kind == VERS && std::isnan(L.ext[2]))) c.chk(v[1] >= e[2] - 1e-6 && v[1] <= e[3] + 1e-6, "centre-in-extent1", "row %d pad %d", k, p);
    }
  }
}

MON_WORKLOAD("P14", "indices", indices, 12000, 120000)
MON_WORKLOAD("P14", "indices-wide", indicesWide, 80, 1600)
MON_WORKLOAD("P14", "global-index", globalIndex, 2400, 24000)
MON_WORKLOAD("P14", "growing", growing, 2400, 24000)
MON_WORKLOAD("P15", "neighbours", neighbours, 24000, 240000)
MON_WORKLOAD("P15", "neighbours-wide", neighboursWide, 240, 2400)
MON_WORKLOAD("P16", "lookup", lookup, 24000, 240000)
MON_WORKLOAD("P16", "lookup-wide", lookupWide, 240, 2400)
MON_WORKLOAD("P17", "geometry", geometry, 24000, 240000)
