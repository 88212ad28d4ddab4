// Random pad row layouts together with an independent model of their geometry.
#ifndef PADGEN_H
#define PADGEN_H
#include "mon.h"
#include "xmltext.h"
#include "gear/GEAR.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearimpl/VersatileDiskRowLayout.h"
#include <memory>

namespace padgen {
using namespace mon;
enum Kind { RECT = 0, FSIZE = 1, FANGLE = 2, VERS = 3 };

// one row: u is the coordinate along the row (x or phi), w across the rows (y or r)
struct MRow {
  int n; double wlo, whi;         // number of pads, cell limits across
  double u0, pitch;               // start along the row, cell size along
  double mw, mu;                  // size of the sensitive pad area across / along
  double wc() const { return 0.5 * (wlo + whi); }
  double uc(int p) const { return u0 + (p + 0.5) * pitch; }
  double ulo() const { return u0; }
  double uhi() const { return u0 + n * pitch; }
};
struct Lay {
  Kind kind; std::unique_ptr<gear::PadRowLayout2D> l; std::vector<MRow> rows; std::string desc; xt::X xml{"PadRowLayout2D"};
  double ext[4]; bool polar; bool uniformExact; // uniformExact: the nearest pad is the globally nearest one
  int npads() const { int s = 0; for (auto& r : rows) s += r.n; return s; }
  bool full(int row) const { return polar && std::fabs(rows[row].n * rows[row].pitch - 2 * M_PI) < 1e-6; }
};

inline double r6(double x) { return atof(fmt("%.6g", x).c_str()); }

// maxPads: rough limit on the number of pads.  Coordinates are kept to numbers that survive a 10 digit decimal form.
// wide: 1 rows of very many pads, 2 very many rows (pad indices have 16 bits for each).
inline Lay make(Rng& r, int kind = -1, int maxPads = 400, int wide = 0) {
  Lay L;
  auto many = [&](int most) { return std::min(most, r.chance(.3) ? 65536 : r.chance(.3) ? 32768 + r.range(-2, 2) : r.range(20000, 65536)); };
  for (int attempt = 0; attempt < 200; ++attempt) {
    L = Lay();
    L.kind = (Kind)(kind < 0 ? r.range(0, 3) : kind);
    L.polar = L.kind != RECT;
    L.uniformExact = L.polar;
    int maxRow = std::max(1, std::min(60, maxPads / 3)); if (wide == 1) maxRow = 3;
    if (L.kind == RECT) {
      double xmin = r6(r.uni(-1000, 500)), w = r6(r.logu(5, 2000)), ymin = r.chance(.3) ? 0 : r6(r.uni(-1000, 1000));
      double xmax = r6(xmin + w); w = xmax - xmin;
      auto* p = new gear::RectangularPadRowLayout(xmin, xmax, ymin);
      L.l.reset(p);
      L.desc = fmt("Rect(%.9g,%.9g,%.9g)", xmin, xmax, ymin);
      L.xml.at("type", "RectangularPadRowLayout").at("xMin", xmin).at("xMax", xmax).at("yMin", ymin);
      int groups = r.range(1, wide ? 2 : 6); double y = ymin;
      bool offs = r.chance(.4), gaps = r.chance(.5);
      for (int g = 0; g < groups; ++g) {
        int n = r.range(1, r.chance(.5) ? 4 : 12), np = r.range(1, std::max(1, std::min(80, maxPads / 10)));
        if (wide == 1) { n = r.range(1, 2); np = g ? np : many(65536); } else if (wide) { n = many(65536 / groups); np = r.range(1, 3); }
        double lo = offs && r.chance(.6) ? r6(r.uni(0, w * .3)) : 0, ro = offs && r.chance(.6) ? r6(r.uni(0, w * .3)) : 0;
        double x0 = xmin + lo, x1 = xmax - ro, rw = x1 - x0;
        double pw = gaps ? r6(rw / np * r.uni(.3, .99)) : rw / np;
        if (!gaps && np * pw > rw) pw = rw / np * (1 - 1e-15);
        double ph = wide == 2 ? .0625 : r6(r.chance(.2) ? r.logu(.05, 200) : r.logu(1, 20)), rh = r.chance(.4) ? 0 : wide == 2 ? .125 : r6(ph * r.uni(1.01, 2));
        p->addRow(n, np, pw, ph, rh, lo, ro);
        L.desc += fmt(" row(%d,%d,%.9g,%.9g,%.9g,%.9g,%.9g)", n, np, pw, ph, rh, lo, ro);
        { xt::X x("row"); if (n != 1 || r.chance(.5)) x.at("repeat", n); x.at("nPad", np).at("padWidth", pw).at("padHeight", ph);
          if (rh != 0 || r.chance(.5)) x.at("rowHeight", rh); if (lo != 0 || r.chance(.5)) x.at("leftOffset", lo); if (ro != 0 || r.chance(.5)) x.at("rightOffset", ro);
          L.xml.add(x); }
        double h = rh == 0 ? ph : rh;
        for (int i = 0; i < n; ++i) { L.rows.push_back({np, y, y + h, x0, rw / np, ph, pw}); y += h; }
      }
      if (!wide && r.chance(.3)) {
        int k = r.range(1, 4), n0 = L.rows.size();
        p->repeatRows(k);
        L.desc += fmt(" repeat(%d)", k);
        L.xml.at("repeatRows", k);
        for (int j = 1; j < k; ++j) for (int i = 0; i < n0; ++i) {
          MRow m = L.rows[i]; double h = m.whi - m.wlo; m.wlo = y; m.whi = y + h; y += h; L.rows.push_back(m);
        }
      }
      bool same = true;
      for (auto& m : L.rows) if (std::fabs(m.u0 - L.rows[0].u0) > 1e-12 || std::fabs(m.uhi() - L.rows[0].uhi()) > 1e-9 || m.mu < m.pitch * (1 - 1e-12)) same = false;
      L.uniformExact = same;
      double e[4] = {xmin, xmax, ymin, y}; memcpy(L.ext, e, sizeof e);
    } else if (L.kind == FSIZE) {
      double rmin = r6(r.uni(10, 500)), rmax = r6(rmin + r.logu(5, 1500)), ph = r6((rmax - rmin) / r.uni(1.05, maxRow)), pw = r6(r.logu(1, 60)),
             gap = r.chance(.4) ? 0 : r6(r.uni(0, 3)), phimax = r.chance(.4) ? 2 * M_PI : r6(r.uni(.2, 6.2));
      if (wide == 1) { pw = r6(rmax * phimax / many(65400)); gap = r.chance(.5) ? 0 : r6(pw * r.uni(0, .3)); }
      if (wide == 2) { ph = r6((rmax - rmin) / many(65000)); pw = r6(rmin * phimax / r.uni(1.1, 3)); gap = 0; }
      double q = (rmax + 0.01 - rmin) / ph; int nr = (int)q;
      if (nr < 1 || std::fabs(q - std::round(q)) < 1e-6) continue;
      int want = r.chance(.5) ? 0 : r.range(1, nr + 2), n = (want > 0 && want <= nr) ? want : nr;
      double rh = (rmax - rmin) / n; bool ok = true; double pads = 0;
      for (int i = 0; i < n && ok; ++i) {
        double rc = rmin + i * rh + .5 * rh, u = rc * phimax / (pw + gap);
        if (u < 1 || std::fabs(u - std::round(u)) < 1e-6 * u) ok = false;
        int np = (int)std::floor(u); pads += np;
        L.rows.push_back({np, rmin + i * rh, rmin + (i + 1) * rh, 0, phimax / np, ph, pw / rc});
      }
      if (!ok || (!wide && pads > 4 * maxPads)) continue;
      L.l.reset(new gear::FixedPadSizeDiskLayout(rmin, rmax, ph, pw, want, gap, phimax));
      L.desc = fmt("FixedPadSize(%.9g,%.9g,%.9g,%.9g,%d,%.9g,%.12g)", rmin, rmax, ph, pw, want, gap, phimax);
      L.xml.at("type", "FixedPadSizeDiskLayout").at("rMin", rmin).at("rMax", rmax).at("padHeight", ph).at("padWidth", pw).at("maxRow", want).at("padGap", gap);
      if (phimax < 6.28 || r.chance(.5)) L.xml.at("phiMax", phimax);
      double e[4] = {rmin, rmax, 0, phimax}; memcpy(L.ext, e, sizeof e);
    } else if (L.kind == FANGLE) {
      double rmin = r.chance(.15) ? 0 : r6(r.uni(1, 500)), rmax = r6(rmin + r.logu(5, 1500)), p0 = r6(r.uni(-M_PI, 2 * M_PI)),
             p1 = r.chance(.3) ? p0 + 2 * M_PI : r6(p0 + r.uni(.1, 6.2));
      int n = r.range(1, maxRow / 2 + 1), np = r.range(1, std::max(1, maxPads / n)); if (wide == 1) np = many(65536); if (wide == 2) { n = many(65536); np = r.range(1, 3); }
      L.l.reset(new gear::FixedPadAngleDiskLayout(rmin, rmax, n, p0, p1, np));
      for (int i = 0; i < n; ++i) {
        double h = (rmax - rmin) / n;
        L.rows.push_back({np, rmin + i * h, rmin + (i + 1) * h, p0, (p1 - p0) / np, h, (p1 - p0) / np});
      }
      L.desc = fmt("FixedPadAngle(%.9g,%.9g,%d,%.9g,%.12g,%d)", rmin, rmax, n, p0, p1, np);
      L.xml.at("type", "FixedPadAngleDiskLayout").at("rMin", rmin).at("rMax", rmax).at("nRow", n).at("phiMin", p0).at("phiMax", p1).at("nPadsInRow", np);
      double e[4] = {rmin, rmax, p0, p1}; memcpy(L.ext, e, sizeof e);
    } else {
      double rmin = r6(r.uni(5, 500)), R = rmin; int groups = r.range(1, wide ? 2 : 6);
      auto* p = new gear::VersatileDiskRowLayout(rmin);
      L.l.reset(p);
      L.desc = fmt("Versatile(%.9g)", rmin);
      L.xml.at("type", "VersatileDiskRowLayout").at("rMin", rmin);
      double lo = 1e99, hi = -1e99; bool ok = true, allFull = r.chance(.2);
      for (int g = 0; g < groups && ok; ++g) {
        double h = wide == 2 ? .0625 : r6(r.logu(1, 60)), rc = R + h / 2; int rep = r.chance(.5) ? 1 : r.range(1, 5), np = r.range(1, std::max(1, std::min(60, maxPads / 8)));
        if (wide == 1) { rep = r.range(1, 2); np = g ? np : many(65536); } if (wide == 2) { rep = many(65536 / groups); np = r.range(1, 3); }
        double cover = r.uni(.1, 6.1), off = r.chance(.3) ? 0 : r.uni(-3, r.chance(.3) ? 5.5 : 1);
        double pp = r6(cover * rc / np), po = r6(off * rc);
        if (wide != 2 && (allFull || r.chance(.1))) { rep = 1; pp = 2 * M_PI * rc / np * (1 - 4e-9); }
        double pw = r.chance(.3) ? 0 : r6(pp * r.uni(.5, .99)), ph = r.chance(.3) ? 0 : r6(h * r.uni(.5, .99));
        p->addRow(np, pp, h, po, pw, ph, rep);
        L.desc += fmt(" row(%d,%.9g,%.9g,%.9g,%.9g,%.9g,%d)", np, pp, h, po, pw, ph, rep);
        { xt::X x("row"); x.at("nPad", np).at("padPitch", pp).at("rowHeight", h); if (po != 0 || r.chance(.5)) x.at("offset", po);
          if (pw != 0 || r.chance(.5)) x.at("padWidth", pw); if (ph != 0 || r.chance(.5)) x.at("padHeight", ph); if (rep != 1 || r.chance(.5)) x.at("repeat", rep);
          L.xml.add(x); }
        for (int i = 0; i < rep; ++i) {
          double c = R + h / 2;
          L.rows.push_back({np, R, R + h, po / c, pp / c, ph == 0 ? h : ph, (pw == 0 ? pp : pw) / c});
          lo = std::min(lo, po / c); hi = std::max(hi, po / c + np * pp / c); R += h;
        }
      }
      double e[4] = {rmin, R, lo, hi}; memcpy(L.ext, e, sizeof e);
      if (hi - lo > 2 * M_PI * (1 - 1e-9)) { L.ext[2] = NAN; L.ext[3] = NAN; }
    }
    return L;
  }
  return make(r, RECT, maxPads, wide);
}

inline double wrapTo(double phi, double lo) { double d = std::fmod(phi - lo, 2 * M_PI); if (d < 0) d += 2 * M_PI; return lo + d; }

// distance of (w,u) = (r,phi) to the annular sector
inline double sectorDist(double r, double phi, double r0, double r1, double p0, double p1) {
  double p = wrapTo(phi, p0);
  if (p <= p1 || p - 2 * M_PI >= p0 - 1e-13) return r < r0 ? r0 - r : r > r1 ? r - r1 : 0;
  auto edge = [&](double pe) {
    double a = r * std::cos(phi - pe), b = r * std::sin(phi - pe), t = std::min(std::max(a, r0), r1);
    return std::hypot(a - t, b);
  };
  return std::min(edge(p0), edge(p1));
}
inline double boxDist(double x, double y, double x0, double x1, double y0, double y1) {
  double dx = x < x0 ? x0 - x : x > x1 ? x - x1 : 0, dy = y < y0 ? y0 - y : y > y1 ? y - y1 : 0;
  return std::hypot(dx, dy);
}
// distance to pad p of row k as documented: sensitive box (rectangular layout) or pad cell (disk layouts); (c0,c1) in layout coordinates
inline double padDist(const Lay& L, double c0, double c1, int k, int p) {
  const MRow& m = L.rows[k];
  if (!L.polar) return boxDist(c0, c1, m.uc(p) - m.mu / 2, m.uc(p) + m.mu / 2, m.wc() - m.mw / 2, m.wc() + m.mw / 2);
  return sectorDist(c0, c1, m.wlo, m.whi, m.u0 + p * m.pitch, m.u0 + (p + 1) * m.pitch);
}
// signed margin to the sensitive pad area: > 0 inside, < 0 outside, the absolute value is a (scaled) distance from the decision border
inline double padMargin(const Lay& L, double c0, double c1, int k, int p) {
  const MRow& m = L.rows[k];
  double w = L.polar ? c0 : c1, u = L.polar ? c1 : c0;
  double hw = m.mw / 2, hu = m.mu / 2;
  if (L.kind == VERS) { hw = (m.whi - m.wlo) / 2; hu = m.pitch / 2; }   // the whole cell counts
  double du = u - m.uc(p);
  if (L.polar) { du = wrapTo(du, -M_PI); }
  double a = hw - std::fabs(w - m.wc()), b = hu - std::fabs(du);
  if (L.polar) b *= std::max(w, 1e-3);
  return std::min(a, b);
}
// a point in and around the layout
inline void point(Rng& r, const Lay& L, double& c0, double& c1) {
  const MRow& m = L.rows[r.range(0, (int)L.rows.size() - 1)];
  double w, u;
  switch (r.range(0, 4)) {
    case 0: { int p = r.range(0, m.n - 1); w = m.wc() + r.uni(-.6, .6) * (m.whi - m.wlo); u = m.uc(p) + r.uni(-.6, .6) * m.pitch; break; }
    case 1: w = r.chance(.5) ? m.wlo : m.whi; w += r.uni(-1, 1) * .1 * (m.whi - m.wlo); u = m.u0 + r.uni(-.2, 1.2) * m.n * m.pitch; break;
    case 2: { double a = L.rows.front().wlo, b = L.rows.back().whi; w = a + r.uni(-.5, 1.5) * (b - a); u = m.u0 + r.uni(-.8, 1.8) * m.n * m.pitch; break; }
    default: w = r.uni(L.rows.front().wlo, L.rows.back().whi); u = m.u0 + r.uni(-.05, 1.05) * m.n * m.pitch;
  }
  if (L.polar) { if (w < .001) w = .001 + std::fabs(w); if (r.chance(.3)) u += 2 * M_PI * r.range(-2, 2); c0 = w; c1 = u; }
  else { c0 = u; c1 = w; }
}
}  // namespace padgen
#endif
