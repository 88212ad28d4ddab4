// P27: vector algebra
#include "mon.h"
#include "gear/GEAR.h"
#include "gearimpl/Vector3D.h"
#include "gearimpl/Vectors.h"
#include <CLHEP/Vector/ThreeVector.h>
using namespace mon;
using gear::Vector3D;

struct FV { float a, b, c; float x() const { return a; } float y() const { return b; } float z() const { return c; } };
struct DV { double a, b, c; DV(double A, double B, double C) : a(A), b(B), c(C) {} double x() const { return a; } double y() const { return b; } double z() const { return c; } };

static double comp(Rng& r) {
  switch (r.range(0, 7)) {
    case 0: return 0.;
    case 1: return (double)r.range(-3, 3);
    case 2: return r.sgn() * r.logu(1e-12, 1e12);
    default: return r.sgn() * r.logu(1e-3, 1e4);
  }
}
typedef long double L;

static void checkDerived(Ctx& c, const Vector3D& v, L x, L y, L z, const char* how) {
  L sc = 1e-300L + sqrtl(x * x + y * y + z * z);
  auto rel = [&](double g, L w, const char* k) { c.ev(k); if (fabsl(g - w) > 1e-12L * sc) c.violation(k, fmt("%s got %.17g want %.17Lg", how, g, w)); };
  rel(v.x(), x, "x"); rel(v.y(), y, "y"); rel(v.z(), z, "z");
  Vector3D nc(v);
  rel(nc.x(), x, "x-nonconst"); rel(nc.y(), y, "y-nonconst"); rel(nc.z(), z, "z-nonconst");
  rel(v.rho(), sqrtl(x * x + y * y), "rho"); rel(v.trans(), sqrtl(x * x + y * y), "trans");
  rel(v.r(), sqrtl(x * x + y * y + z * z), "r");
  c.ev("r2"); if (fabsl(v.r2() - sc * sc) > 1e-12L * sc * sc + 1e-300L) c.violation("r2", how);
  c.ev("trans2"); if (fabsl(v.trans2() - (x * x + y * y)) > 1e-12L * sc * sc + 1e-300L) c.violation("trans2", how);
  // angles compared as directions: sin/cos so no branch is imposed at +-pi, plus the principal range
  L t = sqrtl(v.x() * (L)v.x() + v.y() * (L)v.y());
  if (t > 0) {
    c.ev("phi");
    if (fabsl(v.phi() - atan2l(v.y(), v.x())) > 1e-12L && fabsl(fabsl(v.phi()) - (L)M_PI) > 1e-12L)
      c.violation("phi", fmt("%s phi %.17g of (%.17g,%.17g)", how, v.phi(), v.x(), v.y()));
    if (fabsl(cosl(v.phi()) * t - v.x()) > 1e-11L * t || fabsl(sinl(v.phi()) * t - v.y()) > 1e-11L * t)
      c.violation("phi", fmt("%s phi %.17g of (%.17g,%.17g)", how, v.phi(), v.x(), v.y()));
  } else { c.ev("phi-origin"); if (v.phi() != 0) c.violation("phi-origin", how); }
  if (v.x() != 0 || v.y() != 0 || v.z() != 0) {
    c.ev("theta");
    if (fabsl(v.theta() - atan2l(t, v.z())) > 1e-12L) c.violation("theta", fmt("%s theta %.17g of rho %.17Lg z %.17g", how, v.theta(), t, v.z()));
  } else { c.ev("theta-origin"); if (v.theta() != 0) c.violation("theta-origin", how); }
}

static std::string shape(double x, double y, double z) {
  auto k = [](double v) { return v == 0 ? std::string("0") : fmt("%c%d", v > 0 ? '+' : '-', (int)std::floor(std::log10(std::fabs(v)))); };
  return k(x) + k(y) + k(z);
}

static void vectors(Ctx& c) {
  Rng& r = c.rng;
  double x = comp(r), y = comp(r), z = comp(r);
  c.describe = fmt("(%.17g,%.17g,%.17g)", x, y, z);
  c.state("cart" + shape(x, y, z));
  checkDerived(c, Vector3D(x, y, z), x, y, z, "xyz");
  checkDerived(c, Vector3D(x, y, z, Vector3D::cartesian), x, y, z, "cartesian");
  double a[3] = {x, y, z};
  checkDerived(c, Vector3D((const double*)a), x, y, z, "double*");
  float f[3] = {(float)x, (float)y, (float)z};
  checkDerived(c, Vector3D((const float*)f), f[0], f[1], f[2], "float*");
  checkDerived(c, Vector3D(FV{f[0], f[1], f[2]}), f[0], f[1], f[2], "foreign");
  checkDerived(c, Vector3D(CLHEP::Hep3Vector(x, y, z)), x, y, z, "CLHEP");
  checkDerived(c, Vector3D(), 0, 0, 0, "default");
  // cylindrical and spherical
  double rho = std::fabs(comp(r)), phi = r.uni(-7, 7), th = r.uni(0, M_PI);
  if (r.chance(0.2)) phi = r.range(-4, 4) * M_PI / 4;
  if (r.chance(0.1)) th = r.range(0, 4) * M_PI / 4;
  c.state("cyl" + shape(rho, phi, z)); c.state("sph" + shape(rho, phi, th));
  Vector3D cy(rho, phi, z, Vector3D::cylindrical);
  checkDerived(c, cy, rho * cosl(phi), rho * sinl(phi), z, "cylindrical");
  if (rho > 0) c.near(cy.rho(), rho, 1e-12, "cylindrical-rho");
  Vector3D sp(rho, phi, th, Vector3D::spherical);
  checkDerived(c, sp, rho * sinl(th) * cosl(phi), rho * sinl(th) * sinl(phi), rho * cosl(th), "spherical");
  c.ev("spherical-r"); if (std::fabs(sp.r() - rho) > 1e-12 * rho) c.violation("spherical-r", c.describe);
  // element access
  Vector3D v(x, y, z); const Vector3D& cv = v;
  for (int i = 0; i < 3; ++i) { c.chk(cv[i] == a[i], "index-read", "%d", i); c.chk(v[i] == a[i], "index-read-nc", "%d", i); }
  double w[3] = {comp(r), comp(r), comp(r)};
  for (int i = 0; i < 3; ++i) { v[i] = w[i]; }
  c.chk(v.x() == w[0] && v.y() == w[1] && v.z() == w[2], "index-write");
  int bad = r.chance(0.5) ? r.range(3, 1000000) : r.range(-1000000, -1);
  c.chk(cv[bad] == 0.0, "index-out-of-range", "%d", bad);
  v[bad] = 4711.;     // must not touch the vector (ASan/UBSan watch the memory)
  c.chk(v.x() == w[0] && v.y() == w[1] && v.z() == w[2], "index-write-out-of-range", "%d", bad);
  // algebra
  Vector3D A(x, y, z), B(w[0], w[1], w[2]);
  double s = comp(r);
  L mA = sqrtl((L)x * x + (L)y * y + (L)z * z), mB = sqrtl((L)w[0] * w[0] + (L)w[1] * w[1] + (L)w[2] * w[2]);
  auto vec = [&](Vector3D g, L gx, L gy, L gz, L sc, const char* k) {
    c.ev(k);
    if (fabsl(g.x() - gx) > 1e-13L * sc || fabsl(g.y() - gy) > 1e-13L * sc || fabsl(g.z() - gz) > 1e-13L * sc)
      c.violation(k, fmt("A=(%.17g,%.17g,%.17g) B=(%.17g,%.17g,%.17g) got (%.17g,%.17g,%.17g)", x, y, z, w[0], w[1], w[2], g.x(), g.y(), g.z()));
  };
  vec(A + B, (L)x + w[0], (L)y + w[1], (L)z + w[2], mA + mB, "sum");
  vec(A - B, (L)x - w[0], (L)y - w[1], (L)z - w[2], mA + mB, "difference");
  vec(s * A, (L)s * x, (L)s * y, (L)s * z, fabsl(s) * mA, "scaling");
  c.ev("dot"); if (fabsl(A.dot(B) - ((L)x * w[0] + (L)y * w[1] + (L)z * w[2])) > 1e-13L * mA * mB) c.violation("dot", c.describe);
  vec(A.cross(B), (L)y * w[2] - (L)z * w[1], (L)z * w[0] - (L)x * w[2], (L)x * w[1] - (L)y * w[0], mA * mB, "cross");
  if (mA > 0) vec(A.unit(), x / mA, y / mA, z / mA, 10, "unit");
  c.chk(A.x() == x && A.y() == y && A.z() == z && B.x() == w[0] && B.y() == w[1] && B.z() == w[2], "operands-unchanged");
  c.chk((A == A) && (A == Vector3D(x, y, z)), "equality-reflexive");
  bool same = x == w[0] && y == w[1] && z == w[2];
  c.chk((A == B) == same, "equality");
  for (int i = 0; i < 3; ++i) {                         // differ in exactly one component
    Vector3D D(A); D[i] = std::nextafter(a[i], 1e300);
    c.chk(!(D == A) && !(A == D), "equality-one-component", "%d", i);
  }
  DV t = A.to<DV>(); c.chk(t.a == x && t.b == y && t.c == z, "to");
  DV t2 = A; c.chk(t2.a == x && t2.b == y && t2.c == z, "conversion");
  CLHEP::Hep3Vector h = A.to<CLHEP::Hep3Vector>(); c.chk(h.x() == x && h.y() == y && h.z() == z, "to-CLHEP");
  // N dimensional vectors
  gear::Vector2D p2(x, y); const gear::Vector2D& cp2 = p2;
  c.chk(p2[0] == x && p2[1] == y && cp2[0] == x && cp2[1] == y, "vec2");
  gear::Vector3D_T<double> p3(x, y, z);
  c.chk(p3[0] == x && p3[1] == y && p3[2] == z, "vec3T");
  gear::VectorND_T<5> p5; bool z5 = true; for (unsigned i = 0; i < 5; ++i) z5 = z5 && p5[i] == 0;
  c.chk(z5, "vecN-zero-init");
  gear::Vector2D d2; gear::Vector3D_T<float> d3;
  c.chk(d2[0] == 0 && d2[1] == 0 && d3[0] == 0 && d3[1] == 0 && d3[2] == 0, "vec-default-zero");
  p5[3] = x; p5[4] = y; c.chk(p5[3] == x && p5[4] == y && p5[0] == 0 && p5[2] == 0, "vecN-write");
  gear::Point2D q2(y, z); p2 = q2; c.chk(p2[0] == y && p2[1] == z, "vec2-assign");
  unsigned ob = r.chance(0.5) ? 2u + (unsigned)r.range(0, 5) : (unsigned)-r.range(1, 5);
  c.chk(thrown([&] { (void)p2[ob]; }) == "std::out_of_range", "vec2-index-refused", "%u", ob);
  c.chk(thrown([&] { (void)cp2[ob]; }) == "std::out_of_range", "vec2-index-refused-const", "%u", ob);
  c.chk(thrown([&] { p2[ob] = 1; }) == "std::out_of_range", "vec2-write-refused", "%u", ob);
  unsigned ob3 = r.chance(0.5) ? 3u + (unsigned)r.range(0, 5) : (unsigned)-r.range(1, 5);
  const gear::Vector3D_T<double>& cp3 = p3;
  c.chk(thrown([&] { (void)p3[ob3]; }) == "std::out_of_range" && thrown([&] { (void)cp3[ob3]; }) == "std::out_of_range", "vec3T-index-refused", "%u", ob3);
  unsigned ob5 = r.chance(0.5) ? 5u + (unsigned)r.range(0, 5) : (unsigned)-r.range(1, 5);
  c.chk(thrown([&] { (void)p5[ob5]; }) == "std::out_of_range", "vecN-index-refused", "%u", ob5);
  // printed form carries the components and derived quantities
  std::ostringstream os; os.precision(17); os << A;
  std::vector<double> nums; const std::string str = os.str();
  for (const char* q = str.c_str(); *q;) { char* e; double d = strtod(q, &e); if (e != q) { nums.push_back(d); q = e; } else ++q; }
  c.chk(nums.size() >= 7 && nums[0] == x && nums[1] == y && nums[2] == z && std::fabs(nums[4] - A.rho()) <= 1e-9 * (1e-300 + A.r()) &&
        std::fabs(nums[6] - A.r()) <= 1e-9 * (1e-300 + A.r()) && std::fabs(nums[3] - A.phi()) < 1e-9 && std::fabs(nums[5] - A.theta()) < 1e-9, "printed", "%s", str.c_str());
}
MON_WORKLOAD("P27", "vectors", vectors, 80000, 2000000)
