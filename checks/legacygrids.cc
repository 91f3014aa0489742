// L01: legacy grid coordinates.  Positions of the grid points of each projection, against the
// projection's definition in double precision, and the inverse transformations.
#include "vh.h"
using namespace vh;
extern "C" {
void llfxy_(float *dlat, float *dlon, float *x, float *y, float *d60, float *dgrw, int32_t *nhem);
void xyfll_(float *x, float *y, float *dlat, float *dlon, float *d60, float *dgrw, int32_t *nhem);
void grll_(float *, float *, int32_t *, int32_t *, float *, float *, float *, float *);
void grps_(float *, float *, int32_t *, int32_t *, float *, float *, float *, float *, int32_t *);
void grlcc_(float *, float *, int32_t *, int32_t *, float *, float *, float *, float *, float *);
void xyflcc_(float *x, float *y, float *lat, float *lon, float *p1, float *p2, float *l0, float *ds, float *nhem);
void lccfxy_(float *x, float *y, float *lat, float *lon, float *p1, float *p2, float *l0, float *ds, float *nhem);
void grgg_(float *, float *, int32_t *, int32_t *, float *, int32_t *);
void dgauss_(int32_t *, float *, int32_t *);
void ordleg_(float *, float *, int32_t *);
void ordleg8_(double *, double *, int32_t *);
void mscale_(float *, float *, float *, float *, int32_t *, int32_t *);
void coriol_(float *, float *, float *, float *, int32_t *, int32_t *);
}
static const double R2D = 180 / M_PI, D2R = M_PI / 180;
static double circ(double a, double b) { double d = std::fmod(std::fabs(a - b), 360.); return std::min(d, 360. - d); }
// array with guards on both sides
struct Guard {
  std::vector<float> b; size_t n; float pat;
  explicit Guard(size_t n_, float p = -777.25f) : b(n_ + 128, p), n(n_), pat(p) {}
  float *p() { return b.data() + 64; }
  bool intact() const { for (int i = 0; i < 64; i++) if (b[i] != pat || b[64 + n + i] != pat) return false; return true; }
};
static void refll(double x, double y, double d60, double dgrw, int hem, double &lat, double &lon) {
  double re = 1.866025 * 6.371e6 / d60, r2 = x * x + y * y;
  lat = 90; lon = 0;
  if (x || y) { lat = 90 - 2 * R2D * std::atan2(std::sqrt(r2), re); lon = std::atan2(y, x) * R2D - dgrw; }
  if (hem == 2) { lat = -lat; lon = -lon; }
}
// error of the latitude that single precision allows: asin(v) for v near 1
static double lattol(double lat) { return std::min(.04, 2.5e-7 * R2D / std::max(1e-12, std::cos(lat * D2R))) + 2e-5; }
// error on the longitude: as a displacement, in degrees of arc
static bool lonok(double got, double want, double lat) { return circ(got, want) <= 1.5e-4 || std::fabs(lat) > 89.9999; }

static double legendre(int n, double x) { double a = 1, b = x; if (!n) return 1; for (int k = 1; k < n; k++) { double c = ((2 * k + 1) * x * b - k * a) / (k + 1); a = b; b = c; } return b; }
static std::vector<double> roots(int n) {  // decreasing
  std::vector<double> r(n);
  for (int i = 0; i < n; i++) {
    double x = std::cos(M_PI * (i + .75) / (n + .5));
    for (int k = 0; k < 100; k++) { double p = legendre(n, x), q = legendre(n - 1, x), d = n * (x * p - q) / (x * x - 1), e = p / d; x -= e; if (std::fabs(e) < 1e-15) break; }
    r[i] = x;
  }
  return r;
}
static const char *HEM[] = {"global", "north", "south"};

int main(int argc, char **argv) {
  init(argc, argv);
  const float D60[] = {1000.f, 25000.f, 190500.f, 381000.f, 2000000.f};
  const float DGRW[] = {-180.f, -75.5f, 0.f, 10.f, 90.f, 247.3f, 350.f, 359.99f};
  const int HALF = thorough ? 60 : 24;
  for (float d60 : D60) for (float dgrw : DGRW) for (int32_t hem = 1; hem <= 2; hem++) {
    if (!begin("polar stereographic %s, %g m, %g degrees: positions to latitude and longitude and back", HEM[hem], d60, dgrw)) continue;
    for (int i = -HALF; i <= HALF; i++) for (int j = -HALF; j <= HALF; j++) for (int sc = 0; sc < 2; sc++) {
      float x = sc ? i * .5f : i * 7.25f, y = sc ? j * .5f : j * 7.25f, x0 = x, y0 = y, la = -9, lo = -9, d = d60, g = dgrw; int32_t h = hem;
      trans(); llfxy_(&la, &lo, &x, &y, &d, &g, &h);
      if (x != x0 || y != y0 || d != d60 || g != dgrw || h != hem) { fail("(%g,%g): llfxy changed its input", x0, y0); break; }
      double rla, rlo; refll(x, y, d60, dgrw, hem, rla, rlo);
      eval(); state(hash(&la, 4) ^ hash(&lo, 4) * 3);
      if (!(std::fabs(la - rla) <= lattol(rla))) { fail("(%g,%g) is at latitude %.7g, got %.7g", x, y, rla, la); break; }
      if ((x || y) && !(circ(lo, rlo) <= 1e-4)) { fail("(%g,%g) is at longitude %.7g, got %.7g", x, y, rlo, lo); break; }
      if (!(lo >= -180.0001 && lo <= 180.0001)) { fail("(%g,%g): longitude %g is not between -180 and 180", x, y, lo); break; }
      // back from the exact position
      float a = rla, b = rlo, X = -9, Y = -9, a0 = a, b0 = b;
      trans(); xyfll_(&X, &Y, &a, &b, &d, &g, &h);
      if (a != a0 || b != b0 || d != d60 || g != dgrw || h != hem) { fail("(%g,%g): xyfll changed its input", x0, y0); break; }
      double re = 1.866025 * 6.371e6 / d60, r = std::hypot(x, y);
      // R = re*sqrt((1-s)/(1+s)): an error e on s displaces by re^2*e/(r*(1+s)^2)
      double s = std::sin(std::fabs(rla) * D2R) * (hem == 2 ? -1 : 1) * (rla < 0 ? -1 : 1);
      double tol = re * std::min(6e-4, 3e-7 / (1 + s) / (1 + s) / std::max(1e-9, r / re)) + 2e-5 * r + 1e-4 + re * 4e-6 / (1 + s);
      eval();
      if (!(std::fabs(X - x) <= tol && std::fabs(Y - y) <= tol)) { fail("latitude %.7g longitude %.7g is point (%g,%g), got (%g,%g), tolerance %g", a, b, x, y, X, Y, tol); break; }
    }
    outcome(HEM[hem]);
  }

  const int NM = thorough ? 14 : 7;
  for (int32_t ni = 1; ni <= NM; ni++) for (int32_t nj = 1; nj <= NM; nj++) {
    if (begin("lat-lon grids of %d x %d", ni, nj)) for (float la0 : {-90.f, -12.25f, 60.f}) for (float lo0 : {-20.f, 0.f, 300.f, 359.5f}) for (float dla : {.25f, 10.f, -3.f}) for (float dlo : {.5f, 30.f, -7.f}) {
      Guard la(ni * nj), lo(ni * nj); float a = la0, b = lo0, c = dla, d = dlo; int32_t i = ni, j = nj;
      trans(); grll_(la.p(), lo.p(), &i, &j, &a, &b, &c, &d);
      eval(); state(hash(la.p(), 4 * ni * nj) ^ hash(lo.p(), 4 * ni * nj) * 7);
      if (!la.intact() || !lo.intact()) { fail("writes outside its arrays"); break; }
      bool ok = true;
      for (int y = 0; ok && y < nj; y++) for (int x = 0; ok && x < ni; x++) {
        double A = la0 + (double)y * dla, B = lo0 + (double)x * dlo; float ga = la.p()[y * ni + x], gb = lo.p()[y * ni + x];
        if (!(std::fabs(ga - A) <= 1e-4) || !(circ(gb, B) <= 1e-4) || !(gb > -360 && gb < 360)) { fail("origin %g,%g steps %g,%g: point (%d,%d) is at %g,%g, got %g,%g", la0, lo0, dla, dlo, x + 1, y + 1, A, B, ga, gb); ok = false; }
      }
      outcome("lat-lon");
    }
    if (begin("polar stereographic grids of %d x %d", ni, nj)) for (float pi : {1.f, 3.5f, -8.f, 4.f}) for (float pj : {2.f, 2.5f, 20.f}) for (float d60 : {25000.f, 381000.f}) for (float dg : {-10.f, 0.f, 247.3f}) for (int32_t hem = 1; hem <= 2; hem++) {
      Guard la(ni * nj), lo(ni * nj); float a = pi, b = pj, c = d60, d = dg; int32_t i = ni, j = nj, h = hem;
      trans(); grps_(la.p(), lo.p(), &i, &j, &a, &b, &c, &d, &h);
      eval(); state(hash(la.p(), 4 * ni * nj) ^ hash(lo.p(), 4 * ni * nj) * 7);
      if (!la.intact() || !lo.intact()) { fail("writes outside its arrays"); break; }
      bool ok = true;
      for (int y = 0; ok && y < nj; y++) for (int x = 0; ok && x < ni; x++) {
        double A, B; refll(x + 1 - pi, y + 1 - pj, d60, dg, hem, A, B); float ga = la.p()[y * ni + x], gb = lo.p()[y * ni + x];
        bool pole = x + 1 == pi && y + 1 == pj;
        if (!(std::fabs(ga - A) <= lattol(A)) || (!pole && !(circ(gb, B) <= 1e-4)) || !(gb >= 0 && gb <= 360)) { fail("pole (%g,%g), %g m, %g degrees, %s: point (%d,%d) is at %g,%g, got %g,%g", pi, pj, d60, dg, HEM[hem], x + 1, y + 1, A, B, ga, gb); ok = false; }
        }
      outcome("polar stereographic");
    }
    if (begin("map scale and Coriolis parameter on grids of %d x %d", ni, nj)) for (float pi : {1.f, 3.5f, -8.f}) for (float pj : {2.f, 20.f}) for (float d60 : {25000.f, 381000.f}) {
      Guard m(ni * nj), f(ni * nj); float a = pi, b = pj, c = d60; int32_t i = ni, j = nj;
      trans(2); mscale_(m.p(), &c, &a, &b, &i, &j); coriol_(f.p(), &c, &a, &b, &i, &j);
      eval();
      if (!m.intact() || !f.intact()) { fail("writes outside its arrays"); break; }
      bool ok = true;
      for (int y = 0; ok && y < nj; y++) for (int x = 0; ok && x < ni; x++) {
        double A, B; refll(x + 1 - pi, y + 1 - pj, d60, 0, 1, A, B); double s = std::sin(A * D2R), w = 1.866025 / (1 + s), cf = 1.458e-4 * s;
        if (!(std::fabs(m.p()[y * ni + x] - w) <= 1e-5 * w)) { fail("pole (%g,%g), %g m: the map scale at (%d,%d) is %g, got %g", pi, pj, d60, x + 1, y + 1, w, m.p()[y * ni + x]); ok = false; }
        else if (!(std::fabs(f.p()[y * ni + x] - cf) <= 1e-9)) { fail("pole (%g,%g), %g m: the Coriolis parameter at (%d,%d) is %g, got %g", pi, pj, d60, x + 1, y + 1, cf, f.p()[y * ni + x]); ok = false; }
      }
      outcome("map scale");
    }
  }

  // Lambert conformal
  struct P { float p1, p2; }; const P par[] = {{60, 30}, {45, 44}, {77, 23}, {25, 60}, {20, 5}};
  for (auto q : par) for (float l0 : {-100.f, 0.f, 260.f}) for (float ds : {1000.f, 50000.f}) {
    double s1 = std::sin(q.p1 * D2R), s2 = std::sin(q.p2 * D2R), c1 = std::cos(q.p1 * D2R), c2 = std::cos(q.p2 * D2R);
    double A = std::log(c1 / c2), B = std::log((1 + s2) / (1 + s1)), al = A / (A + B), r0 = 6371100. * c1 * std::pow((1 + s1) / c1, al) / al / ds;
    if (begin("Lambert conformal, parallels %g %g, meridian %g, %g m: both directions", q.p1, q.p2, l0, ds)) {
      for (int ilat = -30; ilat <= 85; ilat += thorough ? 1 : 5) for (int ilon = -170; ilon <= 170; ilon += thorough ? 2 : 10) {
        float la = ilat + .25f, lo = l0 + ilon, X = -9, Y = -9, p1 = q.p1, p2 = q.p2, m = l0, d = ds, one = 1;
        double r = r0 * std::pow(std::cos(la * D2R) / (1 + std::sin(la * D2R)), al), x = r * std::sin(al * ilon * D2R), y = -r * std::cos(al * ilon * D2R);
        trans(); xyflcc_(&X, &Y, &la, &lo, &p1, &p2, &m, &d, &one);
        eval(); state(hash(&X, 4) ^ hash(&Y, 4) * 3);
        double t = 4e-5 * r + 1e-3;
        if (!(std::fabs(X - x) <= t && std::fabs(Y - y) <= t)) { fail("latitude %g, %d degrees east of the meridian, is at (%g,%g), got (%g,%g)", la, ilon, x, y, X, Y); break; }
        float fx = x, fy = y, a = -9, b = -9;
        trans(); lccfxy_(&fx, &fy, &a, &b, &p1, &p2, &m, &d, &one);
        eval();
        if (!(std::fabs(a - la) <= 2e-3 && circ(b, lo) <= 2e-3)) { fail("(%g,%g) is at %g,%g, got %g,%g", fx, fy, la, lo, a, b); break; }
      }
      outcome("Lambert conformal");
    }
    for (int32_t ni = 1; ni <= NM; ni++) for (int32_t nj = 1; nj <= NM; nj++) {
      if (!begin("Lambert conformal grid of %d x %d, parallels %g %g, meridian %g, %g m", ni, nj, q.p1, q.p2, l0, ds)) continue;
      for (float phi0 : {40.f, 10.f, 75.f}) {
        Guard la(ni * nj), lo(ni * nj); float p1 = q.p1, p2 = q.p2, m = l0, p0 = phi0, d = ds; int32_t i = ni, j = nj;
        trans(); grlcc_(la.p(), lo.p(), &i, &j, &p1, &p2, &m, &p0, &d);
        eval(); state(hash(la.p(), 4 * ni * nj) ^ hash(lo.p(), 4 * ni * nj) * 7);
        if (!la.intact() || !lo.intact()) { fail("writes outside its arrays"); break; }
        double yc = -r0 * std::pow(std::cos(phi0 * D2R) / (1 + std::sin(phi0 * D2R)), al); bool ok = true;
        for (int y = 0; ok && y < nj; y++) for (int x = 0; ok && x < ni; x++) {
          double gx = x + 1 - (ni + 1) * .5, gy = yc + y + 1 - (nj + 1) * .5, r = std::hypot(gx, gy);
          double A2 = 90 - 2 * R2D * std::atan(std::pow(r / r0, 1 / al)), B2 = l0 + R2D * std::atan2(gx, -gy) / al; float ga = la.p()[y * ni + x], gb = lo.p()[y * ni + x];
          if (!(std::fabs(ga - A2) <= 4e-3) || !(circ(gb, B2) <= 4e-3)) { fail("centre %g: point (%d,%d) is at %g,%g, got %g,%g", phi0, x + 1, y + 1, A2, B2, ga, gb); ok = false; }
        }
        if (!ok) break;
      }
    }
  }

  // Gaussian latitudes
  const int NG = thorough ? 1000 : 300;
  for (int32_t n = 1; n <= NG; n++) {
    if (!begin("roots of the Legendre polynomial of degree %d", n)) continue;
    describe("the computation did not end");
    auto r = roots(n);
    for (int32_t k = 0; k <= 2; k++) {
      int m = k ? n / 2 + n % 2 : n; int32_t N = n, K = k; Guard g(m);
      trans(); dgauss_(&N, g.p(), &K);
      eval(); state(hash(g.p(), 4 * m));
      if (!g.intact()) { fail("%s: writes outside its %d roots", HEM[k], m); break; }
      bool ok = true;
      for (int i = 0; ok && i < m; i++) { double w = k == 2 ? r[n - m + i] : r[i]; if (!(std::fabs(g.p()[i] - w) <= 2e-6)) { fail("%s: root %d of %d is %.8f, got %.8f", HEM[k], i + 1, m, w, g.p()[i]); ok = false; } }
      if (!ok) break;
      outcome(fmt("roots %s", HEM[k]));
    }
    if (n <= 120) for (int i = -20; i <= 20; i++) {   // the polynomials themselves, normalised to a unit integral
      float x = i * .05f, v = -9; double X = i * .05, V = -9; int32_t N = n;
      ordleg_(&v, &x, &N); ordleg8_(&V, &X, &N); trans(2); eval();
      double w = legendre(n, X) * std::sqrt((2 * n + 1) / 2.), t = 3e-6 * n * std::sqrt(n);
      if (!(std::fabs(v - w) <= t + 2e-4 * n * std::sqrt(std::sqrt((double)n)) * (std::fabs(i) == 20))) { fail("P(%d) at %g is %g, got %g", n, X, w, v); break; }
      if (!(std::fabs(V - w) <= 1e-9 * n * n)) { fail("P(%d) at %g in double precision is %.12g, got %.12g", n, X, w, V); break; }
    }
  }
  for (int32_t nj = 1; nj <= (thorough ? 200 : 48); nj++) for (int32_t k = 0; k <= 2; k++) for (int32_t ni : {1, 4, 7}) {
    if (!begin("Gaussian grid %s, %d x %d", HEM[k], ni, nj)) continue;
    Guard la(ni * nj), lo(ni * nj), rt(nj); int32_t I = ni, J = nj, K = k;
    trans(); grgg_(la.p(), lo.p(), &I, &J, rt.p(), &K);
    eval(); state(hash(la.p(), 4 * ni * nj));
    if (!la.intact() || !lo.intact() || !rt.intact()) { fail("writes outside its arrays"); continue; }
    auto r = roots(k ? 2 * nj : nj); bool ok = true;
    for (int y = 0; ok && y < nj; y++) for (int x = 0; ok && x < ni; x++) {
      double A = std::asin(k == 0 ? r[nj - 1 - y] : k == 1 ? r[nj - 1 - y] : r[2 * nj - 1 - y]) * R2D, B = x * 360. / ni; float ga = la.p()[y * ni + x], gb = lo.p()[y * ni + x];
      if (!(std::fabs(ga - A) <= lattol(A) * 10) || !(std::fabs(gb - B) <= 1e-3)) { fail("point (%d,%d) is at %g,%g, got %g,%g", x + 1, y + 1, A, B, ga, gb); ok = false; }
    }
    outcome(fmt("Gaussian %s", HEM[k]));
  }
  return done();
}
