// L02: values and winds extracted at a point of the legacy grids, and cross-sections, against tensor
// cubic interpolation in double precision over the field extended across the poles and the equator.
#include "vh.h"
using namespace vh;
extern "C" {
float bilin_(float *z, int32_t *ni, int32_t *nj, float *x, float *y, int32_t *ok);
void coupe_(float *r, int32_t *np, float *z, int32_t *ni, int32_t *nj, float *x1, float *y1, float *x2, float *y2, int32_t *ok);
float sll_(float *lon, float *phi, float *f, int32_t *li, int32_t *lj, float *la0, float *lo0, float *dla, float *dlo);
float sps_(float *lon, float *phi, float *f, int32_t *li, int32_t *lj, float *pi, float *pj, float *d60, float *dgrw, int32_t *hem);
void vll_(float *s, float *psi, float *lon, float *phi, float *u, float *v, int32_t *li, int32_t *lj, float *la0, float *lo0, float *dla, float *dlo);
float sglo_(float *lon, float *phi, float *f, int32_t *li, int32_t *lj);
float ssnh_(float *lon, float *phi, float *f, int32_t *li, int32_t *lj);
float sanh_(float *lon, float *phi, float *f, int32_t *li, int32_t *lj);
float sglogg_(float *g, int32_t *li, int32_t *lj, float *roots, float *lon, float *phi);
float ssnhgg_(float *g, int32_t *li, int32_t *lj, float *roots, float *lon, float *phi);
float sanhgg_(float *g, int32_t *li, int32_t *lj, float *roots, float *lon, float *phi);
void vglo_(float *s, float *psi, float *lon, float *phi, float *u, float *v, int32_t *li, int32_t *lj);
void vwnh_(float *s, float *psi, float *lon, float *phi, float *u, float *v, int32_t *li, int32_t *lj);
void vglogg_(float *s, float *psi, float *lon, float *phi, float *u, float *v, int32_t *li, int32_t *lj, float *roots);
void vwnhgg_(float *s, float *psi, float *lon, float *phi, float *u, float *v, int32_t *li, int32_t *lj, float *roots);
void xyfll_(float *x, float *y, float *dlat, float *dlon, float *d60, float *dgrw, int32_t *nhem);
}
static const double R2D = 180 / M_PI, D2R = M_PI / 180;
static std::vector<float> field(int n, unsigned s) { std::vector<float> f(n); uint32_t x = 12345 + 977 * s; for (auto &v : f) { x = x * 1664525u + 1013904223u; v = (int)(x >> 16) / 32768.f - 1; } return f; }
// Lagrange weights of 4 nodes
static void lagr(const double *n, double x, double *w) { for (int i = 0; i < 4; i++) { w[i] = 1; for (int k = 0; k < 4; k++) if (k != i) w[i] *= (x - n[k]) / (n[i] - n[k]); } }
static void lagru(int i0, double x, double *w) { double n[4] = {i0 - 1., (double)i0, i0 + 1., i0 + 2.}; lagr(n, x, w); }
static double legendre(int n, double x) { double a = 1, b = x; if (!n) return 1; for (int k = 1; k < n; k++) { double c = ((2 * k + 1) * x * b - k * a) / (k + 1); a = b; b = c; } return b; }
static std::vector<double> roots(int n) {
  std::vector<double> r(n);
  for (int i = 0; i < n; i++) { double x = std::cos(M_PI * (i + .75) / (n + .5)); for (int k = 0; k < 100; k++) { double p = legendre(n, x), q = legendre(n - 1, x), e = p * (x * x - 1) / (n * (x * p - q)); x -= e; if (std::fabs(e) < 1e-15) break; } r[i] = x; }
  return r;
}
// a field on circles, extended across the poles (half a turn) and the equator (sign)
struct Circles {
  int li, lj, nl; double sign; const std::vector<float> &f;
  // value, and column and row it comes from
  double at(int i, int j, int *ii = nullptr, bool *mirror = nullptr) const {
    if (j < 1) { j = 1 - j; i += li / 2; }
    if (j > nl) { j = 2 * nl + 1 - j; i += li / 2; }
    double s = 1;
    if (mirror) *mirror = j > lj;
    if (j > lj) { j = 2 * lj + 1 - j; s = sign; }
    i = ((i - 1) % li + li) % li;
    if (ii) *ii = i;
    return s * f[(j - 1) * li + i];
  }
};
static bool same(std::vector<float> &a, const std::vector<float> &b) { return !memcmp(a.data(), b.data(), 4 * a.size()); }
static const char *NAME[] = {"global", "symmetric hemisphere", "antisymmetric hemisphere"};

// rows used at a position, and their weights
struct Rows { int j0; double w[4]; };
static Rows uniform(double phi, int nl) { double off = 90. / nl, y = 1 + (phi - off) / (2 * off); Rows r; r.j0 = (int)std::floor(y); lagru(r.j0, y, r.w); return r; }
static Rows gauss(double phi, const std::vector<double> &rt) {
  int nl = rt.size(); double mu = std::cos(phi * D2R); Rows r; r.j0 = 0;
  while (r.j0 < nl && rt[r.j0] >= mu) r.j0++;
  double n[4];
  for (int k = 0; k < 4; k++) { int j = r.j0 - 1 + k; n[k] = j < 1 ? 2 - rt[-j] : j > nl ? -2 - rt[2 * nl - j] : rt[j - 1]; }
  lagr(n, mu, r.w);
  return r;
}
// wind on the polar-stereographic plane aligned with Greenwich
static void plane(const Circles &u, const Circles &v, int i, int j, double &a, double &b) {
  int ii; bool m; double U = u.at(i, j, &ii, &m), V = v.at(i, j); double l = ii * 2 * M_PI / u.li;
  a = -std::sin(l) * U - std::cos(l) * V; b = std::cos(l) * U - std::sin(l) * V;
}

int main(int argc, char **argv) {
  init(argc, argv);
  const int NM = thorough ? 8 : 6;
  for (int32_t ni = 2; ni <= NM; ni++) for (int32_t nj = 2; nj <= NM; nj++) {
    if (!begin("bilinear values and cross-sections of %d x %d", ni, nj)) continue;
    auto z = field(ni * nj, ni * 7 + nj), z0 = z; int32_t I = ni, J = nj;
    auto ref = [&](double x, double y) { int i = std::min((int)x, ni - 1), j = std::min((int)y, nj - 1); double a = x - i, b = y - j; auto v = [&](int p, int q) { return (double)z[(q - 1) * ni + p - 1]; }; return (1 - a) * (1 - b) * v(i, j) + a * (1 - b) * v(i + 1, j) + (1 - a) * b * v(i, j + 1) + a * b * v(i + 1, j + 1); };
    auto in = [&](double x, double y) { return x >= 1 && x <= ni && y >= 1 && y <= nj; };
    for (int a = 0; a <= 4 * (ni + 1); a++) for (int b = 0; b <= 4 * (nj + 1); b++) for (int was = 0; was < 2; was++) {
      float x = a * .25f, y = b * .25f; int32_t ok = was;
      trans(); float r = bilin_(z.data(), &I, &J, &x, &y, &ok);
      bool w = was && in(x, y); eval(); state(hash(&r, 4));
      if ((ok & 1) != w || !(std::fabs(r - (w ? ref(x, y) : 0)) <= 2e-6)) { fail("value at (%g,%g): %g, accepted %d; expected %g, %d", x, y, r, ok, w ? ref(x, y) : 0, w); goto next; }
      outcome(w ? "inside" : "refused");
    }
    for (int np = 2; np <= 5; np++) for (int c = 0; c < 625; c++) {
      int k[4] = {c % 5, c / 5 % 5, c / 25 % 5, c / 125}; auto pos = [](int k, int n) { return k == 0 ? .5f : k == 1 ? 1.f : k == 2 ? (n + 1) * .5f : k == 3 ? (float)n : n + .25f; };
      float x1 = pos(k[0], ni), y1 = pos(k[1], nj), x2 = pos(k[2], ni), y2 = pos(k[3], nj); int32_t n = np, ok = 0; std::vector<float> r(np + 2, -77);
      trans(); coupe_(r.data() + 1, &n, z.data(), &I, &J, &x1, &y1, &x2, &y2, &ok);
      eval(); bool want = true, edge = false;
      for (int i = 0; i < np; i++) {
        double x = x1 + (double)i * (x2 - x1) / (np - 1), y = y1 + (double)i * (y2 - y1) / (np - 1);
        if (std::fabs(x - 1) < 1e-5 || std::fabs(x - ni) < 1e-5 || std::fabs(y - 1) < 1e-5 || std::fabs(y - nj) < 1e-5) { if (np > 3) edge = true; }
        if (edge) break;
        want = want && in(x, y);
        double w = want ? ref(x, y) : 0;
        if (!(std::fabs(r[i + 1] - w) <= 1e-5)) { fail("cross-section of %d points from (%g,%g) to (%g,%g): value %d is %g, expected %g", np, x1, y1, x2, y2, i + 1, r[i + 1], w); goto next; }
      }
      if (r[0] != -77 || r[np + 1] != -77) { fail("cross-section of %d points: writes outside", np); goto next; }
      if (!edge && (ok & 1) != want) { fail("cross-section of %d points from (%g,%g) to (%g,%g): accepted %d, expected %d", np, x1, y1, x2, y2, ok, want); goto next; }
    }
    if (!same(z, z0)) fail("the field is changed");
  next:;
  }

  // limited area: cubic in the grid's coordinates, the four points nearest inside the grid
  auto area = [&](const std::vector<float> &f, int li, int lj, double x, double y) {
    int i = std::min(std::max((int)x, 2), li - 2), j = std::min(std::max((int)y, 2), lj - 2); double wx[4], wy[4], s = 0; lagru(i, x, wx); lagru(j, y, wy);
    for (int b = 0; b < 4; b++) for (int a = 0; a < 4; a++) s += wx[a] * wy[b] * f[(j - 2 + b) * li + i - 2 + a];
    return s;
  };
  const int LM = thorough ? 9 : 6;
  for (int32_t li = 4; li <= LM; li++) for (int32_t lj = 4; lj <= LM; lj++) {
    if (begin("values and winds of a %d x %d lat-lon grid", li, lj)) {
      auto f = field(li * lj, li * 11 + lj), g = field(li * lj, li * 5 + lj + 99), f0 = f, g0 = g;
      for (float la0 : {-30.f, 20.f}) for (float lo0 : {-10.f, 200.f}) for (float dla : {2.f, 7.5f}) for (float dlo : {3.f, 10.f}) for (int a = 0; a <= 4 * (li - 1); a++) for (int b = 0; b <= 4 * (lj - 1); b++) {
        float lon = lo0 + a * .25f * dlo, phi = 90 - (la0 + b * .25f * dla), A = la0, B = lo0, C = dla, D = dlo; int32_t I = li, J = lj;
        trans(); float r = sll_(&lon, &phi, f.data(), &I, &J, &A, &B, &C, &D);
        double x = 1 + ((double)lon - lo0) / dlo, y = 1 + (90. - phi - la0) / dla, w = area(f, li, lj, x, y); eval(); state(hash(&r, 4));
        if (!(std::fabs(r - w) <= 2e-4)) { fail("origin %g,%g steps %g,%g: value at (%g,%g) is %g, got %g", la0, lo0, dla, dlo, x, y, w, r); goto n1; }
        float s = -9, psi = -9; trans(); vll_(&s, &psi, &lon, &phi, f.data(), g.data(), &I, &J, &A, &B, &C, &D);
        double u = w, v = area(g, li, lj, x, y), l = lon * D2R, pu = -std::sin(l) * u - std::cos(l) * v, pv = std::cos(l) * u - std::sin(l) * v; eval();
        if (!(std::fabs(s * std::cos(psi * D2R) - pu) <= 4e-4 && std::fabs(s * std::sin(psi * D2R) - pv) <= 4e-4 && psi >= 0 && psi <= 360)) { fail("origin %g,%g steps %g,%g: the wind at (%g,%g) is (%g,%g), got speed %g direction %g", la0, lo0, dla, dlo, x, y, pu, pv, s, psi); goto n1; }
        outcome("lat-lon");
      }
      if (!same(f, f0) || !same(g, g0)) fail("a field is changed");
    n1:;
    }
    if (begin("values of a %d x %d polar stereographic grid", li, lj)) {
      auto f = field(li * lj, li * 13 + lj), f0 = f;
      for (float pi : {2.25f, -4.f}) for (float pj : {3.5f, 9.f}) for (float dg : {0.f, 247.f}) for (int32_t hem = 1; hem <= 2; hem++) for (int a = 0; a <= 4 * (li - 1); a++) for (int b = 0; b <= 4 * (lj - 1); b++) {
        double X = 1 + a * .25 - pi, Y = 1 + b * .25 - pj, re = 1.866025 * 6.371e6 / 381000., la = 90 - 2 * R2D * std::atan2(std::hypot(X, Y), re), lo = std::atan2(Y, X) * R2D - dg;
        if (hem == 2) { la = -la; lo = -lo; }
        float lon = lo, phi = 90 - la, d60 = 381000, D = dg, P = pi, Q = pj; int32_t I = li, J = lj, H = hem;
        trans(); float r = sps_(&lon, &phi, f.data(), &I, &J, &P, &Q, &d60, &D, &H);
        double w = area(f, li, lj, 1 + a * .25, 1 + b * .25); eval(); state(hash(&r, 4));
        if (!(std::fabs(r - w) <= 4e-3)) { fail("pole (%g,%g), orientation %g, hemisphere %d: value at (%g,%g) is %g, got %g", pi, pj, dg, hem, 1 + a * .25, 1 + b * .25, w, r); goto n2; }
        outcome("polar stereographic");
      }
      if (!same(f, f0)) fail("the field is changed");
    n2:;
    }
  }

  // whole circles
  for (int32_t li : {4, 6, 8, 10, 14}) for (int32_t lj = 4; lj <= (thorough ? 12 : 7); lj++) for (int kind = 0; kind < 3; kind++) for (int gg = 0; gg < 2; gg++) {
    int nl = kind ? 2 * lj : lj; auto rt = roots(nl);
    auto rows = [&](double phi) { return gg ? gauss(phi, rt) : uniform(phi, nl); };
    std::vector<double> ph;   // colatitudes: between the rows, and near the poles and the equator
    for (int k = 0; k <= 40; k++) ph.push_back(180. * k / 40 + (k == 20 ? .01 : 0));
    for (double p : {.001, .3, 179.7, 179.999, 89.5, 90.5}) ph.push_back(p);
    std::vector<float> lons; for (int k = 0; k < 4 * li; k++) lons.push_back(k * 90.f / li); for (float l : {-180.f, -179.f, -90.f, -30.f, -5.f, -.5f, 359.9f}) lons.push_back(l);
    auto f = field(li * lj, li * 17 + lj * 3 + kind), g = field(li * lj, li * 19 + lj + kind + 55), f0 = f, g0 = g;
    double sg = kind == 2 ? -1 : 1; Circles F{li, lj, nl, sg, f}, U{li, lj, nl, 1, f}, V{li, lj, nl, -1, g};
    auto near = [&](double phi) { if (!gg) { double y = 1 + (phi - 90. / nl) / (180. / nl); return std::fabs(y - std::round(y)) < 1e-4; } double mu = std::cos(phi * D2R); for (double r : rt) if (std::fabs(mu - r) < 1e-5) return true; return false; };
    if (begin("values of %s %d x %d %s grid", kind ? "a" : "the", li, lj, fmt("%s, %s", gg ? "Gaussian" : "lat-lon", NAME[kind]).c_str())) {
      std::vector<float> R(lj + 64, -555.f); for (int i = 0; i < lj; i++) R[32 + i] = lj % 2 ? 0.f : 2.f;
      for (double phd : ph) for (float lon0 : lons) {
        float phi = phd, lon = lon0; int32_t I = li, J = lj; float *r0 = R.data() + 32; bool fresh = phd == ph[3] && lon0 == lons[1];
        if (fresh) for (int i = 0; i < lj; i++) r0[i] = i & 1 ? 3.f : 0.f;   // roots not computed yet
        trans();
        float r = gg ? (kind == 0 ? sglogg_ : kind == 1 ? ssnhgg_ : sanhgg_)(f.data(), &I, &J, r0, &lon, &phi) : (kind == 0 ? sglo_ : kind == 1 ? ssnh_ : sanh_)(&lon, &phi, f.data(), &I, &J);
        double w = 0; Rows q = rows(phi); double x = 1 + (lon0 < 0 ? lon0 + 360. : lon0) * li / 360.; int i0 = (int)x; double wx[4]; lagru(i0, x, wx);
        if (!gg && (phi <= 0 || phi >= 180)) { for (int i = 1; i <= li; i++) w += phi <= 0 ? F.at(i, 1) * 1.125 - F.at(i, 2) * .125 : F.at(i, nl) * 1.125 - F.at(i, nl - 1) * .125; w /= li; }
        else for (int b = 0; b < 4; b++) for (int a = 0; a < 4; a++) w += wx[a] * q.w[b] * F.at(i0 - 1 + a, q.j0 - 1 + b);
        eval(); state(hash(&r, 4)); (void)near;
        if (!(std::fabs(r - w) <= (gg ? 2e-3 : 3e-4))) { fail("longitude %g colatitude %g: the value is %g, got %g", lon0, phi, w, r); goto n3; }
        for (int i = 0; i < 32; i++) if (R[i] != -555.f || R[32 + lj + i] != -555.f) { fail("writes outside the roots of its %d latitudes", lj); goto n3; }
        outcome(fmt("%s %s", gg ? "Gaussian" : "lat-lon", NAME[kind]));
      }
      if (gg) for (int i = 0; i < lj; i++) if (!(std::fabs(R[32 + i] - rt[i]) <= 2e-6)) { fail("root %d is %g, got %g", i + 1, rt[i], R[32 + i]); break; }
      if (!same(f, f0)) fail("the field is changed");
    n3:;
    }
    if (kind < 2 && begin("winds of %s %d x %d %s grid", kind ? "a" : "the", li, lj, fmt("%s, %s", gg ? "Gaussian" : "lat-lon", NAME[kind]).c_str())) {
      std::vector<float> R(lj + 64, -555.f); for (int i = 0; i < lj; i++) R[32 + i] = lj % 2 ? 0.f : 2.f;
      for (double phd : ph) for (float lon0 : lons) {
        float phi = phd, lon = lon0, s = -9, psi = -9; int32_t I = li, J = lj; float *r0 = R.data() + 32;
        trans();
        if (gg) (kind ? vwnhgg_ : vglogg_)(&s, &psi, &lon, &phi, f.data(), g.data(), &I, &J, r0); else (kind ? vwnh_ : vglo_)(&s, &psi, &lon, &phi, f.data(), g.data(), &I, &J);
        double pu = 0, pv = 0, a, b; Rows q = rows(phi); double x = 1 + (lon0 < 0 ? lon0 + 360. : lon0) * li / 360.; int i0 = (int)x; double wx[4]; lagru(i0, x, wx);
        if (phi <= 0 || phi >= 180) { for (int i = 1; i <= li; i++) for (int k = 0; k < 2; k++) { plane(U, V, i, phi <= 0 ? 1 + k : nl - k, a, b); pu += a * (k ? -.125 : 1.125) / li; pv += b * (k ? -.125 : 1.125) / li; } }
        else for (int n = 0; n < 4; n++) for (int m = 0; m < 4; m++) { plane(U, V, i0 - 1 + m, q.j0 - 1 + n, a, b); pu += wx[m] * q.w[n] * a; pv += wx[m] * q.w[n] * b; }
        eval(); state(hash(&s, 4) ^ hash(&psi, 4) * 3);
        double t = gg ? 4e-3 : 6e-4;
        if (!(std::fabs(s * std::cos(psi * D2R) - pu) <= t && std::fabs(s * std::sin(psi * D2R) - pv) <= t && psi >= 0 && (psi <= 360 || s == 0))) { fail("longitude %g colatitude %g: the wind is (%g,%g), got speed %g direction %g", lon0, phi, pu, pv, s, psi); goto n4; }
        for (int i = 0; i < 32; i++) if (R[i] != -555.f || R[32 + lj + i] != -555.f) { fail("writes outside the roots of its %d latitudes", lj); goto n4; }
        outcome(fmt("winds %s %s", gg ? "Gaussian" : "lat-lon", NAME[kind]));
      }
      if (!same(f, f0) || !same(g, g0)) fail("a field is changed");
    n4:;
    }
  }
  return done();
}
