// K01: spectral transforms.  Fast Fourier transforms of every length, applied to every unit vector,
// against the definition; Gaussian weights; Legendre functions, their derivatives and the transforms.
#include "vh.h"
#include <complex>
using namespace vh;
extern "C" {
void ffft_m4_(float *, int32_t *n, int32_t *inc, int32_t *jump, int32_t *lot, int32_t *isign);
void ffft_m8_(double *, int32_t *n, int32_t *inc, int32_t *jump, int32_t *lot, int32_t *isign);
void setfft4_(int32_t *); void setfft8_(int32_t *); void setfft_m4_(int32_t *); void setfft_m8_(int32_t *);
void ffft4_(float *, int32_t *inc, int32_t *jump, int32_t *lot, int32_t *isign); void ffft8_(double *, int32_t *inc, int32_t *jump, int32_t *lot, int32_t *isign);
void fft_m4_(float *, int32_t *inc, int32_t *jump, int32_t *lot, int32_t *isign); void fft_m8_(double *, int32_t *inc, int32_t *jump, int32_t *lot, int32_t *isign);
void gauss_(int32_t *, float *, float *, float *, float *, float *, float *, float *, float *);
void gauss8_(int32_t *, double *, double *, double *, double *, double *, double *, double *, double *);
void epsil2_(float *, int32_t *lalp, int32_t *lm, int32_t *khem);
void alpnm2_(float *alp, int32_t *lalp, int32_t *lm, float *sinlat, float *epsi, int32_t *khem);
void alpdr2_(float *dalp, float *alp, int32_t *lalp, int32_t *lm, float *sinlat, float *epsi, int32_t *khem);
void alpas2_(float *alp, int32_t *la, int32_t *lrs, int32_t *lra, int32_t *lm, float *wrk);
void dimcal_(int32_t *lrs, int32_t *lra, int32_t *lm, int32_t *la, int32_t *ir, int32_t *khem, int32_t *ntrunc);
void spaf2_(float *cfc, float *sc, int32_t *lr, int32_t *lm, float *alp, int32_t *lalp);
void fasp2_(float *sc, int32_t *lr, int32_t *lm, float *cfc, float *alp, int32_t *lalp, float *weight);
void ewfdr2_(float *af, float *bf, float *cf, int32_t *ilgh, int32_t *ilev, int32_t *lm, float *q, int32_t *ign);
}
// the two precisions
template <class T> struct K;
template <> struct K<float> {
  static constexpr double eps = 3e-7; static const char *name() { return "single"; }
  static void call(int how, float *a, int32_t n, int32_t inc, int32_t jump, int32_t lot, int32_t s) { trans(); if (how == 0) ffft_m4_(a, &n, &inc, &jump, &lot, &s); else if (how == 1) { setfft4_(&n); ffft4_(a, &inc, &jump, &lot, &s); } else { setfft_m4_(&n); fft_m4_(a, &inc, &jump, &lot, &s); } }
};
template <> struct K<double> {
  static constexpr double eps = 1e-14; static const char *name() { return "double"; }
  static void call(int how, double *a, int32_t n, int32_t inc, int32_t jump, int32_t lot, int32_t s) { trans(); if (how == 0) ffft_m8_(a, &n, &inc, &jump, &lot, &s); else if (how == 1) { setfft8_(&n); ffft8_(a, &inc, &jump, &lot, &s); } else { setfft_m8_(&n); fft_m8_(a, &inc, &jump, &lot, &s); } }
};
static std::vector<double> inverse(int n, const double *c) {   // coefficients A0 B0 A1 B1 ... to grid points
  std::vector<double> x(n + 2, 0.);
  for (int j = 0; j < n; j++) { double s = c[0]; for (int k = 1; 2 * k <= n; k++) { double t = 2 * M_PI * ((long)j * k % n) / n; s += (2 * k == n ? 1 : 2) * (c[2 * k] * std::cos(t) - c[2 * k + 1] * std::sin(t)); } x[j] = s; }
  return x;
}
static std::vector<double> forward(int n, const double *x) {
  std::vector<double> c(n + 2, 0.);
  for (int k = 0; 2 * k <= n; k++) for (int j = 0; j < n; j++) { double t = 2 * M_PI * ((long)j * k % n) / n; c[2 * k] += x[j] * std::cos(t) / n; c[2 * k + 1] -= x[j] * std::sin(t) / n; }
  c[1] = 0; if (n % 2 == 0) c[n + 1] = 0;
  return c;
}
// lot vectors in a layout; every element outside them must not change
template <class T> static bool transform(int how, int n, int inc, int jump, const std::vector<std::vector<double>> &v, int sign, const std::vector<std::vector<double>> &want) {
  int lot = v.size(); size_t len = (size_t)(lot - 1) * jump + (size_t)(n + 1) * inc + 1; const T G = (T)-987.5;
  std::vector<T> a(len + 64, G); std::vector<char> used(len + 64, 0);
  int m = sign > 0 && n % 2 ? n + 1 : n + 2;
  for (int l = 0; l < lot; l++) for (int j = 0; j < n + 2; j++) { size_t p = 32 + (size_t)l * jump + (size_t)j * inc; a[p] = v[l][j]; used[p] = 1; }
  (void)m;
  K<T>::call(how, a.data() + 32, n, inc, jump, lot, sign);
  eval();
  for (size_t p = 0; p < a.size(); p++) if (!used[p] && a[p] != G) { fail("%s, %d vectors of %d, increment %d, jump %d, direction %+d: element %ld, outside the vectors, is changed", K<T>::name(), lot, n, inc, jump, sign, (long)p - 32); return false; }
  double tol = K<T>::eps * n * 4; int check = sign > 0 ? n : n % 2 ? n + 1 : n + 2;
  for (int l = 0; l < lot; l++) for (int j = 0; j < check; j++) {
    T g = a[32 + (size_t)l * jump + (size_t)j * inc];
    if (!(std::fabs(g - want[l][j]) <= tol)) { fail("%s, %d vectors of %d, increment %d, jump %d, direction %+d: vector %d, element %d is %.9g, expected %.9g", K<T>::name(), lot, n, inc, jump, sign, l + 1, j + 1, (double)g, want[l][j]); return false; }
  }
  if (sign > 0) for (int l = 0; l < lot; l++) for (int j = n; j < n + 2; j++) if (j == n || n % 2 == 0) { T g = a[32 + (size_t)l * jump + (size_t)j * inc]; if (g != 0) { fail("%s, length %d: location %d after the grid points is %g", K<T>::name(), n, j + 1, (double)g); return false; } }
  state(hash(a.data(), sizeof(T) * std::min<size_t>(a.size(), 64)) ^ n * 31 ^ inc * 7 ^ lot); outcome(fmt("%s %+d", K<T>::name(), sign));
  return true;
}
template <class T> static void lengths(int n) {
  // every unit vector, in both directions
  std::vector<std::vector<double>> g, gs, s, sg;
  for (int k = 0; k < n; k++) { std::vector<double> x(n + 2, 0.); x[k] = 1; g.push_back(x); gs.push_back(forward(n, x.data())); }
  for (int k = 0; k <= n + 1; k++) { if (k == 1 || k / 2 > n / 2 || (n % 2 == 0 && k == n + 1)) continue; std::vector<double> c(n + 2, 0.); c[k] = 1; s.push_back(c); sg.push_back(inverse(n, c.data())); }
  for (int how = 0; how < 3; how++) {
    if (!transform<T>(how, n, 1, n + 2, g, -1, gs) || !transform<T>(how, n, 1, n + 2, s, 1, sg)) return;
  }
  if (!transform<T>(0, n, (int)g.size(), 1, g, -1, gs) || !transform<T>(0, n, (int)s.size(), 1, s, 1, sg)) return;
  if (!transform<T>(0, n, 3, 3 * (n + 2) + 5, g, -1, gs) || !transform<T>(0, n, 3, 3 * (n + 2) + 5, s, 1, sg)) return;
  // numbers of vectors around the slices
  for (int lot : {1, 2, 15, 16, 17, 31, 32, 33, 48, 49}) {
    std::vector<std::vector<double>> a, b; for (int l = 0; l < lot; l++) { a.push_back(g[l * 5 % n]); b.push_back(gs[l * 5 % n]); }
    if (!transform<T>(0, n, 1, n + 2, a, -1, b) || !transform<T>(0, n, lot + 2, 1, a, -1, b)) return;
    a.clear(); b.clear(); for (int l = 0; l < lot; l++) { a.push_back(s[l * 7 % s.size()]); b.push_back(sg[l * 7 % s.size()]); }
    if (!transform<T>(0, n, 1, n + 2, a, 1, b)) return;
  }
}
static bool smooth(int n) { for (int f : {2, 3, 5}) while (n % f == 0) n /= f; return n == 1; }
template <class T> static void sequence(const std::vector<int> &ns) {
  for (int n : ns) { std::vector<std::vector<double>> g, gs; for (int k = 0; k < 3; k++) { std::vector<double> x(n + 2, 0.); x[(k * 3 + 1) % n] = 1; x[(k * 5) % n] += -2; g.push_back(x); gs.push_back(forward(n, x.data())); } if (!transform<T>(1, n, 1, n + 2, g, -1, gs)) return; }
}
// normalised associated Legendre function, unit integral over [-1,1], no sign change with m; degree n, order m
static double alp(int n, int m, double x) {
  double c2 = 1 - x * x, p = 1; for (int k = 1; k <= m; k++) p *= c2 * (2 * k + 1) / (2. * k);
  double a = std::sqrt(.5 * p), b = 0;
  auto e = [&](int k) { return std::sqrt((double)(k * k - m * m) / (4. * k * k - 1)); };
  for (int k = m + 1; k <= n; k++) { double c = (x * a - (k - 1 > m ? e(k - 1) : 0) * b) / e(k); b = a; a = c; }
  return a;
}
static double legendre(int n, double x) { double a = 1, b = x; if (!n) return 1; for (int k = 1; k < n; k++) { double c = ((2 * k + 1) * x * b - k * a) / (k + 1); a = b; b = c; } return b; }
template <class T> static bool weights(int32_t n, void (*f)(int32_t *, T *, T *, T *, T *, T *, T *, T *, T *), double tol) {
  const T G = (T)-987.5; std::vector<std::vector<T>> v(8, std::vector<T>(n + 16, G)); int32_t N = n;
  trans(); f(&N, &v[0][8], &v[1][8], &v[2][8], &v[3][8], &v[4][8], &v[5][8], &v[6][8], &v[7][8]); eval();
  for (auto &a : v) for (int i = 0; i < 8; i++) if (a[i] != G || a[8 + n + i] != G) { fail("%s, %d roots: writes outside its arrays", K<T>::name(), n); return false; }
  double sum = 0;
  for (int i = 0; i < n; i++) {
    double x = std::cos(M_PI * (i + .75) / (2 * n + .5)), d = 0; for (int k = 0; k < 50; k++) { double p = legendre(2 * n, x), q = legendre(2 * n - 1, x); d = 2 * n * (x * p - q) / (x * x - 1); double e = p / d; x -= e; if (std::fabs(e) < 1e-15) break; }
    double w = 2 / ((1 - x * x) * d * d), c2 = 1 - x * x, e[8] = {x, w, std::sqrt(c2), std::acos(x), w / c2, 1 / std::sqrt(c2), 1 / c2, c2};
    // relative sensitivity near the pole, where cos(latitude) is small
    for (int k = 0; k < 8; k++) { double t = tol * (k == 0 ? 1 : k == 3 ? 1 / std::sqrt(c2) : (k == 1 ? 40 : 4) * (1 + 1 / c2)) * std::max(1., std::fabs(e[k])) + (k == 1 ? tol * e[k] * n * 20 : k == 4 ? tol * e[k] * 30 * (n + 1 / c2) : 0); if (!(std::fabs(v[k][8 + i] - e[k]) <= t)) { static const char *q[] = {"root", "weight", "sine of the colatitude", "colatitude", "weight over squared sine", "inverse sine", "inverse squared sine", "squared sine"}; fail("%s, %d roots: %s %d is %.12g, expected %.12g", K<T>::name(), n, q[k], i + 1, (double)v[k][8 + i], e[k]); return false; } }
    sum += v[1][8 + i];
  }
  if (!(std::fabs(sum - 1) <= tol * 40 * n)) { fail("%s, %d roots: the weights of a hemisphere add up to %.12g", K<T>::name(), n, sum); return false; }
  state(hash(&v[1][8], sizeof(T) * n)); outcome(fmt("weights %s", K<T>::name()));
  return true;
}

int main(int argc, char **argv) {
  init(argc, argv);
  const int NF = thorough ? 512 : 128;
  for (int n = 2; n <= NF; n++) if (smooth(n)) {
    if (begin("transforms of length %d in single precision", n)) lengths<float>(n);
    if (begin("transforms of length %d in double precision", n)) lengths<double>(n);
  }
  std::vector<int> some; for (int n : {2, 3, 4, 5, 8, 9, 15, 16, 30, 64}) some.push_back(n);
  for (int a : some) for (int b : some) for (int c : some) {
    if (begin("transforms of lengths %d, %d, %d, %d one after the other in double precision", a, b, c, a)) sequence<double>({a, b, c, a});
    if (begin("transforms of lengths %d, %d, %d, %d one after the other in single precision", a, b, c, a)) sequence<float>({a, b, c, a});
  }
  for (int n = 1; n <= (thorough ? 400 : 120); n++) if (begin("Gaussian latitudes and weights, %d per hemisphere", n)) { describe("the computation did not end"); if (weights<double>(n, gauss8_, 1e-12) && n <= 120) weights<float>(n, gauss_, 4e-7); }

  // Legendre functions of every truncation
  const int MX = thorough ? 22 : 12;
  for (int32_t ir = 0; ir <= MX; ir++) for (int32_t lm = 1; lm <= ir + 1; lm++) for (int32_t khem = 0; khem <= 2; khem++) for (int32_t tr = 1; tr <= 2; tr++) {
    if (!begin("%s truncation, degree %d, %d rows, region %d", tr == 1 ? "rhomboidal" : "triangular", ir, lm, khem)) continue;
    std::vector<int32_t> lrs(lm + 2, -77), lra(lm + 2, -77); int32_t la = -9, M = lm, I = ir, H = khem, T = tr;
    trans(); dimcal_(&lrs[1], &lra[1], &M, &la, &I, &H, &T); eval();
    bool ok = lrs[0] == -77 && lra[0] == -77 && lrs[lm + 1] == -77 && lra[lm + 1] == -77; int sum = 0;
    for (int m = 1; ok && m <= lm; m++) {
      int deg = tr == 1 ? ir : ir - m + 1, all = deg + 1, ws = khem ? deg / 2 + 1 : all, wa = khem ? (deg + 1) / 2 : all; sum += ws;
      if (lrs[m] != ws || lra[m] != wa) { fail("row %d: %d symmetric and %d antisymmetric elements, expected %d and %d", m, lrs[m], lra[m], ws, wa); ok = false; }
    }
    if (!ok) { if (lrs[0] != -77 || lra[0] != -77) fail("writes outside its arrays"); continue; }
    if (la != sum) { fail("the rows have %d elements in all, got %d", sum, la); continue; }
    int mult = khem ? 2 : 1, tot = la * mult; std::vector<float> ep(tot + 32, -555.f), P(tot + 32, -555.f), D(tot + 32, -555.f), W(tot + 32, -555.f);
    trans(); epsil2_(&ep[16], &lrs[1], &M, &H);
    for (int s = -9; s <= 9; s++) {
      float sl = s * .1f; trans(2); alpnm2_(&P[16], &lrs[1], &M, &sl, &ep[16], &H); alpdr2_(&D[16], &P[16], &lrs[1], &M, &sl, &ep[16], &H); eval();
      for (int i = 0; i < 16; i++) for (auto *a : {&ep, &P, &D}) if ((*a)[i] != -555.f || (*a)[16 + tot + i] != -555.f) { fail("writes outside its arrays"); goto next; }
      int p = 16;
      for (int m = 0; m < lm; m++) for (int k = 0; k < lrs[m + 1] * mult; k++, p++) {
        int n = m + k; double x = sl, e = std::sqrt(std::max(0., (double)(n * n - m * m) / (4. * n * n - 1))), w = alp(n, m, x), d = (k ? (2 * n + 1) * e * alp(n - 1, m, x) : 0) - n * x * w;
        if (!(std::fabs(ep[p] - (n ? e : 0)) <= 1e-6)) { fail("constant of degree %d, order %d is %g, got %g", n, m, e, ep[p]); goto next; }
        double t = 2e-6 * (n + 2) * (n + 2);
        if (!(std::fabs(P[p] - w) <= t)) { fail("function of degree %d, order %d at %g is %g, got %g", n, m, x, w, P[p]); goto next; }
        if (!(std::fabs(D[p] - d) <= t * (2 * n + 2))) { fail("derivative of degree %d, order %d at %g is %g, got %g", n, m, x, d, D[p]); goto next; }
      }
      state(hash(&P[16], 4 * tot)); outcome(fmt("Legendre %d", khem ? 1 : 0));
    }
    {
      // separation of the symmetric and the antisymmetric functions
      if (khem) {
        std::vector<float> A(2 * la + 32, -555.f), wk(2 * la); for (int i = 0; i < 2 * la; i++) A[16 + i] = i + 1; int32_t LA = la; trans(); alpas2_(&A[16], &LA, &lrs[1], &lra[1], &M, wk.data()); eval();
        int f = 0, qs = 16, qa = 16 + la; 
        for (int m = 1; m <= lm; m++) { for (int k = 0; k < lrs[m]; k++) if (A[qs + k] != f + 2 * k + 1) { fail("symmetric element %d of row %d is element %g", k + 1, m, A[qs + k]); goto next; } for (int k = 0; k < lra[m]; k++) if (A[qa + k] != f + 2 * k + 2) { fail("antisymmetric element %d of row %d is element %g", k + 1, m, A[qa + k]); goto next; } f += 2 * lrs[m]; qs += lrs[m]; qa += lra[m]; }
        for (int i = 0; i < 16; i++) if (A[i] != -555.f || A[16 + 2 * la + i] != -555.f) { fail("writes outside its arrays"); goto next; }
      }
      // spectral coefficients to Fourier coefficients, and back
      std::vector<float> sc(2 * la), cf(2 * lm + 8, -555.f), al(la); for (int i = 0; i < la; i++) { al[i] = (i * 7 % 11) - 5; sc[2 * i] = (i * 5 % 13) - 6; sc[2 * i + 1] = (i * 3 % 7) - 3; }
      trans(); spaf2_(&cf[4], sc.data(), &lrs[1], &M, al.data(), &la); eval(); int p = 0;
      for (int m = 0; m < lm; m++) { double a = 0, b = 0; for (int k = 0; k < lrs[m + 1]; k++, p++) { a += al[p] * sc[2 * p]; b += al[p] * sc[2 * p + 1]; } if (cf[4 + 2 * m] != (float)a || cf[5 + 2 * m] != (float)b) { fail("Fourier coefficient %d is (%g,%g), got (%g,%g)", m + 1, a, b, cf[4 + 2 * m], cf[5 + 2 * m]); goto next; } }
      for (int i = 0; i < 4; i++) if (cf[i] != -555.f || cf[4 + 2 * lm + i] != -555.f) { fail("writes outside the Fourier coefficients"); goto next; }
      std::vector<float> s2(2 * la + 8, 3.f); float wt = .25f; trans(); fasp2_(&s2[4], &lrs[1], &M, &cf[4], al.data(), &la, &wt); eval(); p = 0;
      for (int m = 0; m < lm; m++) for (int k = 0; k < lrs[m + 1]; k++, p++) { float a = 3 + cf[4 + 2 * m] * wt * al[p], b = 3 + cf[5 + 2 * m] * wt * al[p]; if (s2[4 + 2 * p] != a || s2[5 + 2 * p] != b) { fail("spectral coefficient %d of row %d is (%g,%g), got (%g,%g)", k + 1, m + 1, a, b, s2[4 + 2 * p], s2[5 + 2 * p]); goto next; } }
      for (int i = 0; i < 4; i++) if (s2[i] != 3 || s2[4 + 2 * la + i] != 3) { fail("writes outside the spectral coefficients"); goto next; }
      if (tr == 1) for (int32_t lev = 1; lev <= 3; lev++) for (int32_t ign = -1; ign <= 1; ign++) for (int32_t ld = lm; ld <= lm + 2; ld += 2) {
        std::vector<float> c(2 * ld * lev), b(2 * ld * lev), a(2 * ld * lev, -555.f); for (size_t i = 0; i < c.size(); i++) { c[i] = (int)(i * 7 % 19) - 9; b[i] = (int)(i * 11 % 23) - 11; } float q = .5f; int32_t LD = ld, LV = lev, G = ign;
        trans(); ewfdr2_(a.data(), b.data(), c.data(), &LD, &LV, &M, &q, &G); eval();
        for (int l = 0; l < lev; l++) for (int m = 0; m < ld; m++) { int i = 2 * (l * ld + m); float u = m < lm ? ign * b[i] - m * .5f * c[i + 1] : -555.f, v = m < lm ? ign * b[i + 1] + m * .5f * c[i] : -555.f; if (a[i] != u || a[i + 1] != v) { fail("east-west derivative %d of level %d, option %d, is (%g,%g), got (%g,%g)", m + 1, l + 1, ign, u, v, a[i], a[i + 1]); goto next; } }
      }
    }
  next:;
  }
  return done();
}
