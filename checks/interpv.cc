// V01: vertical interpolation/extrapolation against textbook definitions, over all level
// arrays from a small set, both directions, both precisions, both interfaces.
#include "vh.h"
#include <sys/wait.h>
using namespace vh; using std::vector; using std::string;
typedef void (*Flux)(void *, void *, void *, void *, void *, int *);
#define ARGS int *, int *, int *, int *, int *, void *, void *, void *, int *, void *, void *, void *, int *, int *, void *, void *
typedef void (*Old)(ARGS); typedef void (*Ext)(ARGS, Flux, int *, int *, void *, void *);
extern "C" {
void interp1d_findpos_(int *, int *, int *, int *, int *, float *, int *, float *); void interp1d_findpos8_(int *, int *, int *, int *, int *, double *, int *, double *);
#define D(n) void n##_(ARGS); void n##8_(ARGS); void n##_x_(ARGS, Flux, int *, int *, void *, void *); void n##_x8_(ARGS, Flux, int *, int *, void *, void *);
D(interp1d_nearestneighbour) D(interp1d_linear) D(interp1d_cubiclagrange) D(interp1d_cubicwithderivs) D(extrap1d_fixed) D(extrap1d_lapserate) D(extrap1d_abort)
void extrap1d_surface_x_(ARGS, Flux, int *, int *, void *, void *); void extrap1d_surface_x8_(ARGS, Flux, int *, int *, void *, void *);
void extrap1d_surfacewind_x_(ARGS, Flux, int *, int *, void *, void *); void extrap1d_surfacewind_x8_(ARGS, Flux, int *, int *, void *, void *);
}
template <class T> void flux(void *f, void *z, void *z0, void *ilmo, void *h, int *n) { for (int i = 0; i < *n; i++) ((T *)f)[i] = ((T *)z)[i] * 2 + ((T *)z0)[i] - ((T *)ilmo)[i] * 3 + ((T *)h)[i] / 8; }
template <class T> struct Fn;
template <> struct Fn<float> { static void pos(int *a, int *b, int *c, int *d, int *e, float *f, int *g, float *h) { interp1d_findpos_(a, b, c, d, e, f, g, h); }
  static constexpr Old o[7] = {interp1d_nearestneighbour_, interp1d_linear_, interp1d_cubiclagrange_, interp1d_cubicwithderivs_, extrap1d_fixed_, extrap1d_lapserate_, extrap1d_abort_};
  static constexpr Ext x[9] = {interp1d_nearestneighbour_x_, interp1d_linear_x_, interp1d_cubiclagrange_x_, interp1d_cubicwithderivs_x_, extrap1d_fixed_x_, extrap1d_lapserate_x_, extrap1d_abort_x_, extrap1d_surface_x_, extrap1d_surfacewind_x_}; static constexpr double eps = 6e-8; };
template <> struct Fn<double> { static void pos(int *a, int *b, int *c, int *d, int *e, double *f, int *g, double *h) { interp1d_findpos8_(a, b, c, d, e, f, g, h); }
  static constexpr Old o[7] = {interp1d_nearestneighbour8_, interp1d_linear8_, interp1d_cubiclagrange8_, interp1d_cubicwithderivs8_, extrap1d_fixed8_, extrap1d_lapserate8_, extrap1d_abort8_};
  static constexpr Ext x[9] = {interp1d_nearestneighbour_x8_, interp1d_linear_x8_, interp1d_cubiclagrange_x8_, interp1d_cubicwithderivs_x8_, extrap1d_fixed_x8_, extrap1d_lapserate_x8_, extrap1d_abort_x8_, extrap1d_surface_x8_, extrap1d_surfacewind_x8_}; static constexpr double eps = 1.2e-16; };
static const char *NM[] = {"nearest", "linear", "cubic", "cubic with derivatives", "fixed", "lapse rate", "abort", "surface", "surface wind"};
typedef long double LD;
// src[s][l] strictly monotone, all sets in the same direction; dst[s][t] any
template <class T> static bool one(const vector<vector<double>> &src, const vector<vector<double>> &dst, int statekind) {
  int S = src.size(), n = src[0].size(), m = dst[0].size(), sd = S + 1, dd = S + 2;
  bool up = src[0][1] > src[0][0];
  vector<T> L(sd * n, -777), ST(sd * n, -555), DV(sd * n, -444), Z(dd * m, -333), OUT(dd * m), DOUT(dd * m);
  vector<int> P(dd * m, -9);
  for (int s = 0; s < S; s++) for (int l = 0; l < n; l++) { double x = src[s][l]; L[s + l * sd] = x; double v, d;
    if (statekind == 0) { v = 3 * x - 7 + s; d = 3; } else if (statekind == 1) { v = ((0.25 * x - 1) * x + 2) * x - 5 + s; d = 0.75 * x * x - 2 * x + 2; }
    else { v = (l % 5 == (statekind - 2)) ? 8 : (l * 37 % 11) - 5; d = (l * 13 % 7) - 3; }
    ST[s + l * sd] = v; DV[s + l * sd] = d; }
  for (int s = 0; s < S; s++) for (int t = 0; t < m; t++) Z[s + t * dd] = dst[s][t];
  Fn<T>::pos(&S, &n, &m, &sd, &dd, L.data(), P.data(), Z.data());
  for (int t = 0; t < m; t++) for (int s = 0; s < dd; s++) {
    int p = P[s + t * dd]; 
    if (s >= S) { if (p != -9) { fail("position written outside the %d sets", S); return false; } continue; }
    T z = Z[s + t * dd]; if (p < 1 || p > n - 1) { fail("level %g: position %d of %d levels", (double)z, p, n); return false; }
    T a = L[s + (p - 1) * sd], b = L[s + p * sd]; bool in = up ? (a <= z && z <= b) : (a >= z && z >= b);
    T lo = up ? L[s] : L[s + (n - 1) * sd], hi = up ? L[s + (n - 1) * sd] : L[s];
    if (z < lo) in = p == (up ? 1 : n - 1); if (z > hi) in = p == (up ? n - 1 : 1);
    if (!in) { fail("level %g is placed at position %d, between levels %g and %g", (double)z, p, (double)a, (double)b); return false; }
  }
  eval(m * S);
  for (int alg = 0; alg < 6; alg++) for (int en = 0; en < 4; en++) for (int ext = 0; ext < 2; ext++) {
    int eD = en & 1, eU = en >> 1; T gD = 2.5, gU = -1.25; 
    if (alg == 2 && n < 4) continue;
    for (auto &x : OUT) x = -111; for (auto &x : DOUT) x = -222;
    int z0 = 0; T dum[4] = {0};
    auto Lc = L; auto Sc = ST; auto Dc = DV; auto Pc = P; auto Zc = Z;
    if (ext) Fn<T>::x[alg](&S, &n, &m, &sd, &dd, L.data(), ST.data(), DV.data(), P.data(), Z.data(), OUT.data(), DOUT.data(), &eD, &eU, &gD, &gU, flux<T>, &z0, &z0, dum, dum);
    else Fn<T>::o[alg](&S, &n, &m, &sd, &dd, L.data(), ST.data(), DV.data(), P.data(), Z.data(), OUT.data(), DOUT.data(), &eD, &eU, &gD, &gU);
    trans();
    if (L != Lc || ST != Sc || DV != Dc || P != Pc || Z != Zc) { fail("%s changed its input", NM[alg]); return false; }
    for (int t = 0; t < m; t++) for (int s = 0; s < dd; s++) {
      T got = OUT[s + t * dd], gotd = DOUT[s + t * dd];
      if (s >= S) { if (got != -111 || gotd != -222) { fail("%s wrote outside the %d sets", NM[alg], S); return false; } continue; }
      T zf = Z[s + t * dd]; LD z = zf; int p = P[s + t * dd];
      T lo = up ? L[s] : L[s + (n - 1) * sd], hi = up ? L[s + (n - 1) * sd] : L[s]; int il = up ? 0 : n - 1, ih = up ? n - 1 : 0;
      auto X = [&](int l) { return (LD)L[s + l * sd]; }; auto V = [&](int l) { return (LD)ST[s + l * sd]; }; auto G = [&](int l) { return (LD)DV[s + l * sd]; };
      LD e = -111, ed = -222, tol = 0, told = 0, alt = 0; bool hasalt = false;
      if (alg == 0) { LD d0 = fabsl(z - X(p - 1)), d1 = fabsl(z - X(p)); e = d0 < d1 ? V(p - 1) : V(p); if (fabsl(d0 - d1) <= 4 * Fn<T>::eps * (fabsl(z) + fabsl(X(p)))) { hasalt = true; alt = d0 < d1 ? V(p) : V(p - 1); } }
      else if (alg == 1) { LD w = (z - X(p - 1)) / (X(p) - X(p - 1)); e = V(p - 1) + w * (V(p) - V(p - 1)); tol = (fabsl(V(p - 1)) + fabsl(V(p))) * (1 + fabsl(w)) + fabsl(w) * (fabsl(V(p)-V(p-1)))  * (1 + (fabsl(z) + fabsl(X(p))) / fabsl(X(p) - X(p - 1))); }
      else if (alg == 2) { int f = std::max(std::min(p - 1, n - 3), 1) - 1; e = 0; tol = 0; for (int a = 0; a < 4; a++) { LD c = 1; for (int b = 0; b < 4; b++) if (b != a) c *= (z - X(f + b)) / (X(f + a) - X(f + b)); e += c * V(f + a); tol += fabsl(c * V(f + a)) * 4; } tol += fabsl(e);
        // difference-table cancellation
        LD mind = 1e30; for (int b = 0; b < 3; b++) mind = std::min(mind, fabsl(X(f + b + 1) - X(f + b))); LD r = (fabsl(z - X(f)) + 1) / mind + 1; LD mv = 0; for (int b = 0; b < 4; b++) mv = std::max(mv, fabsl(V(f + b))); tol += mv * r * r * r * (sizeof(T) == 8 ? 8 : 0) + mv; }
      else if (alg == 3) { LD h = X(p) - X(p - 1), u = (z - X(p - 1)) / h; LD a = V(p - 1), b = V(p), c = G(p - 1), d = G(p);
        e = (2 * u * u * u - 3 * u * u + 1) * a + (u * u * u - 2 * u * u + u) * h * c + (-2 * u * u * u + 3 * u * u) * b + (u * u * u - u * u) * h * d;
        ed = ((6 * u * u - 6 * u) * a + (3 * u * u - 4 * u + 1) * h * c + (-6 * u * u + 6 * u) * b + (3 * u * u - 2 * u) * h * d) / h;
        LD q = 1 + fabsl(u); tol = 8 * q * q * q * (fabsl(a) + fabsl(b) + fabsl(h * c) + fabsl(h * d)); told = tol * 4 / fabsl(h); }
      if (alg >= 1 && alg <= 3) { int cl = -1; if (!eD && zf < lo) cl = il; else if (!eU && zf > hi) cl = ih; if (cl >= 0) { e = V(cl); tol = 0; if (alg == 3) { ed = G(cl); told = 0; } } }
      if (alg == 4) { if (eD && zf < lo) e = gD; else if (eU && zf > hi) e = gU; }
      if (alg == 5) { if (eD && zf < lo) { e = V(il) + (LD)gD * (z - X(il)); tol = 4 * (fabsl(V(il)) + 3 * (fabsl(z) + fabsl(X(il)))); } else if (eU && zf > hi) { e = V(ih) + (LD)gU * (z - X(ih)); tol = 4 * (fabsl(V(ih)) + 3 * (fabsl(z) + fabsl(X(ih)))); } }
      tol = tol * 4 * Fn<T>::eps; told = told * 4 * Fn<T>::eps;
      bool ok = fabsl(got - e) <= tol || (hasalt && got == (T)alt); if (alg == 3) ok = ok && fabsl(gotd - ed) <= told; else ok = ok && gotd == -222;
      if (!ok) { fail("%s (%s, %s precision, extrapolation down %d up %d, %s levels): level %g of set %d gives %.9g (derivative %.9g), expected %.9Lg (%.9Lg)", NM[alg], ext ? "extended interface" : "plain interface", sizeof(T) == 4 ? "single" : "double", eD, eU, up ? "increasing" : "decreasing", (double)zf, s, (double)got, (double)gotd, e, ed); return false; }
      eval();
      outcome(zf < lo ? "below" : zf > hi ? "above" : "inside");
    }
  }
  // surface layer: below the second lowest level
  for (int en = 0; en < 2; en++) for (int alg = 7; alg < 9; alg++) {
    int eD = en, eU = 1; T gD = 0.5, gU = 0; int nin = 6, nout = 2 * m; vector<T> EI(sd * nin, 0), EO(dd * nout, -666);
    for (int s = 0; s < S; s++) for (int k = 0; k < nin; k++) EI[s + k * sd] = (k == 2 ? 16 : 1) * (1 + 0.5 * k + 0.25 * s);
    for (auto &x : OUT) x = -111; for (auto &x : DOUT) x = -222;
    // the library copies whole extension columns: dimension them to the number of sets plus padding
    Fn<T>::x[alg](&S, &n, &m, &sd, &dd, L.data(), ST.data(), DV.data(), P.data(), Z.data(), OUT.data(), DOUT.data(), &eD, &eU, &gD, &gU, flux<T>, &nin, &nout, EI.data(), EO.data());
    trans(); int second = up ? 1 : n - 2, sfc = up ? 0 : n - 1;
    for (int t = 0; t < m; t++) for (int s = 0; s < S; s++) {
      LD z = Z[s + t * dd]; LD e = -111, ev = -666; auto X = [&](int k) { return (LD)EI[s + k * sd]; };
      if (eD && P[s + t * dd] == (up ? 1 : n - 1) && z < L[s + second * sd]) {
        LD f = z * 2 + X(0) - X(1) * 3 + X(2) / 8;
        if (alg == 7) e = ST[s + sfc * sd] + X(3) * f;
        else { LD a = X(4) + ((LD)L[s + second * sd] - z) / X(2) * (LD)gD * sinl(X(5)); e = X(3) * f * cosl(a); ev = X(3) * f * sinl(a); }
      }
      LD tol = 200 * Fn<T>::eps * (fabsl(e) + 50);
      T got = OUT[s + t * dd], gv = EO[s + t * dd];
      if (fabsl(got - e) > (e == -111 ? 0 : tol) || fabsl(gv - ev) > (ev == -666 ? 0 : tol)) { fail("%s (%s): level %Lg gives %.9g / %.9g, expected %.9Lg / %.9Lg", NM[alg], up ? "increasing" : "decreasing", z, (double)got, (double)gv, e, ev); return false; }
      eval();
    }
  }
  return true;
}
// the aborting variant ends the program (status 2) exactly when a target lies outside and that side is enabled
template <class T> static bool aborts(const vector<double> &a, double z, int second, int ext) {
  bool up = a[1] > a[0]; double lo = std::min(a[0], a.back()), hi = std::max(a[0], a.back());
  for (int en = 0; en < 4; en++) {
    int eD = en & 1, eU = en >> 1; bool want = (eD && z < lo) || (eU && z > hi);
    int pid = fork();
    if (!pid) {
      int S = 2, n = a.size(), m = 2, sd = 2, dd = 2, z0 = 0; T gD = 1, gU = 1, dum[4] = {0}; vector<T> L(2 * n), ST(2 * n, 1), DV(2 * n, 1), Z(4), O(4, 5), DO(4, 6); vector<int> P(4);
      for (int i = 0; i < n; i++) L[2 * i] = L[2 * i + 1] = a[i];
      for (int i = 0; i < 4; i++) Z[i] = (a[0] + a[1]) / 2; Z[second] = z;
      Fn<T>::pos(&S, &n, &m, &sd, &dd, L.data(), P.data(), Z.data());
      if (!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) _exit(9);
      if (ext) Fn<T>::x[6](&S, &n, &m, &sd, &dd, L.data(), ST.data(), DV.data(), P.data(), Z.data(), O.data(), DO.data(), &eD, &eU, &gD, &gU, flux<T>, &z0, &z0, dum, dum);
      else Fn<T>::o[6](&S, &n, &m, &sd, &dd, L.data(), ST.data(), DV.data(), P.data(), Z.data(), O.data(), DO.data(), &eD, &eU, &gD, &gU);
      for (int i = 0; i < 4; i++) if (O[i] != 5 || DO[i] != 6) _exit(8);
      _exit(0);
    }
    int st; waitpid(pid, &st, 0); eval();
    int got = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); outcome(want ? "aborts" : "does not abort");
    if (got != (want ? 2 : 0)) { fail("abort (%s levels, %d levels, down %d up %d): target %g outside [%g,%g]: status %d", up ? "increasing" : "decreasing", (int)a.size(), eD, eU, z, lo, hi, got); return false; }
  }
  return true;
}
static void both(const string &d, const vector<vector<double>> &src, const vector<vector<double>> &dst, int kinds) {
  for (int k = 0; k < kinds; k++) { if (!begin_s(d + fmt(" state %d", k))) continue; if (one<float>(src, dst, k)) one<double>(src, dst, k); state(d); }
}
static vector<double> targets(const vector<double> &l) {
  vector<double> t; double lo = std::min(l[0], l.back()), hi = std::max(l[0], l.back());
  t.push_back(lo - 2); t.push_back(lo - 0.25); t.push_back(hi + 0.25); t.push_back(hi + 3);
  for (size_t i = 0; i < l.size(); i++) { t.push_back(l[i]); if (i + 1 < l.size()) for (double w : {0.125, 0.5, 0.75}) t.push_back(l[i] + w * (l[i + 1] - l[i])); }
  return t;
}
int main(int c, char **v) {
  init(c, v);
  int W = thorough ? 12 : 9;
  // all strictly monotone level arrays drawn from 1..W, in both directions; a second set is a shifted copy
  for (int mask = 0; mask < (1 << W); mask++) {
    vector<double> l; for (int i = 0; i < W; i++) if (mask >> i & 1) l.push_back(i + 1);
    if (l.size() < 2) continue;
    for (int dir = 0; dir < 2; dir++) {
      vector<double> a = l; if (dir) std::reverse(a.begin(), a.end());
      vector<double> b = a; for (auto &x : b) x = x * x * 0.25 + x;
      auto ta = targets(a), tb = targets(b); std::reverse(tb.begin(), tb.end());
      string d = "levels"; for (double x : a) d += fmt(" %g", x);
      both(d, {a, b}, {ta, tb}, a.size() < 6 ? 4 : 2);
    }
  }
  // every number of levels
  for (int n = 2; n <= (thorough ? 1200 : 260); n++) for (int dir = 0; dir < 2; dir++) for (int sp = 0; sp < 2; sp++) {
    if (n > 150 && sp && n % 7) continue;
    vector<double> a; for (int i = 0; i < n; i++) a.push_back(sp ? 0.015625 * i * i + i : i + 1); if (dir) std::reverse(a.begin(), a.end());
    both(fmt("%d levels, %s, spacing %d", n, dir ? "decreasing" : "increasing", sp), {a}, {targets(a)}, 1);
  }
  for (int n = 2; n <= (thorough ? 9 : 5); n++) for (int dir = 0; dir < 2; dir++) for (int k = 0; k < 5; k++) for (int pos = 0; pos < 4; pos++) for (int ext = 0; ext < 2; ext++) {
    if (!begin("abort: %d levels, direction %d, target kind %d at %d, interface %d", n, dir, k, pos, ext)) continue;
    vector<double> a; for (int i = 0; i < n; i++) a.push_back(dir ? n - i : i + 1);
    double z[5] = {0.5, 1, (n + 1) / 2.0, (double)n, n + 0.5};
    if (aborts<float>(a, z[k], pos, ext)) aborts<double>(a, z[k], pos, ext);
  }
  return done();
}
