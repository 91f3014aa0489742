// The interpolation operators of ezscint as explicit weights (independent double-precision reference)
#ifndef EZOP_HH
#define EZOP_HH
#include "ez.hh"
namespace ez {
typedef std::map<int, double> W; // stored cell (0-based, as the caller stores the field) -> weight
struct Op {
  Grid g; int ext = 0, j1 = 1, j2; bool noext = true, irregular = false; int sym = 1; double ypn = -1e9, yps = -1e9; vector<double> ax, ay;
  Op(const Grid &gg) : g(gg) {
    j2 = g.nj;
    if (g.t == 'A' || g.t == 'G') { ext = 2; if (g.ig[0] == 1) j1 = 1 - g.nj; if (g.ig[0] == 2) j2 = 2 * g.nj; }
    if (g.t == 'B') { ext = 1; if (g.ig[0] == 1) j1 = 2 - g.nj; if (g.ig[0] == 2) j2 = 2 * g.nj - 1; }
    if (g.t == 'N' || g.t == 'S') noext = false;
    if (g.t == 'L') { double l0 = g.xg[0], d = g.xg[2], l1 = l0 + (g.nj - 1) * d, dx = g.xg[3], span = dx * (g.ni - 1);
      if (l0 - d <= -90 + 0.01 * d && l1 + d >= 90 - 0.01 * d) ext = span > 360 - 0.01 * dx ? 1 : span + dx > 360 - 0.01 * dx ? 2 : 0;
      noext = ext > 0; }
    if (g.t == 'G') { irregular = true; ay = gausslats(g.ig[0] ? 2 * g.nj : g.nj); for (int i = 0; i < g.ni; i++) ax.push_back(360.0 * i / g.ni); }
    if (g.t == 'Z') { irregular = true; ax.assign(g.ax.begin(), g.ax.end()); ay.assign(g.ay.begin(), g.ay.end()); double span = ax.back() - ax[0];
      if (g.ref == 'N' || g.ref == 'S') noext = false; else noext = span >= 358;
      if (g.ref == 'E') ext = span < 359 ? 0 : 1;
      if (g.ref == 'L') { int n = g.nj; double d = ay[1] - ay[0], d2 = ay[n - 1] - ay[n - 2], dx = ax[g.ni - 1] - ax[g.ni - 2];
        if (ay[0] - d <= -90 + 0.01 * d && ay[n - 1] + d2 >= 90 - 0.01 * d2) ext = span > 360 - 0.01 * dx ? 1 : span + dx > 360 - 0.01 * dx ? 2 : 0; } }
    if (irregular && ext == 2) ; 
  }
  int period() const { return ext == 2 ? g.ni : ext == 1 ? g.ni - 1 : 0; }
  // stored row (1..nj, south to north) and sign of extended row j
  int row(int j, double &s) const { s = 1; int nj = g.nj;
    if (j < 1) { if (sym == 0) s = -1; return g.t == 'B' ? 2 - j : 1 - j; }
    if (j > nj) { if (sym == 0) s = -1; return g.t == 'B' ? 2 * nj - j : 2 * nj + 1 - j; }
    return j; }
  void add(W &w, int i, int j, double a) const { if (a == 0) return; double s; int r = row(j, s); if (g.flipped()) r = g.nj + 1 - r; w[(r - 1) * g.ni + i - 1] += a * s; }
  int col(int i) const { int p = period(); if (!p) return i; while (i < 1) i += p; if (ext == 1) { while (i > p + 1) i -= p; } else while (i > p) i -= p; return i; }
  double xco(int i) const { if (!irregular) return i; int p = period(); double add = 0; if (p) { while (i < 1) { i += p; add -= 360; } while (i > (ext == 1 ? p + 1 : p)) { i -= p; add += 360; } } return ax[i - 1] + add; }
  double yco(int j) const { return irregular ? ay[j - j1] : j; }
  static vector<double> lagrange(const double *n, double x) { vector<double> r(4, 1); for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) if (a != b) r[a] *= (x - n[b]) / (n[a] - n[b]); return r; }
  static int clampi(int v, int a, int b) { return std::max(a, std::min(b, v)); }
  // weights along x
  std::vector<std::pair<int, double>> wx(int deg, double x) const {
    std::vector<std::pair<int, double>> r; int ni = g.ni;
    if (deg == 0) { int i = (int)floor(x + 0.5); if (ext == 2 && i == ni + 1) i = 1; r.push_back({clampi(i, 1, ni), 1}); return r; }
    if (deg == 1) { int i = clampi((int)floor(x), 1, ext == 2 ? ni : ni - 1); double d = x - i; r.push_back({i, 1 - d}); r.push_back({col(i + 1), d}); return r; }
    int i = ext == 0 ? clampi((int)floor(x), 2, ni - 2) : clampi((int)floor(x), 1, ni - 2 + ext);
    double n[4]; for (int k = 0; k < 4; k++) n[k] = xco(i - 1 + k);
    auto l = lagrange(n, n[1] + (n[2] - n[1]) * (x - i)); for (int k = 0; k < 4; k++) r.push_back({col(i - 1 + k), l[k]});
    return r; }
  std::vector<std::pair<int, double>> wy(int deg, double y) const {
    std::vector<std::pair<int, double>> r;
    if (deg == 0) { r.push_back({clampi((int)floor(y + 0.5), j1, j2), 1}); return r; }
    if (deg == 1) { int j = clampi((int)floor(y), j1, j2 - 1); double d = y - j; r.push_back({j, 1 - d}); r.push_back({j + 1, d}); return r; }
    int j = clampi((int)floor(y), j1 + 1, j2 - 2); double n[4]; for (int k = 0; k < 4; k++) n[k] = yco(j - 1 + k);
    auto l = lagrange(n, n[1] + (n[2] - n[1]) * (y - j)); for (int k = 0; k < 4; k++) r.push_back({j - 1 + k, l[k]});
    return r; }
  W general(int deg, double x, double y) const { W w; for (auto &a : wx(deg, x)) for (auto &b : wy(deg, y)) add(w, a.first, b.first, a.second * b.second); return w; }
  W mean(bool north) const { W w; int j = north ? j2 : j1;
    if (g.t == 'Z' && g.ref == 'E') { for (int i = 1; i < g.ni; i++) add(w, i, j, (ax[i] - ax[i - 1]) / (ax[g.ni - 1] - ax[0])); }
    else for (int i = 1; i <= g.ni; i++) add(w, i, j, 1.0 / g.ni);
    return w; }
  // the polar caps: three rows and the pole, whose value is the mean of the outermost row
  W cap(int deg, double x, double y, bool north) const {
    W w; double n[4]; int rows[4]; // row number, or 0 for the pole
    const int POLE = 1 << 20; bool onpole = false;
    if (north) { int k0 = j2 - 2; for (int k = 0; k < 4; k++) rows[k] = k < 3 ? k0 + k : POLE; } else for (int k = 0; k < 4; k++) rows[k] = k ? j1 + k - 1 : POLE;
    double base = north ? j2 - 3 : j1 - 2, q = y - base; // ordinate 1..4 in the cap
    std::vector<std::pair<int, double>> v;
    if (deg == 0) v.push_back({clampi((int)floor(q + 0.5), 1, 4), 1});
    else if (deg == 1) { int j = clampi((int)floor(q), 1, 3); v.push_back({j, j + 1 - q}); v.push_back({j + 1, q - j}); }
    else {
      for (int k = 0; k < 4; k++) n[k] = k + 1;
      double at = q;
      if (irregular) {
        onpole = north ? ay.back() == 90 : ay[0] == -90;
        if (onpole) { if (north) for (int k = 0; k < 4; k++) rows[k] = j2 - 3 + k; else for (int k = 0; k < 4; k++) rows[k] = j1 + k; }
        for (int k = 0; k < 4; k++) n[k] = rows[k] == POLE ? (north ? 90 : -90) : yco(rows[k]);
        int lo = north ? (onpole ? j2 - 2 : j2 - 1) : (onpole ? j1 + 1 : j1); // the interval whose spacing the position is expressed in
        at = yco(lo) + (yco(lo + 1) - yco(lo)) * (y - lo);
        if (onpole || true) at = posLat(y, lo);
      }
      auto l = lagrange(n, at); for (int k = 0; k < 4; k++) v.push_back({k + 1, l[k]});
    }
    for (auto &b : v) { int r = rows[b.first - 1];
      if (r == POLE) { for (auto &c : mean(north)) w[c.first] += c.second * b.second; }
      else for (auto &a : wx(deg, x)) add(w, a.first, r, a.second * b.second); }
    return w; }
  double posLat(double y, int lo) const { return yco(lo) + (yco(lo + 1) - yco(lo)) * (y - lo); }
  enum { NEAREST = 0, LINEAR = 1, CUBIC = 3 };
  bool outside(double x, double y) const { int ix = (int)(x + 0.5), iy = (int)(y + 0.5); return ix < 1 || iy < 1 || ix > g.ni || iy > g.nj; }
  // what ezsint does with the polar correction (xdeg: degree used outside the grid; -1: not a weighted value)
  W full(int deg, double x, double y, int xdeg) const {
    if (!noext) return outside(x, y) ? general(xdeg, x, y) : general(deg, x, y);
    if (fabs(y - ypn) < 1e-3) return mean(true);
    if (fabs(y - yps) < 1e-3) return mean(false);
    if (y < j1 + 1) return cap(deg, x, y, false);
    if ((int)y > j2 - 2) return cap(deg, x, y, true);
    return general(deg, x, y); }
  // position -> latitude and longitude, also on the mirrored hemisphere
  void ll(double x, double y, double &lat, double &lon) const {
    Grid s = g; if (s.flipped()) s.ig[1] = 0;
    if (g.t == 'G') { vector<double> a(ay); lat = Grid::at(a, y - j1 + 1); lon = mod((x - 1) * 360.0 / g.ni, 360); return; }
    s.ll(x, y, lat, lon); }
};
}
#endif
