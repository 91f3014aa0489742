// ezscint grids and their geometry, computed independently in double precision
#ifndef EZ_HH
#define EZ_HH
#include "vh.h"
#include <rmn/ezscint.h>
extern "C" {
void cxgaig_(const char *, int *, int *, int *, int *, float *, float *, float *, float *, int);
void cigaxg_(const char *, float *, float *, float *, float *, int *, int *, int *, int *, int);
int c_gdlluvfuv(int, float *, float *, float *, float *, float *, float *, int);
int c_ezsetival(char *, int); int c_ezsetfval(char *, float); 
}
namespace ez {
using std::vector; using std::string;
static const double D2R = M_PI / 180;
struct P3 { double v[3]; };
static inline P3 xyz(double lat, double lon) { return {{cos(lat * D2R) * cos(lon * D2R), cos(lat * D2R) * sin(lon * D2R), sin(lat * D2R)}}; }
static inline double dot(P3 a, P3 b) { return a.v[0] * b.v[0] + a.v[1] * b.v[1] + a.v[2] * b.v[2]; }
static inline P3 cross(P3 a, P3 b) { return {{a.v[1] * b.v[2] - a.v[2] * b.v[1], a.v[2] * b.v[0] - a.v[0] * b.v[2], a.v[0] * b.v[1] - a.v[1] * b.v[0]}}; }
// great-circle distance in degrees
static inline double dist(double lat1, double lon1, double lat2, double lon2) {
  P3 a = xyz(lat1, lon1), b = xyz(lat2, lon2), c = cross(a, b); return atan2(sqrt(dot(c, c)), dot(a, b)) / D2R;
}
static inline double mod(double x, double m) { x = fmod(x, m); return x < 0 ? x + m : x; }
static inline vector<double> gausslats(int n) { // south to north
  vector<double> r(n);
  for (int i = 0; i < n; i++) {
    double x = cos(M_PI * (i + 0.75) / (n + 0.5));
    for (int it = 0; it < 100; it++) {
      double p0 = 1, p1 = x; for (int k = 2; k <= n; k++) { double p = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p; }
      double dp = n * (x * p1 - p0) / (x * x - 1), dx = p1 / dp; x -= dx; if (fabs(dx) < 1e-15) break;
    }
    r[n - 1 - i] = asin(x) / D2R;
  }
  return r;
}
struct Rot { P3 r[3];
  Rot(double la1 = 0, double lo1 = 180, double la2 = 0, double lo2 = 270) {
    P3 a = xyz(la1, lo1), b = xyz(la2, lo2); double d = dot(a, b); P3 n = cross(a, b); double l = sqrt(dot(n, n));
    for (int k = 0; k < 3; k++) { r[0].v[k] = -a.v[k]; r[1].v[k] = (d * a.v[k] - b.v[k]) / l; r[2].v[k] = n.v[k] / l; } 
    double m = sqrt(dot(r[1], r[1])); for (int k = 0; k < 3; k++) r[1].v[k] /= m; }
  P3 to(P3 p) const { return {{dot(r[0], p), dot(r[1], p), dot(r[2], p)}}; }
  P3 from(P3 p) const { P3 q; for (int k = 0; k < 3; k++) q.v[k] = r[0].v[k] * p.v[0] + r[1].v[k] * p.v[1] + r[2].v[k] * p.v[2]; return q; } };
static inline double latof(P3 p) { return asin(std::max(-1.0, std::min(1.0, p.v[2]))) / D2R; }
static inline double lonof(P3 p) { return mod(atan2(p.v[1], p.v[0]) / D2R, 360); }

struct Grid {
  char t = 'A', ref = ' '; int ni = 0, nj = 0, ig[4] = {0, 0, 0, 0}; vector<float> ax, ay; double xg[4] = {0, 0, 0, 0}; int id = -1; vector<double> gl; vector<int> sub;
  string str() const { return vh::fmt("%c%s %dx%d ig=%d,%d,%d,%d", t, ref != ' ' ? vh::fmt("/%c", ref).c_str() : "", ni, nj, ig[0], ig[1], ig[2], ig[3]); }
  char geo() const { return ref != ' ' ? ref : t; }
  void par(char g, double a, double b, double c, double d) { // real parameters of the projection, through their integer form
    float x[4] = {(float)a, (float)b, (float)c, (float)d}; char s[2] = {g, 0};
    cxgaig_(s, &ig[0], &ig[1], &ig[2], &ig[3], &x[0], &x[1], &x[2], &x[3], 1);
    cigaxg_(s, &x[0], &x[1], &x[2], &x[3], &ig[0], &ig[1], &ig[2], &ig[3], 1);
    for (int k = 0; k < 4; k++) xg[k] = x[k]; }
  int create() {
    char s[3] = {t, 0, 0}, r[3] = {ref, 0, 0};
    if (ref == ' ') id = c_ezqkdef(ni, nj, s, ig[0], ig[1], ig[2], ig[3], 0);
    else id = c_ezgdef_fmem(ni, nj, s, r, ig[0], ig[1], ig[2], ig[3], ax.data(), ay.data());
    return id; }
  bool flipped() const { return (t == 'A' || t == 'B' || t == 'G') && ig[1] == 1; }
  // projection coordinates of a grid position
  static double at(const vector<double> &a, double x) { int n = a.size(), i = (int)floor(x) - 1; i = std::max(0, std::min(n - 2, i)); return a[i] + (x - 1 - i) * (a[i + 1] - a[i]); }
  static double pos(const vector<double> &a, double v) { int n = a.size(), i = 0; while (i < n - 2 && v >= a[i + 1]) i++; return i + 1 + (v - a[i]) / (a[i + 1] - a[i]); }
  vector<double> lats() { if (t == 'G') { if (gl.empty()) { gl = gausslats(ig[0] ? 2 * nj : nj); if (ig[0] == 1) gl.erase(gl.begin(), gl.begin() + nj); if (ig[0] == 2) gl.resize(nj); } return gl; } return vector<double>(ay.begin(), ay.end()); }
  Rot rot() const { return Rot(xg[0], xg[1], xg[2], xg[3]); }
  // projected plane coordinates (degrees for lat-lon kinds, grid units for polar stereographic)
  void plane(double x, double y, double &px, double &py) {
    double yy = flipped() ? nj + 1 - y : y;
    if (ref != ' ') { px = at(vector<double>(ax.begin(), ax.end()), x); py = at(lats(), y); return; }
    switch (t) {
      case 'A': { double d = (ig[0] ? 90.0 : 180.0) / nj; px = (x - 1) * 360.0 / ni; py = (ig[0] == 1 ? 0 : -90) + (yy - 0.5) * d; break; }
      case 'B': { double d = (ig[0] ? 90.0 : 180.0) / (nj - 1); px = (x - 1) * 360.0 / (ni - 1); py = (ig[0] == 1 ? 0 : -90) + (yy - 1) * d; break; }
      case 'G': px = (x - 1) * 360.0 / ni; py = at(lats(), yy); break;
      case 'E': px = (x - 1) * 360.0 / (ni - 1); py = -90 + (y - 0.5) * 180.0 / nj; break;
      default: px = x; py = y; } }
  void unplane(double px, double py, double &lat, double &lon) {
    switch (geo()) {
      case 'A': case 'B': case 'G': lat = py; lon = mod(px, 360); break;
      case 'L': if (t == 'L') { px -= 1; py -= 1; } lat = xg[0] + py * xg[2]; lon = mod(xg[1] + px * xg[3], 360); break;
      case 'E': { P3 p = rot().from(xyz(py, px)); lat = latof(p); lon = lonof(p); break; }
      case 'N': case 'S': { double s = geo() == 'N' ? 1 : -1, re = (1 + sin(60 * D2R)) * 6371000.0 / xg[2], u = px - xg[0], v = py - xg[1], r = hypot(u, v);
        lat = s * (90 - 2 * atan(r / re) / D2R); lon = mod(s * (atan2(v, u) / D2R - xg[3]), 360); break; } } }
  void ll(double x, double y, double &lat, double &lon) { double a, b; plane(x, y, a, b); unplane(a, b, lat, lon); }
  bool wraps() const { return t == 'A' || t == 'G' || t == 'B' || t == 'E'; }
  double period() const { return t == 'A' || t == 'G' ? ni : t == 'B' || t == 'E' ? ni - 1 : 0; }
  // a wind blowing from direction wd (degrees, meteorological) with speed spd, seen along the grid's x and y
  void uv(double lat, double lon, double spd, double wd, double &u, double &v) const {
    P3 e = {{-sin(lon * D2R), cos(lon * D2R), 0}}, n = {{-sin(lat * D2R) * cos(lon * D2R), -sin(lat * D2R) * sin(lon * D2R), cos(lat * D2R)}}, w;
    double ue = -spd * sin(wd * D2R), vn = -spd * cos(wd * D2R);
    switch (geo()) {
      case 'N': { double th = (lon + xg[3]) * D2R; // north points to the pole, east is counterclockwise
        u = -ue * sin(th) - vn * cos(th); v = ue * cos(th) - vn * sin(th); break; }
      case 'S': { double th = (xg[3] - lon) * D2R; u = ue * sin(th) + vn * cos(th); v = -ue * cos(th) + vn * sin(th); break; }
      case 'E': { for (int k = 0; k < 3; k++) w.v[k] = ue * e.v[k] + vn * n.v[k];
        Rot R = rot(); P3 q = R.to(xyz(lat, lon)), ww = R.to(w); double lo = lonof(q) * D2R, la = latof(q) * D2R;
        P3 ee = {{-sin(lo), cos(lo), 0}}, nn = {{-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la)}}; u = dot(ww, ee); v = dot(ww, nn); break; }
      default: u = ue; v = vn; } }
};
// The family of grids the checks enumerate
static inline vector<Grid> family(bool big) {
  vector<Grid> r; Grid g;
  for (char t : {'A', 'B', 'G'}) for (int ni : big ? vector<int>{4, 5, 6, 9, 16} : vector<int>{4, 5, 8}) for (int nj : big ? vector<int>{4, 5, 6, 8, 11} : vector<int>{4, 6, 7}) for (int h = 0; h < 3; h++) for (int f = 0; f < 2; f++) {
    if (t == 'G' && (nj & 1)) continue; g = Grid(); g.t = t; g.ni = ni; g.nj = nj; g.ig[0] = h; g.ig[1] = f; r.push_back(g); }
  double L[][4] = {{-30, 10, 5, 5}, {20, 200, 2.5, 4}, {-60, 340, 10, 8}, {-90, 0, 30, 45}, {-85, 0, 10, 30}, {45, 180, 0.25, 0.5}, {0, 300, 1, 1}, {-85, 20, 10, 30}};
  int Ld[][2] = {{6, 5}, {5, 7}, {12, 7}, {8, 7}, {12, 18}, {7, 6}, {20, 9}, {12, 18}};
  for (int k = 0; k < 8; k++) { g = Grid(); g.t = 'L'; g.ni = Ld[k][0]; g.nj = Ld[k][1]; g.par('L', L[k][0], L[k][1], L[k][2], L[k][3]); r.push_back(g); }
  double S[][4] = {{4, 3, 600000, 0}, {4, 4, 1000000, 21}, {3.5, 4.5, 400000, 280}, {10, 20, 100000, 350}, {-5, 8, 150000, 90}, {1, 1, 500000, 180}};
  for (char t : {'N', 'S'}) for (auto &p : S) { g = Grid(); g.t = t; g.ni = 7; g.nj = 6; g.par(t, p[0], p[1], p[2], p[3]); r.push_back(g); }
  double E[][4] = {{0, 180, 0, 270}, {0, 180, 1, 270}, {50, 180, 0, 270}, {-30, 250, 20, 330}, {31.5, 92.5, -20.5, 30}, {56, 245, 10, 350}, {90, 0, 0, 45}};
  for (auto &p : E) for (int ni : {9, 13}) { g = Grid(); g.t = 'E'; g.ni = ni; g.nj = ni == 9 ? 6 : 7; g.par('E', p[0], p[1], p[2], p[3]); r.push_back(g); }
  vector<vector<float>> X = {{0, 5, 10, 15, 20, 25}, {1, 3, 9, 20, 28, 31, 50}, {100.5, 101, 102.5, 110, 140}, {0, 30, 60, 90, 120, 150, 180, 210, 240, 270, 300, 330}, {0, 45, 90, 135, 180, 225, 270, 315, 360}, {150, 160, 170, 180, 190, 200, 210}, {15, 45, 75, 105, 135, 165, 195, 225, 255, 285, 315, 345}};
  vector<vector<float>> Y = {{-10, -5, 0, 5, 10}, {-40, -37, -30, 0, 12, 60}, {30, 31, 33, 40}, {-80, -60, -40, -20, 0, 20, 40, 60, 80}, {-90, -50, -20, 20, 50, 90}, {-20, -10, 0, 5, 25}, {-75, -40, -10, 20, 50, 70}};
  for (int k = 0; k < 7; k++) {
    g = Grid(); g.t = 'Z'; g.ref = 'L'; g.ax = X[k]; g.ay = Y[k]; g.ni = X[k].size(); g.nj = Y[k].size(); g.par('L', 0, 0, 1, 1); r.push_back(g);
    if (k < 3) { g.par('L', -10, 20, 0.5, 0.25); r.push_back(g); }
    for (auto &p : E) { g.ref = 'E'; g.par('E', p[0], p[1], p[2], p[3]); r.push_back(g); if (!big) break; }
    if (k != 0 && !big) { g.par('E', E[k][0], E[k][1], E[k][2], E[k][3]); r.push_back(g); }
    for (char t : {'N', 'S'}) { int m = 0; for (auto &p : S) { if (!big && m++ % 3) continue; g.ref = t; g.par(t, p[0], p[1], p[2], p[3]); r.push_back(g); } }
  }
  return r;
}
}
#endif
