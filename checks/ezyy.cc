// E06: Yin-Yang grids: geometry, choice of the subgrid, and the whole interpolation operator on scalars and winds
#include "ezop.hh"

extern "C" {

int c_fnom(int *, const char *, const char *, int); int c_fstouv(int, const char *); int c_fstfrm(int); int c_fclos(int);
int c_fstecr(void *, void *, int, int, int, int, int, int, int, int, int, int, int, const char *, const char *, const char *, const char *, int, int, int, int, int, int);
}
using namespace vh; using namespace ez;
static void opt(const char *o, const char *v) { char a[32], b[32]; strcpy(a, o); strcpy(b, v); if (c_ezsetopt(a, b) < 0) fail("ezsetopt %s %s refused", o, v); }
static string getopt_(const char *o) { char a[32], b[64] = {0}; strcpy(a, o); c_ezgetopt(a, b); return b; }
static void val(const char *o, float v) { char a[32]; strcpy(a, o); c_ezsetval(a, v); }
static float getval(const char *o) { char a[32]; strcpy(a, o); float v = -1; c_ezgetval(a, &v); return v; }
static const char *DEG[] = {"nearest", "linear", "", "cubic"};
struct M2 { double a[2][2]; };
static M2 tmat(const Grid &g, double la, double lo) { M2 m; double u, v; g.uv(la, lo, 1, 270, u, v); m.a[0][0] = u; m.a[1][0] = v; g.uv(la, lo, 1, 180, u, v); m.a[0][1] = u; m.a[1][1] = v; return m; }
static M2 mulT(const M2 &t, const M2 &s) { M2 r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.a[i][j] = t.a[i][0] * s.a[j][0] + t.a[i][1] * s.a[j][1]; return r; } // t times the inverse of the rotation s
struct YY { Grid s[2]; int id = -1, ni, nj; double c0, c1, d0, d1; Op *o[2];
  YY(const vector<float> &ax, const vector<float> &ay, const double *r) {
    Grid g; g.t = 'Z'; g.ref = 'E'; g.ax = ax; g.ay = ay; g.ni = ni = ax.size(); g.nj = nj = ay.size(); g.par('E', r[0], r[1], r[2], r[3]); s[0] = g;
    Rot R = g.rot(); P3 a = R.r[0], b = R.r[2]; for (int k = 0; k < 3; k++) b.v[k] = -b.v[k];
    g.par('E', latof(a), lonof(a), latof(b), lonof(b)); s[1] = g; o[0] = new Op(s[0]); o[1] = new Op(s[1]);
    c0 = d0 = 1e9; c1 = d1 = -1e9; for (float x : ax) if (x >= 45 && x <= 315) { c0 = std::min(c0, (double)x); c1 = std::max(c1, (double)x); }
    for (float x : ay) if (x >= -45 && x <= 45) { d0 = std::min(d0, (double)x); d1 = std::max(d1, (double)x); } }
  bool create() { if (s[0].create() < 0 || s[1].create() < 0) return false; int sub[2] = {s[0].id, s[1].id}; char U[2] = "U", F[2] = "F"; id = c_ezgdef_supergrid(ni, 2 * nj, U, F, 1, 2, sub); return id >= 0; }
  void where(int k, double la, double lo, double &px, double &py) { P3 p = s[k].rot().to(xyz(la, lo)); px = lonof(p); py = latof(p); }
  // -1: well outside the subgrid, 1: well inside, 0: on its border
  int in(int k, double la, double lo) { double px, py; where(k, la, lo, px, py); auto &X = s[k].ax; auto &Y = s[k].ay; double e = 0.02;
    if (px > X.front() + e && px < X.back() - e && py > Y.front() + e && py < Y.back() - e) return 1;
    if (px < X.front() - e || px > X.back() + e || py < Y.front() - e || py > Y.back() + e) return -1; return 0; }
  bool core(double la, double lo) { double px, py; where(0, la, lo, px, py); double e = 0.02; return px > c0 + e && px < c1 - e && py > d0 + e && py < d1 - e; }
  void pos(int k, double la, double lo, double &x, double &y) { double px, py; where(k, la, lo, px, py); x = Grid::pos(vector<double>(s[k].ax.begin(), s[k].ax.end()), px); y = Grid::pos(vector<double>(s[k].ay.begin(), s[k].ay.end()), py); }
  // bit 0: the Yin subgrid may serve the point, bit 1: the Yang subgrid
  int serve(double la, double lo) { int a = in(0, la, lo), b = in(1, la, lo); if (core(la, lo)) return 1; if (a < 0) return b < 0 ? 3 : 2; if (b < 0) return 1; return 3; }
};
struct T { double la, lo; M2 t; bool deg0; };
typedef vector<vector<float>> Mat; // [impulse][point]
static bool same(const vector<float> &a, const vector<float> &b) { for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false; return a.size() == b.size(); } // far extrapolations overflow
static bool tie(YY &y, const T &t) { for (int k = 0; k < 2; k++) { double a, b; y.pos(k, t.la, t.lo, a, b); if (fabs(a - floor(a) - 0.5) < 0.03 || fabs(b - floor(b) - 0.5) < 0.03) return true; } return false; }
// which: -1 decided by serve(), else the subgrid itself
static bool cmp(YY &y, const char *what, int deg, const vector<T> &p, const Mat &m, double tol) {
  int n = y.ni * y.nj;
  for (size_t k = 0; k < p.size(); k++) { if (deg == 0 && p[k].deg0) continue; int sv = y.serve(p[k].la, p[k].lo); double best = 1e9; string why; count(fmt("points served by %s", sv == 1 ? "Yin" : sv == 2 ? "Yang" : "either"));
    for (int h = 0; h < 2; h++) if (sv >> h & 1) { double px, py; y.pos(h, p[k].la, p[k].lo, px, py); W w = y.o[h]->general(deg, px, py); double s = 0, worst = 0; int wc = 0; for (auto &c : w) s += fabs(c.second);
      for (int c = 0; c < 2 * n; c++) { double e = 0; if (c / n == h) { auto it = w.find(c % n); if (it != w.end()) e = it->second; } double d = fabs(m[c][k] - e) / (1 + s); eval(); if (!(d <= worst)) { worst = d; wc = c; } }
      if (!(worst >= best)) { best = worst; auto it = w.find(wc % n); why = fmt("%s position (%g,%g): the weight of its %s point (%d,%d) is %g, should be %g", h ? "Yang" : "Yin", px, py, wc / n ? "Yang" : "Yin", wc % y.ni + 1, wc % n / y.ni + 1, m[wc][k], wc / n == h && it != w.end() ? it->second : 0.0); } }
    if (!(best <= tol)) { fail("%s %s: at lat %g lon %g (%s), %s", what, DEG[deg], p[k].la, p[k].lo, sv == 1 ? "Yin" : sv == 2 ? "Yang" : "both", why.c_str()); return false; } }
  return true; }
enum Form { GEO, COMP, SPD };
static bool cmpw(YY &y, const char *what, int deg, const vector<T> &p, const Mat &mu, const Mat &mv, Form form, double tol) {
  int n = y.ni * y.nj;
  for (size_t k = 0; k < p.size(); k++) { if (deg == 0 && p[k].deg0) continue; int sv = y.serve(p[k].la, p[k].lo); double best = 1e9; string why;
    if (fabs(p[k].la) > 84) continue;
    for (int h = 0; h < 2; h++) if (sv >> h & 1) { double px, py; y.pos(h, p[k].la, p[k].lo, px, py); W w = y.o[h]->general(deg, px, py); double s = 0, worst = 0; string wy; for (auto &c : w) s += fabs(c.second);
      M2 S = tmat(y.s[h], p[k].la, p[k].lo), t = p[k].t; if (form == SPD) { t.a[0][0] = t.a[1][1] = 1; t.a[0][1] = t.a[1][0] = 0; } M2 R = mulT(t, S); if (form == COMP) { R.a[0][0] = R.a[1][1] = 1; R.a[0][1] = R.a[1][0] = 0; }
      for (int c = 0; c < 4 * n; c++) { int cell = c % (2 * n), isv = c / (2 * n); double e = 0; if (cell / n == h) { auto it = w.find(cell % n); if (it != w.end()) e = it->second; }
        double eu = e * R.a[0][isv], ev = e * R.a[1][isv], gu = mu[c][k], gv = mv[c][k]; if (form == SPD) { double sp = gu, wd = gv * D2R; if (!(sp >= 0) || !(gv >= -1e-3 && gv <= 360.001)) { fail("%s: speed %g direction %g", what, gu, gv); return false; } gu = -sp * sin(wd); gv = -sp * cos(wd); }
        double d = std::max(fabs(gu - eu), fabs(gv - ev)) / (1 + s); eval(); if (!(d <= worst)) { worst = d; wy = fmt("%s position (%g,%g): unit %s at its %s point (%d,%d) gives (%g,%g), should be (%g,%g)", h ? "Yang" : "Yin", px, py, isv ? "v" : "u", cell / n ? "Yang" : "Yin", cell % n % y.ni + 1, cell % n / y.ni + 1, gu, gv, eu, ev); } }
      if (!(worst >= best)) { best = worst; why = wy; } }
    if (!(best <= tol)) { fail("%s %s: at lat %g lon %g (%s), %s", what, DEG[deg], p[k].la, p[k].lo, sv == 1 ? "Yin" : sv == 2 ? "Yang" : "both", why.c_str()); return false; } }
  return true; }
static vector<T> globe(YY &y, double dla, double dlo) { vector<T> p; for (double la = -88.3; la < 89; la += dla) for (double lo = 0.37; lo < 360; lo += dlo) { T t; t.la = (float)la; t.lo = (float)lo; t.t.a[0][0] = t.t.a[1][1] = 1; t.t.a[0][1] = t.t.a[1][0] = 0; t.deg0 = tie(y, t); p.push_back(t); } return p; }
static vector<T> points(YY &y, Grid &g) { vector<T> p; for (int j = 1; j <= g.nj; j++) for (int i = 1; i <= g.ni; i++) { T t; g.ll(i, j, t.la, t.lo); t.t = tmat(g, t.la, t.lo); t.deg0 = tie(y, t); p.push_back(t); } return p; }
// ---- geometry and identity
static void geom(YY y, YY z) {
  if (!y.create()) { fail("the grid cannot be defined"); return; } int n = y.ni * y.nj; int sub[4] = {-7, -7, -7, -7};
  { Grid a; a.t = 'L'; a.ni = 4; a.nj = 4; a.par('L', 0, 0, 1, 1); a.create(); int s[2] = {-7, -7}; if (c_ezget_nsubgrids(a.id) != 1 || c_ezget_subgridids(a.id, s) != 1 || s[0] != a.id || s[1] != -7) fail("subgrids of a plain grid"); }
  if (c_ezget_nsubgrids(y.id) != 2 || c_ezget_subgridids(y.id, sub) != 2 || sub[0] != y.s[0].id || sub[1] != y.s[1].id || sub[2] != -7) { fail("subgrids %d: %d %d, defined with %d %d", c_ezget_nsubgrids(y.id), sub[0], sub[1], y.s[0].id, y.s[1].id); return; }
  char t = '?'; int ni, nj, ig[4]; c_ezgprm(y.id, &t, &ni, &nj, ig, ig + 1, ig + 2, ig + 3); if (t != 'U' || ni != y.ni || nj != 2 * y.nj) fail("parameters %c %dx%d", t, ni, nj);
  YY again = y; if (!again.create() || again.id != y.id) fail("the same definition gives identifier %d then %d", y.id, again.id);
  // another second or first subgrid, another order, other axes: other grids
  z.s[0] = y.s[0]; if (!z.create() || z.id == y.id) fail("another Yang subgrid gives the same identifier"); 
  YY w = y; std::swap(w.s[0], w.s[1]); if (!w.create() || w.id == y.id || w.id == z.id) fail("exchanged subgrids give the same identifier");
  c_ezget_subgridids(y.id, sub); if (sub[0] != y.s[0].id || sub[1] != y.s[1].id) fail("another definition changed the subgrids");
  c_ezget_subgridids(z.id, sub); if (sub[0] != y.s[0].id || sub[1] != z.s[1].id) fail("subgrids of the second grid %d %d", sub[0], sub[1]);
  for (int u : {y.id, z.id, y.id}) { auto &q = u == y.id ? y : z; vector<float> la(2 * n, -999), lo(2 * n, -999); if (c_gdll(u, la.data(), lo.data()) != 0) fail("gdll failed");
    for (int k = 0; k < 2 * n; k++) { double a, b; q.s[k / n].ll(k % n % q.ni + 1, k % n / q.ni + 1, a, b); eval(); if (dist(la[k], lo[k], a, b) > 0.01) { fail("gdll: point (%d,%d) at %g,%g, should be %g,%g", k % q.ni + 1, k / q.ni + 1, la[k], lo[k], a, b); return; } } }
  vector<float> X, Y, la, lo; const double off[] = {0, 0.25, 0.5, 0.8};
  for (int h = 0; h < 2; h++) for (int j = 1; j <= y.nj; j++) for (double dy : off) for (int i = 1; i <= y.ni; i++) for (double dx : off) { if (i + dx > y.ni || j + dy > y.nj) continue; X.push_back(i + dx); Y.push_back(j + dy + h * y.nj); }
  int m = X.size(); la.assign(m, -999); lo = la; if (c_gdllfxy(y.id, la.data(), lo.data(), X.data(), Y.data(), m) != 0) fail("gdllfxy failed");
  for (int k = 0; k < m; k++) { int h = Y[k] > y.nj; double a, b; y.s[h].ll(X[k], Y[k] - h * y.nj, a, b); eval(); if (dist(la[k], lo[k], a, b) > 0.01) { fail("gdllfxy: position (%g,%g) at %g,%g, should be %g,%g", X[k], Y[k], la[k], lo[k], a, b); return; } }
  auto p = globe(y, 3.1, 4.3); m = p.size(); la.resize(m); lo.resize(m); for (int k = 0; k < m; k++) { la[k] = p[k].la; lo[k] = p[k].lo; } X.assign(m, -999); Y = X; auto la0 = la, lo0 = lo;
  for (int conv = 0; conv < 3; conv++) { for (int k = 0; k < m; k++) lo[k] = conv == 1 && lo0[k] > 180 ? lo0[k] - 360 : conv == 2 && lo0[k] < 10 ? lo0[k] + 360 : lo0[k]; auto l1 = lo; 
    c_gdxyfll(y.id, X.data(), Y.data(), la.data(), lo.data(), m); if (la != la0 || lo != l1) { fail("gdxyfll changed its input"); return; }
    for (int k = 0; k < m; k++) { int h = Y[k] > y.nj; int sv = y.serve(p[k].la, p[k].lo); double yy = Y[k] - h * y.nj, a, b; eval();
      if (X[k] < 0.99 || X[k] > y.ni + 0.01 || yy < 0.99 || yy > y.nj + 0.01) { if (y.in(0, p[k].la, p[k].lo) > 0 || y.in(1, p[k].la, p[k].lo) > 0) { fail("gdxyfll: %g,%g is placed at (%g,%g), outside both subgrids", p[k].la, p[k].lo, X[k], Y[k]); return; } continue; }
      if (!(sv >> h & 1)) { fail("gdxyfll: %g,%g is placed in %s", p[k].la, p[k].lo, h ? "Yang" : "Yin"); return; }
      y.s[h].ll(X[k], yy, a, b); if (dist(p[k].la, p[k].lo, a, b) > 0.02) { fail("gdxyfll: %g,%g is placed at (%g,%g), which is %g,%g", p[k].la, p[k].lo, X[k], Y[k], a, b); return; } } }
  // what these grids do not do
  float f[4] = {0, 0, 0, 0}, one[1] = {10};
  if (c_gdllvval(y.id, f, f + 1, la.data(), la.data(), one, one, 1) != -1 || c_gdlluvfuv(y.id, f, f + 1, f, f, one, one, 1) != -1 || c_gduvfwd(y.id, f, f + 1, f, f, one, one, 1) != -1 || c_gdwdfuv(y.id, f, f + 1, f, f, one, one, 1) != -1) fail("an operation not defined on these grids is accepted");
  // release and define again
  if (c_gdrls(again.id) != 0 || c_gdrls(y.id) != 0) fail("release failed");
  la.assign(2 * n, -999); lo = la; if (c_gdll(z.id, la.data(), lo.data()) != 0) fail("gdll failed after a release"); double a, b; z.s[1].ll(1, 1, a, b); if (dist(la[n], lo[n], a, b) > 0.01) fail("a release moved another grid");
  if (!y.create()) fail("the grid cannot be defined again"); c_gdll(y.id, la.data(), lo.data()); y.s[1].ll(1, 1, a, b); if (dist(la[n], lo[n], a, b) > 0.01) fail("defined again, Yang is somewhere else");
  outcome("geometry");
}
// ---- interpolation from the Yin-Yang grid
static void from(YY y, int tk, int which, YY other) {
  if (!y.create()) { fail("the grid cannot be defined"); return; } int n = y.ni * y.nj; vector<T> p; int go = -1; Grid g; bool up = false;
  if (tk == 0) { p = globe(y, thorough ? 4.7 : 8.9, thorough ? 7.7 : 13.1); vector<float> la, lo; for (auto &t : p) { la.push_back(t.la); lo.push_back(t.lo); } Grid l; l.par('L', 0, 0, 1, 1); char Y[2] = "Y", L[2] = "L"; go = c_ezgdef_fmem(p.size(), 1, Y, L, l.ig[0], l.ig[1], l.ig[2], l.ig[3], lo.data(), la.data()); }
  if (tk == 1) { g.t = 'L'; g.ni = 25; g.nj = 14; g.par('L', -78, 3.35, 11.75, 14); }
  if (tk == 2 || tk == 3) { g.t = tk == 2 ? 'N' : 'S'; g.ni = 9; g.nj = 8; g.par(g.t, 4.2, 3.7, 900000, 21); }
  if (tk == 4) { g.t = 'Z'; g.ref = 'E'; g.ax = {11, 36, 61.5, 84, 120, 144, 177, 205, 231, 260, 300, 333}; g.ay = {-71, -44, -30.5, -11, 3, 27, 44.5, 68}; g.ni = 12; g.nj = 8; g.par('E', 31.5, 92.5, -20.5, 30); }
  if (tk == 5) { g.t = 'G'; g.ni = 16; g.nj = 12; }
  if (tk >= 1 && tk <= 5) { go = g.create(); p = points(y, g); }
  if (tk == 6) { up = true; if (!other.create()) { fail("the target grid cannot be defined"); return; } go = other.id; p = points(y, other.s[0]); auto q = points(y, other.s[1]); p.insert(p.end(), q.begin(), q.end()); }
  if (go < 0) { fail("the target grid cannot be defined"); return; }
  int np = p.size(); vector<float> f(2 * n), r, la(np), lo(np), X(np), Y(np); for (int k = 0; k < np; k++) { la[k] = p[k].la; lo[k] = p[k].lo; }
  // options of the caller
  static const char *XD[] = {"neutral", "value", "maximum", "nearest", "abort", "linear", "minimum", "cubic"};
  int combo = 0;
  if (which == 0) for (int deg : {0, 1, 3}) { opt("interp_degree", DEG[deg]); opt("polar_correction", deg == 1 ? "no" : "yes"); string xd = XD[(combo++ + tk) % 8]; opt("extrap_degree", xd.c_str()); xd = getopt_("extrap_degree"); val("extrap_value", -31.5f - deg);
    auto chk = [&](const char *w) { if (getopt_("interp_degree") != DEG[deg]) fail("%s changed interp_degree %s to %s", w, DEG[deg], getopt_("interp_degree").c_str()); if (getopt_("extrap_degree") != xd) fail("%s changed extrap_degree %s to %s", w, xd.c_str(), getopt_("extrap_degree").c_str()); if (getval("extrap_value") != -31.5f - deg) fail("%s changed extrap_value to %g", w, getval("extrap_value")); };
    Mat m(2 * n), ml(2 * n), mx(2 * n); c_gdxyfll(y.id, X.data(), Y.data(), la.data(), lo.data(), np);
    if (c_ezdefset(go, y.id) < 0) { fail("ezdefset failed"); return; }
    for (int c = 0; c < 2 * n; c++) { f.assign(2 * n, 0); f[c] = 1; auto fc = f; r.assign(np, -99); int rc = c_ezsint(r.data(), f.data()); trans(); if (c == 0) { if (rc < 0) { fail("ezsint returns %d", rc); return; } chk("ezsint"); } m[c] = r;
      if (!up) { r.assign(np, -99); c_gdllsval(y.id, r.data(), f.data(), la.data(), lo.data(), np); ml[c] = r; r.assign(np, -99); c_gdxysval(y.id, r.data(), f.data(), X.data(), Y.data(), np); mx[c] = r; if (mx[c] != ml[c]) { fail("gdllsval and gdxysval differ"); return; } }
      if (f != fc) { fail("the input changed"); return; } }
    if (!cmp(y, "ezsint", deg, p, m, 0.01)) return;
    if (!up && !cmp(y, "gdllsval", deg, p, ml, 0.01)) return; }
  else for (int deg : {0, 1, 3}) { opt("interp_degree", DEG[deg]); opt("polar_correction", deg == 1 ? "no" : "yes"); string xd = XD[(combo++ + tk + 3) % 8]; opt("extrap_degree", xd.c_str()); xd = getopt_("extrap_degree"); val("extrap_value", -31.5f - deg);
    Mat u(4 * n), v(4 * n), s(4 * n), d(4 * n), cu(4 * n), cv(4 * n), ws(4 * n), wd(4 * n), ls(4 * n), ld(4 * n); c_gdxyfll(y.id, X.data(), Y.data(), la.data(), lo.data(), np);
    if (c_ezdefset(go, y.id) < 0) { fail("ezdefset failed"); return; }
    for (int c = 0; c < 4 * n; c++) { vector<float> a(2 * n, 0), b(2 * n, 0); (c < 2 * n ? a : b)[c % (2 * n)] = 1; auto ac = a, bc = b; auto z = [&](Mat &q) { q[c].assign(np, -99); return q[c].data(); }; float *p1, *p2; trans();
      p1 = z(u); p2 = z(v); if (c_ezuvint(p1, p2, a.data(), b.data()) < 0) { fail("ezuvint failed"); return; }
      p1 = z(s); p2 = z(d); if (c_ezwdint(p1, p2, a.data(), b.data()) < 0) { fail("ezwdint failed"); return; }
      if (c == 0 && (getopt_("interp_degree") != DEG[deg] || getopt_("extrap_degree") != xd || getval("extrap_value") != -31.5f - deg)) fail("interpolating winds changed the options");
      if (!up) { p1 = z(cu); p2 = z(cv); c_gdxyvval(y.id, p1, p2, a.data(), b.data(), X.data(), Y.data(), np); p1 = z(ws); p2 = z(wd); c_gdxywdval(y.id, p1, p2, a.data(), b.data(), X.data(), Y.data(), np); p1 = z(ls); p2 = z(ld); c_gdllwdval(y.id, p1, p2, a.data(), b.data(), la.data(), lo.data(), np); }
      if (a != ac || b != bc) { fail("the input winds changed"); return; } }
    if (!cmpw(y, "ezuvint", deg, p, u, v, GEO, 0.01) || !cmpw(y, "ezwdint", deg, p, s, d, SPD, 0.01)) return;
    if (!up && (!cmpw(y, "gdxyvval", deg, p, cu, cv, COMP, 0.01) || !cmpw(y, "gdxywdval", deg, p, ws, wd, SPD, 0.01) || !cmpw(y, "gdllwdval", deg, p, ls, ld, SPD, 0.01))) return; }
  opt("polar_correction", "yes"); // one subgrid only
  if (!up && tk > 0) { vector<float> b(2 * n), r0(np, -9), r1(np, -9), r2(np, -9), q1(np, -9), q2(np, -9); for (int c = 0; c < 2 * n; c++) { f[c] = sin(c * 0.37) * 10; b[c] = cos(c * 0.21) * 7; } opt("extrap_degree", "value"); val("extrap_value", 55);
    c_ezdefset(go, y.id); c_ezsint(r0.data(), f.data());
    for (int h = 0; h < 2; h++) { opt("use_1subgrid", "yes"); char sid[] = "subgridid"; c_ezsetival(sid, y.s[h].id); c_ezdefset(go, y.id);
      if (which == 0) { int rc = c_ezsint(r1.data(), f.data()); c_ezdefset(go, y.s[h].id); int rd = c_ezsint(r2.data(), &f[h * n]); if (rc != rd || r1 != r2) { fail("one subgrid: returns %d, %d; the values %s those of the subgrid", rc, rd, r1 == r2 ? "are" : "are not"); return; } }
      else { int rc = c_ezuvint(r1.data(), q1.data(), f.data(), b.data()); c_ezdefset(go, y.s[h].id); int rd = c_ezuvint(r2.data(), q2.data(), &f[h * n], &b[h * n]); if (rc != rd || r1 != r2 || q1 != q2) { fail("one subgrid: winds differ from those of the subgrid (%d, %d)", rc, rd); return; }
        c_ezdefset(go, y.id); rc = c_ezwdint(r1.data(), q1.data(), f.data(), b.data()); c_ezdefset(go, y.s[h].id); rd = c_ezwdint(r2.data(), q2.data(), &f[h * n], &b[h * n]); if (rc != rd || r1 != r2 || q1 != q2) { fail("one subgrid: speeds differ from those of the subgrid (%d, %d)", rc, rd); return; } }
      eval(); opt("use_1subgrid", "no"); }
    char sid[] = "subgridid"; opt("use_1subgrid", "yes"); c_ezsetival(sid, go); c_ezdefset(go, y.id); if (c_ezsint(r1.data(), f.data()) != -1) fail("a grid that is no subgrid is accepted"); opt("use_1subgrid", "no");
    c_ezdefset(go, y.id); c_ezsint(r1.data(), f.data()); if (r1 != r0) fail("the result differs after the use of one subgrid"); }
  // the subgrids themselves as targets
  if (tk == 1) for (int h = 0; h < 2; h++) { vector<float> b(2 * n), r1(n, -9), r2(n, -9); for (int c = 0; c < 2 * n; c++) { f[c] = sin(c * 0.37) * 10; b[c] = cos(c * 0.21) * 7; } c_ezdefset(y.s[h].id, y.id); opt("interp_degree", "cubic");
    if (which == 0) { int rc = c_ezsint(r1.data(), f.data()); if (rc < 0) fail("to its own subgrid: returns %d", rc); for (int c = 0; c < n; c++) if (fabs(r1[c] - f[h * n + c]) > 0.05) { fail("to its own subgrid %d: point %d is %g, should be %g", h, c, r1[c], f[h * n + c]); return; } }
    else { c_ezuvint(r1.data(), r2.data(), f.data(), b.data()); for (int c = 0; c < n; c++) if (fabs(r1[c] - f[h * n + c]) > 0.1 || fabs(r2[c] - b[h * n + c]) > 0.1) { fail("to its own subgrid %d: wind of point %d is %g,%g, should be %g,%g", h, c, r1[c], r2[c], f[h * n + c], b[h * n + c]); return; } }
    eval(); }
  outcome(fmt("from Yin-Yang to target %d %s", tk, which ? "winds" : "scalars"));
}
// ---- interpolation to the Yin-Yang grid: each half is the interpolation to its subgrid
static void to(YY y, Grid g) {
  if (!y.create() || g.create() < 0) { fail("the grids cannot be defined"); return; } int n = y.ni * y.nj, m = g.ni * g.nj; vector<float> a(m), b(m), r(2 * n), s(2 * n), r2(2 * n), s2(2 * n);
  for (int deg : {0, 1, 3}) for (const char *xd : {"neutral", "value", "linear", "minimum", "abort"}) for (int pc = 0; pc < 2; pc++) { opt("interp_degree", DEG[deg]); opt("extrap_degree", xd); opt("polar_correction", pc ? "yes" : "no"); val("extrap_value", 3);
    for (int c = 0; c < m; c++) { a[c] = sin(c * 0.37) * 10; b[c] = cos(c * 0.21) * 7; }
    for (int form = 0; form < 3; form++) { r.assign(2 * n, -9); s = r2 = s2 = r; int ri[2], ru; trans();
      auto go = [&](int id, float *x, float *y_) { c_ezdefset(id, g.id); return form == 0 ? c_ezsint(x, a.data()) : form == 1 ? c_ezuvint(x, y_, a.data(), b.data()) : c_ezwdint(x, y_, a.data(), b.data()); };
      for (int h = 0; h < 2; h++) ri[h] = go(y.s[h].id, &r[h * n], &s[h * n]);
      ru = go(y.id, r2.data(), s2.data()); eval();
      int want = ri[0] < 0 || ri[1] < 0 ? -1 : ri[0] == 2 || ri[1] == 2 ? 2 : 0; 
      if (!same(r, r2) || (form && !same(s, s2))) { fail("%s %s %s: the values are not those of the subgrids", form == 0 ? "ezsint" : form == 1 ? "ezuvint" : "ezwdint", DEG[deg], xd); return; }
      if (ru != want) { fail("%s %s %s: returns %d, the subgrids return %d and %d", form == 0 ? "ezsint" : form == 1 ? "ezuvint" : "ezwdint", DEG[deg], xd, ru, ri[0], ri[1]); return; } } }
  outcome(fmt("to Yin-Yang from %c", g.t));
}
// ---- a target that already has many sources
static void many(YY y, int k) {
  if (!y.create()) { fail("the grid cannot be defined"); return; } Grid g; g.t = 'L'; g.ni = 9; g.nj = 7; g.par('L', -70.5, 3.35, 20.75, 33); g.create(); auto p = points(y, g); int n = y.ni * y.nj;
  vector<float> z(12, 0), r(63);
  for (int i = 0; i < k; i++) { Grid s; s.t = 'L'; s.ni = 4; s.nj = 3; s.par('L', -60 + i * 0.5, i, 5, 5); s.create(); c_ezdefset(g.id, s.id); if (i % 3 == 0) c_ezsint(r.data(), z.data()); }
  opt("interp_degree", "linear"); vector<float> f(2 * n); for (int c = 0; c < 2 * n; c++) f[c] = c % 17 + c / n * 100;
  for (int rep = 0; rep < 2; rep++) { if (rep == 0) c_ezdefset(g.id, y.id); r.assign(63, -9); if (c_ezsint(r.data(), f.data()) < 0) fail("ezsint failed"); trans();
    for (int q = 0; q < 63; q++) { int sv = y.serve(p[q].la, p[q].lo); bool ok = false; double e = 0; for (int h = 0; h < 2; h++) if (sv >> h & 1) { double px, py; y.pos(h, p[q].la, p[q].lo, px, py); e = 0; for (auto &c : y.o[h]->general(1, px, py)) e += c.second * f[h * n + c.first]; if (fabs(r[q] - e) < 0.3) ok = true; }
      eval(); if (!ok) { fail("with %d other sources, point %d is %g, should be %g", k, q, r[q], e); return; } } }
  outcome("many sources");
}
// ---- a grid read from its descriptor in a file
static void file(YY y, int ip) {
  char nm[64]; snprintf(nm, 64, "yy%d.fst", getpid()); unlink(nm); int iun = 0; if (c_fnom(&iun, nm, "STD+RND", 0) < 0 || c_fstouv(iun, "RND") < 0) { fail("the file cannot be opened"); return; }
  vector<float> d; auto add = [&](int k) { d.insert(d.end(), {1, (float)y.s[k].xg[0]}); };
  (void)add; int n1 = 15 + y.ni + y.nj; d.assign(n1 + 10 + y.ni + y.nj, 0); d[0] = 3; d[1] = 1; d[2] = 2; d[3] = 1; d[4] = 0; d[5] = y.ni; d[6] = y.nj; d[7] = y.s[0].ax.front(); d[8] = y.s[0].ax.back(); d[9] = y.s[0].ay.front(); d[10] = y.s[0].ay.back(); for (int k = 0; k < 4; k++) { d[11 + k] = y.s[0].xg[k]; d[n1 + 6 + k] = y.s[1].xg[k]; }
  for (int h = 0; h < 2; h++) { int o = h ? n1 + 10 : 15; std::copy(y.s[0].ax.begin(), y.s[0].ax.end(), d.begin() + o); std::copy(y.s[0].ay.begin(), y.s[0].ay.end(), d.begin() + o + y.ni); }
  d[n1] = y.ni; d[n1 + 1] = y.nj; for (int k = 0; k < 4; k++) d[n1 + 2 + k] = d[7 + k];
  int w[3] = {1200 + ip, 77 - ip, 3 + ip}; float work[4];
  for (int dec = 0; dec < 2; dec++) { auto e = d; if (!dec) for (auto &x : e) x += 1; // another grid in the same file
    if (c_fstecr(e.data(), work, -32, iun, 0, 0, 0, e.size(), 1, 1, dec ? w[0] : w[0] + 1, w[1], w[2], "X", "^>", "YIN_YANG", "F", 1, 0, 0, 0, 5, 0) < 0) fail("the descriptor cannot be written"); }
  char U[2] = "U"; int u = c_ezqkdef(y.ni, 2 * y.nj, U, w[0], w[1], w[2], 0, iun), n = y.ni * y.nj, u2;
  if (u < 0) { fail("the grid cannot be read: %d", u); return; } u2 = c_ezqkdef(y.ni, 2 * y.nj, U, w[0], w[1], w[2], 0, iun); if (u2 != u) fail("read twice: %d %d", u, u2);
  char t = '?'; int ni, nj, ig[4], sub[2] = {-1, -1}; c_ezgprm(u, &t, &ni, &nj, ig, ig + 1, ig + 2, ig + 3); if (t != 'U' || ni != y.ni || nj != 2 * y.nj || ig[0] != w[0] || ig[1] != w[1] || ig[2] != w[2]) fail("parameters %c %dx%d %d %d %d", t, ni, nj, ig[0], ig[1], ig[2]);
  if (c_ezget_nsubgrids(u) != 2) fail("%d subgrids", c_ezget_nsubgrids(u)); c_ezget_subgridids(u, sub);
  vector<float> la(2 * n, -9), lo(2 * n, -9); c_gdll(u, la.data(), lo.data()); for (int k = 0; k < 2 * n; k++) { double a, b; y.s[k / n].ll(k % n % y.ni + 1, k % n / y.ni + 1, a, b); eval(); if (dist(la[k], lo[k], a, b) > 0.01) { fail("read from a file: point (%d,%d) at %g,%g, should be %g,%g", k % y.ni + 1, k / y.ni + 1, la[k], lo[k], a, b); return; } }
  for (int h = 0; h < 2; h++) { char tt = '?'; c_ezgprm(sub[h], &tt, &ni, &nj, ig, ig + 1, ig + 2, ig + 3); if (tt != 'Z' || ni != y.ni || nj != y.nj) fail("subgrid %d is %c %dx%d", h, tt, ni, nj); vector<float> ax(y.ni, -9), ay(y.nj, -9); c_gdgaxes(sub[h], ax.data(), ay.data()); if (ax != y.s[h].ax || ay != y.s[h].ay) fail("axes of subgrid %d", h); }
  if (c_ezqkdef(y.ni, 2 * y.nj, U, w[0] + 5, w[1], w[2], 0, iun) >= 0) fail("a grid whose descriptor is not in the file is defined");
  // the interpolation is that of the grid defined in memory
  if (!y.create()) { fail("the grid cannot be defined"); return; } int vsub[2]; c_ezget_subgridids(y.id, vsub); if (vsub[0] != sub[0] || vsub[1] != sub[1]) fail("the subgrids read are %d %d, those defined %d %d", sub[0], sub[1], vsub[0], vsub[1]);
  Grid g; g.t = 'L'; g.ni = 9; g.nj = 7; g.par('L', -70.5, 3.35, 20.75, 33); g.create(); vector<float> f(2 * n), r(63, -9), q(63, -9); for (int c = 0; c < 2 * n; c++) f[c] = sin(c * 0.7); c_ezdefset(g.id, u); c_ezsint(r.data(), f.data()); c_ezdefset(g.id, y.id); c_ezsint(q.data(), f.data()); if (r != q) fail("the interpolation differs from that of the same grid defined in memory");
  c_fstfrm(iun); c_fclos(iun); unlink(nm); outcome("read from a file");
}
int main(int argc, char **argv) {
  init(argc, argv);
  vector<vector<float>> AX(4), AY(4);
  for (int x = 35; x <= 325; x += 20) AX[0].push_back(x); for (int y = -55; y <= 55; y += 10) AY[0].push_back(y); AX[0].insert(AX[0].begin(), 15); AX[0].push_back(345);
  AX[1] = {21, 30, 42, 47.5, 60, 81, 99, 130, 151, 170, 181, 200, 222, 240, 260, 281, 299, 310, 318, 331}; AY[1] = {-61, -50, -44, -31, -20, -11, 0, 13, 22, 34, 44.5, 47, 59};
  for (int x = 45; x <= 315; x += 15) AX[2].push_back(x); for (int y = -45; y <= 45; y += 15) AY[2].push_back(y);
  for (double x = 35; x <= 326; x += 14.5) AX[3].push_back(x); for (double y = -54; y <= 54.1; y += 9) AY[3].push_back(y);
  double R[][4] = {{0, 180, 0, 270}, {31.5, 92.5, -20.5, 30}, {56, 245, 10, 350}, {0, 180, 1, 270}, {50, 180, 0, 270}, {-30, 250, 20, 330}, {90, 0, 0, 45}};
  int nr = thorough ? 7 : 3;
  for (int a = 0; a < 4; a++) for (int r = 0; r < nr; r++) { YY y(AX[a], AY[a], R[r]); YY z(AX[a], AY[a], R[(r + 1) % 7]); string nm = fmt("axes %d rotation %d ", a, r);
    if (begin_s(nm + "geometry")) { state(nm); isolated([&] { geom(y, z); }); }
    for (int tk = 0; tk < 7; tk++) for (int wh = 0; wh < 2; wh++) if (begin_s(nm + fmt("to target %d %s", tk, wh ? "winds" : "scalars"))) { state(nm + fmt("%d", tk)); isolated([&] { from(y, tk, wh, YY(AX[(a + 1) % 4], AY[(a + 1) % 4], R[(r + 2) % 7])); }); }
    vector<Grid> F = family(false); for (size_t i = 0; i < F.size(); i++) { if (!thorough && (i + a * 3 + r) % 9) continue; if (begin_s(nm + "from " + F[i].str())) { state(nm + F[i].str()); isolated([&] { to(y, F[i]); }); } }
    for (int ip = 0; ip < 3; ip++) if (begin_s(nm + fmt("file %d", ip))) isolated([&] { file(y, ip); });
    if (r == 0) for (int k = 0; k < (thorough ? 300 : 150); k++) if (begin_s(nm + fmt("many %d", k))) isolated([&] { many(y, k); }); }
  return done();
}
