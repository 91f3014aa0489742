// E08: masks: kept with their grid, and carried to another grid by the points they say are present
#include "ezop.hh"
#include <set>
using namespace vh; using namespace ez;
extern "C" { int gdsetmask_(int *, int *); int gdgetmask_(int *, int *); int ezsint_mask_(int *, int *); int ezget_mask_zones_(int *, int *); int ezsint_mdm_(float *, int *, float *, int *); int ezuvint_mdm_(float *, float *, int *, float *, float *, int *);
 int c_gdsetmask(int, int *); int c_gdgetmask(int, int *); int c_ezsint_mask(int *, int *); int c_ezget_mask_zones(int *, int *); int c_ezsint_mdm(float *, int *, float *, int *); int c_ezuvint_mdm(float *, float *, int *, float *, float *, int *); }
static void opt(const char *o, const char *v) { char a[32], b[32]; strcpy(a, o); strcpy(b, v); if (c_ezsetopt(a, b) < 0) fail("ezsetopt %s %s refused", o, v); }
static vector<Grid> targets() { vector<Grid> r; Grid g;
  g.t = 'L'; g.ni = 9; g.nj = 7; g.par('L', -87, 3, 28, 44); r.push_back(g); g.ni = 8; g.nj = 8; g.par('L', -41, 1, 11, 3.5); r.push_back(g); g.par('L', 21, 201, 4, 4); r.push_back(g);
  g = Grid(); g.t = 'N'; g.ni = 7; g.nj = 6; g.par('N', 4, 3, 1500000, 30); r.push_back(g);
  g = Grid(); g.t = 'Z'; g.ref = 'E'; g.ax = {10, 30, 70, 120, 180, 260, 350}; g.ay = {-70, -40, -10, 5, 33, 60}; g.ni = 7; g.nj = 6; g.par('E', 50, 180, 0, 270); r.push_back(g); return r; }
// what is possible at a position: the number of the four points present, and whether the nearest one is
static void possible(const Op &o, const vector<int> &m, double x, double y, std::set<int> &zone, std::set<int> &near) {
  const Grid &g = o.g; bool wrap = o.ext == 2;
  auto at = [&](int i, int j) { if (g.flipped()) j = g.nj + 1 - j; return m[(j - 1) * g.ni + (i - 1 + g.ni) % g.ni]; };
  for (double dx : {-2e-3, 0., 2e-3}) for (double dy : {-2e-3, 0., 2e-3}) { double a = x + dx, b = y + dy; int ni = (int)floor(a + .5), nj = (int)floor(b + .5);
    bool out = nj < 1 || nj > g.nj || (!wrap && (ni < 1 || ni > g.ni)); 
    bool maybe = b < 1 || b > g.nj || (!wrap && (a < 1 || a > g.ni)); // beyond the outermost points, but nearer than half a cell
    if (out || maybe) { zone.insert(7); near.insert(0); } if (out) continue;
    near.insert(at(ni, nj) != 0); int i = (int)floor(a), j = std::max(1, std::min(g.nj - 1, (int)floor(b))); if (!wrap) i = std::max(1, std::min(g.ni - 1, i));
    int n = 0; for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) n += at(i + p, j + q) != 0; zone.insert(n); } }
static void masks(Grid g) {
  if (g.create() < 0) { fail("the grid cannot be defined"); return; }
  Op o(g); int n = g.ni * g.nj; vector<vector<int>> M;
  M.push_back(vector<int>(n, 1)); M.push_back(vector<int>(n, 0)); for (int w = 0; w < 3; w++) { vector<int> m(n); for (int k = 0; k < n; k++) m[k] = w == 0 ? (k % g.ni + k / g.ni) & 1 : w == 1 ? k / g.ni < g.nj / 2 : hash(&k, 4) % 3 != 0; M.push_back(m); }
  int stride = thorough ? 1 : 3; for (int k = 0; k < n; k += stride) { vector<int> m(n, 1); m[k] = 0; M.push_back(m); }
  for (auto t : targets()) {
    if (t.create() < 0) { fail("target"); return; } int nt = t.ni * t.nj; vector<float> la(nt), lo(nt), x(nt), y(nt); c_gdll(t.id, la.data(), lo.data());
    // positions in the source from its geometry; those the geometry leaves undetermined are not used
    c_gdxyfll(g.id, x.data(), y.data(), la.data(), lo.data(), nt); if (g.flipped() && g.t == 'G') for (auto &b : y) b = g.nj + 1 - b;
    if (c_ezdefset(t.id, g.id) < 0) { fail("ezdefset"); return; }
    bool some = false;
    for (auto &m : M) for (int lin = 0; lin < 2; lin++) {
      opt("cloud_interp_alg", lin ? "linear" : "distance");
      vector<int> src = m, a(nt + 2, 77), b(nt + 2, 77), z(nt + 2, 77), zf(nt + 2, 77);
      int r1 = c_ezsint_mask(a.data() + 1, src.data()), r2 = ezsint_mask_(b.data() + 1, src.data()), r3 = c_ezget_mask_zones(z.data() + 1, src.data()), r4 = ezget_mask_zones_(zf.data() + 1, src.data()); trans(4);
      if (r1 || r2 || r3 || r4 || a != b || z != zf || src != m || a[0] != 77 || a[nt + 1] != 77 || z[0] != 77 || z[nt + 1] != 77) { fail("to %s: returned %d %d %d %d, or the two interfaces differ, or something else changed", t.str().c_str(), r1, r2, r3, r4); return; }
      for (int k = 0; k < nt; k++) { if (o.period() && fabs(mod(lo[k] + 180 - (g.t == 'Z' ? g.ax[0] : 0), 360) - 180) < 1e-3 ) continue; std::set<int> zo, ne; possible(o, m, x[k], y[k], zo, ne); eval(2);
        if (lin) { std::set<int> l; for (int q : zo) l.insert(q == 4); bool nz = ne.count(0) != 0; if (nz) l.insert(0); if (!ne.count(1)) l = {0}; ne = l; }
        if (!ne.count(a[k + 1])) { fail("to %s, algorithm %s: mask of target point %d (at %g,%g in the source) is %d; mask %zu", t.str().c_str(), lin ? "linear" : "distance", k, x[k], y[k], a[k + 1], &m - &M[0]); return; }
        if (!zo.count(z[k + 1])) { fail("to %s: zone of target point %d (at %g,%g in the source) is %d; mask %zu", t.str().c_str(), k, x[k], y[k], z[k + 1], &m - &M[0]); return; }
        some = some || a[k + 1]; }
      state(hash(a.data(), a.size() * 4, hash(z.data(), z.size() * 4)));
      if (&m - &M[0] > 6) continue;
      // fields: where the mask says nothing is there, the smallest value of the field
      vector<float> f(n), u(n), v(n), p(nt + 1, 7e9f), q(nt), uu(nt + 1, 7e9f), vv(nt + 1, 7e9f), qu(nt), qv(nt); for (int k = 0; k < n; k++) { f[k] = 10 + k % 7 - k % 3; u[k] = 5 + k % 5; v[k] = -3 + k % 4; }
      vector<int> c(nt), d(nt); auto fc = f, uc = u, vc = v;
      for (int who = 0; who < 2; who++) {
        r1 = who ? ezsint_mdm_(p.data(), c.data(), f.data(), src.data()) : c_ezsint_mdm(p.data(), c.data(), f.data(), src.data()); r2 = who ? ezuvint_mdm_(uu.data(), vv.data(), d.data(), u.data(), v.data(), src.data()) : c_ezuvint_mdm(uu.data(), vv.data(), d.data(), u.data(), v.data(), src.data());
        c_ezsint(q.data(), f.data()); c_ezuvint(qu.data(), qv.data(), u.data(), v.data()); trans(4);
        if (r1 || r2 || f != fc || u != uc || v != vc || src != m || p[nt] != 7e9f || uu[nt] != 7e9f || vv[nt] != 7e9f) { fail("to %s: masked interpolation returns %d %d, or its input changed, or it writes past the field", t.str().c_str(), r1, r2); return; }
        float mp = *std::min_element(q.begin(), q.end()), mu = *std::min_element(qu.begin(), qu.end()), mv = *std::min_element(qv.begin(), qv.end());
        for (int k = 0; k < nt; k++) { eval(3); if (c[k] != a[k + 1] || d[k] != a[k + 1]) { fail("to %s: the masks of masked interpolations are not that of ezsint_mask", t.str().c_str()); return; }
          if (p[k] != (c[k] ? q[k] : mp) || uu[k] != (c[k] ? qu[k] : mu) || vv[k] != (c[k] ? qv[k] : mv)) { fail("to %s: masked interpolation gives %g (%g,%g) at point %d, mask %d; without mask %g (%g,%g)", t.str().c_str(), p[k], uu[k], vv[k], k, c[k], q[k], qu[k], qv[k]); return; } } } }
    outcome(some ? "points present" : "no point present"); }
  // coincident grids: another grid with the same points
  if (g.t == 'L') { Grid t; t.t = 'Z'; t.ref = 'L'; t.ni = g.ni; t.nj = g.nj; t.par('L', 0, 0, 1, 1); for (int i = 0; i < g.ni; i++) t.ax.push_back(g.xg[1] + i * g.xg[3]); for (int j = 0; j < g.nj; j++) t.ay.push_back(g.xg[0] + j * g.xg[2]);
    if (t.ax.back() < 360 && t.create() >= 0 && c_ezdefset(t.id, g.id) >= 0) { opt("cloud_interp_alg", "distance"); for (auto &m : M) { vector<int> src = m, a(n, 77); c_ezsint_mask(a.data(), src.data()); trans(); eval(n); if (a != m) { fail("between coincident grids, the mask changes (mask %zu)", &m - &M[0]); return; } } } }
}
// masks kept with the grids: every sequence of set, replace and ask over three grids
static void keep() {
  vector<Grid> G; { auto f = family(false); for (int k : {0, 70}) G.push_back(f[k % f.size()]); Grid t; t.t = 'L'; t.ni = G[0].nj; t.nj = G[0].ni; t.par('L', 10, 20, 2, 3); G.insert(G.begin() + 1, t); } // two have the same number of points
  for (auto &g : G) if (g.create() < 0) { fail("grid"); return; }
  vector<vector<int>> now(3); long calls = 0;
  for (int code = 0; code < 9 * 9 * 9 * 9; code++) { int c = code; for (int s = 0; s < 4; s++, c /= 9) { int k = c % 3, w = c % 9 / 3 + s; auto &g = G[k]; int n = g.ni * g.nj; vector<int> m(n);
      if (c % 9 / 3 == 2) { // released, and defined again
        if (c_gdrls(g.id) < 0 || g.create() < 0) { fail("the grid cannot be released and defined again"); return; } now[k].clear(); trans(2); }
      else { for (int q = 0; q < n; q++) m[q] = (q * (w + 1) + k + code) % 5 - 1; int id = g.id;
      if ((calls++ & 1 ? gdsetmask_(&id, m.data()) : c_gdsetmask(id, m.data())) != 0) { fail("gdsetmask refused"); return; } now[k] = m; for (auto &q : m) q = 99; trans(); }
      for (int j = 0; j < 3; j++) { int nj = G[j].ni * G[j].nj, jd = G[j].id; vector<int> a(nj + 1, 55); int rc = calls & 2 ? gdgetmask_(&jd, a.data()) : c_gdgetmask(jd, a.data()); eval(); 
        if (now[j].empty() ? rc != -1 || a != vector<int>(nj + 1, 55) : rc != 0 || !std::equal(now[j].begin(), now[j].end(), a.begin()) || a[nj] != 55) { fail("sequence %d step %d: the mask of grid %d is returned wrong (%d)", code, s, j, rc); return; } } } state(hash(&code, 4)); } outcome("kept"); }
int main(int argc, char **argv) {
  init(argc, argv);
  for (auto &g : family(thorough)) { if (!begin_s(g.str())) continue; isolated([&] { masks(g); }); }
  if (begin("masks kept with their grids")) isolated([&] { keep(); });
  return done();
}
