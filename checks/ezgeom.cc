// E01: geometry of every grid type against an independent double-precision oracle
#include "ez.hh"
using namespace vh; using namespace ez;
// single precision: the arc sine loses half the digits near a pole (true or rotated)
static double tol(const Grid &g, double lat, double py) { return 4e-3 + (g.geo() == 'E' && (fabs(lat) > 85 || fabs(py) > 85) ? 0.06 : 0); }
static void geom(Grid g) {
  if (g.create() < 0) { fail("the grid cannot be defined"); return; }
  int n = g.ni * g.nj; vector<float> lat(n), lon(n);
  double la, lo;
  if (c_gdll(g.id, lat.data(), lon.data()) < 0) { fail("gdll failed"); return; }
  double worst = 0;
  for (int j = 1; j <= g.nj; j++) for (int i = 1; i <= g.ni; i++) { int k = (j - 1) * g.ni + i - 1; g.ll(i, j, la, lo);
    double d = dist(lat[k], lon[k], la, lo); worst = std::max(worst, d); eval();
    double px, py; g.plane(i, j, px, py);
    if (!(d < tol(g, la, py))) { fail("gdll: point (%d,%d) is at lat %g lon %g, should be %g %g", i, j, lat[k], lon[k], la, lo); return; } }
  // parameters read back
  char t[4] = "", r[4] = ""; int ni = -1, nj = -1, q[4] = {-1, -1, -1, -1}, p[4] = {-1, -1, -1, -1};
  c_ezgprm(g.id, t, &ni, &nj, &q[0], &q[1], &q[2], &q[3]); eval();
  if (t[0] != g.t || ni != g.ni || nj != g.nj || (g.ref == ' ' && memcmp(q, g.ig, sizeof q))) { fail("ezgprm gives %c %dx%d ig=%d,%d,%d,%d", t[0], ni, nj, q[0], q[1], q[2], q[3]); return; }
  if (g.ref != ' ') {
    c_ezgxprm(g.id, &ni, &nj, t, &q[0], &q[1], &q[2], &q[3], r, &p[0], &p[1], &p[2], &p[3]); eval();
    if (t[0] != g.t || ni != g.ni || nj != g.nj || r[0] != g.ref || memcmp(p, g.ig, sizeof p)) { fail("ezgxprm gives %c %dx%d ref %c ig=%d,%d,%d,%d", t[0], ni, nj, r[0], p[0], p[1], p[2], p[3]); return; }
    vector<float> bx(g.ni + 1, -7), by(g.nj + 1, -7); c_gdgaxes(g.id, bx.data(), by.data()); eval();
    for (int i = 0; i <= g.ni; i++) if (bx[i] != (i < g.ni ? g.ax[i] : -7)) { fail("gdgaxes: x axis element %d is %g", i, bx[i]); return; }
    for (int i = 0; i <= g.nj; i++) if (by[i] != (i < g.nj ? g.ay[i] : -7)) { fail("gdgaxes: y axis element %d is %g", i, by[i]); return; }
  }
  if (g.flipped()) { outcome("stored from north to south"); return; } // grid coordinates are only defined from south to north
  // positions inside the grid, every quarter of a cell
  vector<float> x, y; double xmax = g.wraps() && g.t != 'B' && g.t != 'E' ? g.ni + 0.75 : g.ni;
  for (double b = 1; b <= g.nj; b += 0.25) for (double a = 1; a <= xmax; a += 0.25) { if (g.ref == ' ' || a <= g.ni) { x.push_back(a); y.push_back(b); } }
  int m = x.size(); vector<float> qa(m, -999), qo(m, -999), rx(m), ry(m); auto xc = x, yc = y;
  c_gdllfxy(g.id, qa.data(), qo.data(), x.data(), y.data(), m); trans();
  if (x != xc || y != yc) { fail("gdllfxy changed its input"); return; }
  for (int k = 0; k < m; k++) { g.ll(x[k], y[k], la, lo); eval();
    double d = dist(qa[k], qo[k], la, lo); worst = std::max(worst, d);
    double px, py; g.plane(x[k], y[k], px, py);
    if (!(d < tol(g, la, py)) || qo[k] < -0.01 || qo[k] > 360.01) { fail("gdllfxy: position (%g,%g) is at lat %g lon %g, should be %g %g", x[k], y[k], qa[k], qo[k], la, lo); return; } }
  { // the same in the units of the axes (grid units for a grid without axes)
    vector<float> ux(m), uy(m), za(m, -999), zo(m, -999), zx(m, -999), zy(m, -999), ta(m), to(m);
    for (int k = 0; k < m; k++) { double px, py; g.plane(x[k], y[k], px, py); ux[k] = g.ref != ' ' ? px : x[k]; uy[k] = g.ref != ' ' ? py : y[k]; g.ll(x[k], y[k], la, lo); ta[k] = la; to[k] = lo; }
    auto uxc = ux, uyc = uy, tac = ta, toc = to;
    int r1 = c_gdllfxyz(g.id, za.data(), zo.data(), ux.data(), uy.data(), m), r2 = c_gdxyzfll(g.id, zx.data(), zy.data(), ta.data(), to.data(), m); trans(2);
    if (r1 || r2 || ux != uxc || uy != uyc || ta != tac || to != toc) { fail("gdllfxyz returns %d, gdxyzfll %d, or their input changed", r1, r2); return; }
    for (int k = 0; k < m; k++) { double px, py, a2, o2; g.plane(x[k], y[k], px, py); eval(2);
      if (!(dist(za[k], zo[k], ta[k], to[k]) < tol(g, ta[k], py)) || zo[k] < -0.01 || zo[k] > 360.01) { fail("gdllfxyz: (%g,%g) is at lat %g lon %g, should be %g %g", ux[k], uy[k], za[k], zo[k], ta[k], to[k]); return; }
      if (g.ref != ' ') g.unplane(zx[k], zy[k], a2, o2); else g.ll(zx[k], zy[k], a2, o2);
      if (!(dist(a2, o2, ta[k], to[k]) < tol(g, ta[k], py))) { fail("gdxyzfll: lat %g lon %g gives (%g,%g), should be (%g,%g)", ta[k], to[k], zx[k], zy[k], ux[k], uy[k]); return; } } }
  for (int pass = 0; pass < 3; pass++) { // exact coordinates, negative longitudes, the library's own
    vector<float> ta(m), to(m);
    for (int k = 0; k < m; k++) { g.ll(x[k], y[k], la, lo); ta[k] = la; to[k] = pass == 2 ? qo[k] : lo; if (pass == 2) ta[k] = qa[k]; if (pass == 1 && to[k] > 180) to[k] -= 360; }
    auto tac = ta, toc = to;
    c_gdxyfll(g.id, rx.data(), ry.data(), ta.data(), to.data(), m); trans();
    if (ta != tac || to != toc) { fail("gdxyfll changed its input"); return; }
    for (int k = 0; k < m; k++) { // compare positions through the geometry, and in grid units away from singular points
      double a2, o2, d; g.ll(rx[k], ry[k], a2, o2); d = dist(a2, o2, ta[k], to[k]); eval();
      double dx = fabs(rx[k] - x[k]); if (g.period()) dx = std::min(dx, fabs(dx - g.period()));
      double px, py; g.plane(x[k], y[k], px, py); bool sing = (g.geo() != 'N' && g.geo() != 'S' && fabs(g.geo() == 'L' ? ta[k] : py) > 89.9);
      if (g.geo() == 'L' && g.t == 'L' && g.ni * g.xg[3] >= 359.9 ) dx = std::min(dx, fabs(dx - 360 / g.xg[3]));
      if (g.t == 'Z' && (g.geo() == 'L' || g.geo() == 'E') && fabs(mod(px + 180, 360) - 180) < 1e-3) dx = 0; // either side of the seam
      if (!(d < tol(g, ta[k], py)) || (!sing && (dx > 0.01 || fabs(ry[k] - y[k]) > 0.01))) { fail("gdxyfll (pass %d): lat %g lon %g gives position (%g,%g), should be (%g,%g)", pass, ta[k], to[k], rx[k], ry[k], x[k], y[k]); return; } }
  }
  outcome(fmt("%c%c", g.t, g.ref)); count("worst distance 1e-6 deg", (long)(worst * 1e6));
  if (worst > 1e-3) printf("%s worst %g\n", g.str().c_str(), worst);
}
int main(int argc, char **argv) {
  init(argc, argv);
  for (auto &g : family(thorough)) { if (!begin_s(g.str())) continue; state(g.str()); isolated([&] { geom(g); }); }
  return done();
}
