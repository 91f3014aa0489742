// E04: wind rotation between grid components, speed/direction and true components
#include "ez.hh"
using namespace vh; using namespace ez;
static void winds(Grid g) {
  if (g.create() < 0) { fail("the grid cannot be defined"); return; }
  // points of the grid and points in between
  vector<float> la, lo;
  Grid s = g; if (s.flipped()) s.ig[1] = 0; // same area
  double step = thorough ? 0.5 : 1;
  for (double b = 1; b <= g.nj; b += step) for (double a = 1; a <= g.ni; a += step) { double x, y, px, py; s.ll(a, b, x, y); s.plane(a, b, px, py);
    if (fabs(x) > 89.5) continue; if (g.geo() == 'E' && fabs(py) > 89) continue;
    la.push_back(x); lo.push_back((la.size() % 3 == 0 && y > 180) ? y - 360 : y); }
  int np = la.size(); double worst = 0;
  const double spds[] = {0, 1, 37.5};
  for (int pass = 0; pass < (thorough ? 4 : 1); pass++)
  for (double sp : spds) for (int d0 = 0; d0 < 360; d0 += thorough ? 5 : 15) {
    vector<float> sd(np, sp), wd(np), u(np, -9), v(np, -9), s2(np, -9), d2(np, -9), ue(np, -9), vn(np, -9);
    for (int k = 0; k < np; k++) wd[k] = mod(d0 + 0.125 * pass * 10 + (k % 4) * 90, 360);
    auto sc = sd, wc = wd, lac = la, loc = lo;
    c_gduvfwd(g.id, u.data(), v.data(), sd.data(), wd.data(), la.data(), lo.data(), np); trans();
    if (sd != sc || wd != wc || la != lac || lo != loc) { fail("gduvfwd changed its input"); return; }
    for (int k = 0; k < np; k++) { double eu, ev; g.uv(la[k], lo[k], sp, wd[k], eu, ev); double e = hypot(u[k] - eu, v[k] - ev); eval(); if (sp) worst = std::max(worst, e / sp);
      if (!(e <= 2e-3 * sp + 1e-6)) { fail("gduvfwd: lat %g lon %g wind of %g from %g is (%g,%g) on the grid, should be (%g,%g)", la[k], lo[k], sp, wd[k], u[k], v[k], eu, ev); return; } }
    auto uc = u, vc = v;
    c_gdwdfuv(g.id, s2.data(), d2.data(), u.data(), v.data(), la.data(), lo.data(), np); trans();
    if (u != uc || v != vc || la != lac || lo != loc) { fail("gdwdfuv changed its input"); return; }
    for (int k = 0; k < np; k++) { double eu, ev; g.uv(la[k], lo[k], s2[k], d2[k], eu, ev); double e = hypot(u[k] - eu, v[k] - ev); eval(); if (sp) worst = std::max(worst, e / sp);
      double dd = fabs(mod(d2[k] - wd[k] + 180, 360) - 180);
      if (!(e <= 2e-3 * sp + 1e-6) || fabs(s2[k] - sp) > 2e-3 * sp || (sp && dd > 0.2) || d2[k] < 0 || d2[k] > 360) { fail("gdwdfuv: lat %g lon %g components (%g,%g) give speed %g direction %g, should be %g %g", la[k], lo[k], u[k], v[k], s2[k], d2[k], sp, wd[k]); return; } }
    c_gdlluvfuv(g.id, ue.data(), vn.data(), u.data(), v.data(), la.data(), lo.data(), np); trans();
    if (u != uc || v != vc || la != lac || lo != loc) { fail("gdlluvfuv changed its input"); return; }
    for (int k = 0; k < np; k++) { double eu = -sp * sin(wd[k] * D2R), ev = -sp * cos(wd[k] * D2R), e = hypot(ue[k] - eu, vn[k] - ev); eval();
      if (!(e <= 4e-3 * sp + 1e-6)) { fail("gdlluvfuv: lat %g lon %g components (%g,%g) are (%g,%g) eastward and northward, should be (%g,%g)", la[k], lo[k], u[k], v[k], ue[k], vn[k], eu, ev); return; } }
    // in place, as the interpolation functions use it
    c_gdwdfuv(g.id, u.data(), v.data(), u.data(), v.data(), la.data(), lo.data(), np); trans();
    if (u != s2 || v != d2) { fail("gdwdfuv in place differs from gdwdfuv into other arrays"); return; }
  }
  outcome(fmt("%c%c", g.t, g.ref)); count("worst relative error 1e-6", (long)(worst * 1e6));
}
int main(int argc, char **argv) {
  init(argc, argv);
  for (auto &g : family(thorough)) { if (!begin_s(g.str())) continue; state(g.str()); isolated([&] { winds(g); }); }
  return done();
}
