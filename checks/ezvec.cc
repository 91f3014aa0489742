// E05: vector interpolation, the whole operator on both components compared with its definition
#include "ezop.hh"
using namespace vh; using namespace ez;
static void opt(const char *o, const char *v) { char a[32], b[32]; strcpy(a, o); strcpy(b, v); if (c_ezsetopt(a, b) < 0) fail("ezsetopt %s %s refused", o, v); }
static const char *DEG[] = {"nearest", "linear", "", "cubic"};
typedef std::pair<W, W> WW; // weights of the source u and of the source v
static void acc(WW &a, const WW &b, double s) { for (auto &c : b.first) a.first[c.first] += s * c.second; for (auto &c : b.second) a.second[c.first] += s * c.second; }
struct V2 { WW u, v; };
struct Vop { Op s, a; // operators on symmetric and antisymmetric fields
  Vop(const Grid &g) : s(g), a(g) { a.sym = 0; }
  V2 general(int deg, double x, double y) { V2 r; r.u.first = s.general(deg, x, y); r.v.second = a.general(deg, x, y); return r; }
  // longitude of column i as the polar components see it
  double lam(int i) { Grid g = s.g; double px, py; if (g.flipped()) g.ig[1] = 0; g.plane(i, 1, px, py); if (g.t == 'Z' && g.ref == 'L') return g.xg[1] + px * g.xg[3]; if (g.t == 'L') return g.xg[1] + (px - 1) * g.xg[3]; return px; }
  // components at longitude l of the wind at the pole
  V2 pole(bool north, double l) { V2 r; int n = s.g.ni, j = north ? s.j2 : s.j1; double sg = north ? 1 : -1;
    W m = s.mean(north); (void)m;
    WW X, Y; // the mean wind in a frame fixed to the pole: the east and north components of meridian 0
    for (int i = 1; i <= n; i++) { double w = 1.0 / n; if (s.g.t == 'Z' && s.g.ref == 'E') w = i < n ? (s.ax[i] - s.ax[i - 1]) / (s.ax[n - 1] - s.ax[0]) : 0;
      double t = sg * lam(i) * D2R; // turning east by lam turns the local axes by t
      W cu, cv; s.add(cu, i, j, 1); a.add(cv, i, j, 1);
      acc(X, {cu, {}}, w * cos(t)); acc(X, {{}, cv}, -w * sin(t)); acc(Y, {cu, {}}, w * sin(t)); acc(Y, {{}, cv}, w * cos(t)); }
    double t = sg * l * D2R; acc(r.u, X, cos(t)); acc(r.u, Y, sin(t)); acc(r.v, X, -sin(t)); acc(r.v, Y, cos(t)); return r; }
  V2 full(int deg, double x, double y, int xdeg, bool zero) {
    if (!s.noext) { if (!s.outside(x, y)) return general(deg, x, y); if (zero) return V2(); return general(xdeg, x, y); }
    bool north = (int)y > s.j2 - 2, south = y < s.j1 + 1; if (!north && !south) return general(deg, x, y);
    bool doSouth = fabs(y - s.ypn) < 1e-3 ? false : south && !north; if (south && north) doSouth = true;
    north = !doSouth;
    // same rows as the scalar cap, with the wind of each column at the pole as its fourth row
    V2 r; Cap c = caprows(deg, y, north);
    for (auto &b : c) { if (b.first == POLE) { for (auto &q : s.wx(deg, x)) { V2 p = pole(north, lam(q.first)); acc(r.u, p.u, q.second * b.second); acc(r.v, p.v, q.second * b.second); } }
      else for (auto &q : s.wx(deg, x)) { s.add(r.u.first, q.first, b.first, q.second * b.second); a.add(r.v.second, q.first, b.first, q.second * b.second); } }
    return r; }
  typedef std::vector<std::pair<int, double>> Cap; static const int POLE = 1 << 20;
  Cap caprows(int deg, double y, bool north) { // through the scalar operator: column 1 of a field constant on each row
    Cap r; int rows[4], j1 = s.j1, j2 = s.j2; for (int k = 0; k < 4; k++) rows[k] = north ? (k < 3 ? j2 - 2 + k : POLE) : (k ? j1 + k - 1 : POLE);
    double q = y - (north ? j2 - 3 : j1 - 2);
    if (deg == 0) return {{rows[Op::clampi((int)floor(q + 0.5), 1, 4) - 1], 1}};
    if (deg == 1) { int j = Op::clampi((int)floor(q), 1, 3); return {{rows[j - 1], j + 1 - q}, {rows[j], q - j}}; }
    double n[4], at = q; for (int k = 0; k < 4; k++) n[k] = k + 1;
    if (s.irregular) { bool on = north ? s.ay.back() == 90 : s.ay[0] == -90; if (on) for (int k = 0; k < 4; k++) rows[k] = north ? j2 - 3 + k : j1 + k;
      for (int k = 0; k < 4; k++) n[k] = rows[k] == POLE ? (north ? 90 : -90) : s.yco(rows[k]);
      int lo = north ? (on ? j2 - 2 : j2 - 1) : (on ? j1 + 1 : j1); at = s.yco(lo) + (s.yco(lo + 1) - s.yco(lo)) * (y - lo); }
    auto l = Op::lagrange(n, at); for (int k = 0; k < 4; k++) r.push_back({rows[k], l[k]}); return r; }
};
extern "C" int c_gdrls(int);
struct Pt { double x, y; float lat, lon; double u1, v1, u2, v2; };
struct Res { vector<float> u, v; };
static double get(const WW &w, int c, bool isv) { auto &m = isv ? w.second : w.first; auto it = m.find(c); return it == m.end() ? 0 : it->second; }
enum Form { GEO, GRID, SPD };
// compares the response to every impulse; form: geographic components, grid components, speed and direction
static bool cmp(const Op &o, const char *what, const vector<Pt> &p, const vector<Res> &m, std::function<V2(const Pt &)> f, double tol, Form form) {
  int n = o.g.ni * o.g.nj; 
  for (size_t k = 0; k < p.size(); k++) { V2 w = f(p[k]); double s = 0; for (auto *q : {&w.u, &w.v}) { for (auto &c : q->first) s += fabs(c.second); for (auto &c : q->second) s += fabs(c.second); }
    bool dup = o.ext == 1 && (p[k].x > o.g.ni - 1e-3 || p[k].x < 1 + 1e-3);
    for (size_t c = 0; c < m.size(); c++) { bool isv = (int)c >= n; int cell = isv ? c - n : c; double u = get(w.u, cell, isv), v = get(w.v, cell, isv), gu = m[c].u[k], gv = m[c].v[k]; eval();
      if (dup && form == SPD) continue;
      if (dup && cell % o.g.ni == o.g.ni - 1) continue;
      if (form == SPD) { double sp = gu, wd = gv * D2R; if (!(sp >= -1e-6) || !(gv >= -1e-3 && gv <= 360.001)) { fail("%s: at (%g,%g) speed %g direction %g", what, p[k].x, p[k].y, gu, gv); return false; } gu = -sp * sin(wd); gv = -sp * cos(wd); }
      if (dup && cell % o.g.ni == 0) { size_t c2 = c + o.g.ni - 1; gu += m[c2].u[k]; gv += m[c2].v[k]; u += get(w.u, cell + o.g.ni - 1, isv); v += get(w.v, cell + o.g.ni - 1, isv); }
      if (form != GRID) { double a = u * p[k].u1 + v * p[k].v1, b = u * p[k].u2 + v * p[k].v2; u = a; v = b; }
      double d = std::max(fabs(gu - u), fabs(gv - v));
      if (!(d <= tol * (1 + s))) { fail("%s: at position (%g,%g) lat %g lon %g a unit %c wind at point (%d,%d) gives (%g,%g), should be (%g,%g)", what, p[k].x, p[k].y, p[k].lat, p[k].lon, isv ? 'v' : 'u', cell % o.g.ni + 1, cell / o.g.ni + 1, gu, gv, u, v); return false; } } }
  return true; }
static void vec(Grid g) {
  if (g.create() < 0) { fail("the source grid cannot be defined"); return; }
  Vop O(g); Op &o = O.s; int n = g.ni * g.nj; vector<Pt> p; double la, lo; float pl = 90, z = 0, a, b;
  c_gdxyfll(g.id, &a, &b, &pl, &z, 1); o.ypn = b; if (g.flipped() && g.t == 'G') o.ypn = -1e9; if (g.geo() == 'E') o.ypn = g.nj + 0.5;
  auto addp = [&](double x, double y, float fa, float fo) { Pt q{x, y, fa, fo}; g.uv(fa, fo, 1, 270, q.u1, q.v1); g.uv(fa, fo, 1, 180, q.u2, q.v2); p.push_back(q); };
  const double off[] = {0, 0.13, 0.37, 0.61, 0.88}; double xm = o.ext == 2 ? g.ni + 0.999 : g.ni;
  for (int j = o.j1; j <= o.j2; j++) for (double dy : off) for (int i = 1; i <= g.ni; i++) for (double dx : off) { double x = i + dx, y = j + dy;
    if (x > xm || y > o.j2) continue;
    if (!thorough && (int)(dx * 100 + dy * 100 + 0.5) % 3 != 2 && dx + dy != 0) continue;
    o.ll(x, y, la, lo); Grid s = g; double px = 0, py = 0; if (s.flipped()) s.ig[1] = 0; s.plane(x, y, px, py); if (fabs(la) > 89.5) continue;
    if (g.geo() == 'E' && (fabs(la) > 80 || fabs(py) > 80)) continue;
    if (g.t == 'Z' && (g.ref == 'E' || g.ref == 'L') && (fabs(mod(px + 180, 360) - 180) < 1e-3)) continue;
    if (g.t == 'E' && fabs(mod(px + 180, 360) - 180) < 1e-3) continue;
    addp(x, y, la, lo); }
  if (!o.noext) { for (double x : {-0.7, 0.2, 2.4, g.ni + 0.3, g.ni + 1.9}) for (double y : {-0.7, 0.2, 2.4, g.nj + 0.3, g.nj + 0.8}) {
    if (x >= 1 && x <= g.ni && y >= 1 && y <= g.nj) continue;
    o.ll(x, y, la, lo); Grid s = g; double px, py; s.plane(x, y, px, py); if ((g.geo() == 'L' || g.geo() == 'E') && (fabs(g.geo() == 'L' ? g.xg[0] + (g.t == 'L' ? py - 1 : py) * g.xg[2] : py) > 80)) continue;
    if (g.geo() == 'E' && fabs(la) > 80) continue;
    float fa = la, fo = lo; c_gdxyfll(g.id, &a, &b, &fa, &fo, 1); if (fabs(a - x) > 0.01 || fabs(b - y) > 0.01) continue;
    addp(x, y, fa, fo); } }
  else if (g.geo() != 'E') for (double x = 1.2; x < xm; x += 0.8) for (double f : {0.3, 0.7}) for (int h = 0; h < 2; h++) {
    double l0, l1; o.ll(x, h ? o.j2 : o.j1, l0, l1); float fa = l0 + f * ((h ? 90 : -90) - l0), fo = l1; if (fabs(l0) > 89.9) continue;
    c_gdxyfll(g.id, &a, &b, &fa, &fo, 1); if (g.flipped() && g.t == 'G') b = g.nj + 1 - b; if (fabs(a - x) > 0.01 || fabs(mod(l1 + 180, 360) - 180) < 1e-3) continue;
    if (fabs(b - floor(b) - 0.5) < 0.02) continue;
    addp(x, b, fa, fo); }
  if (g.t == 'E') for (double x = 1.3; x < g.ni - 0.2; x += 0.69) for (double d : {0.1, 0.2, 0.3}) for (int h = 0; h < 2; h++) { double y = h ? g.nj + d : 1 - d, px, py; g.plane(x, y, px, py); o.ll(x, y, la, lo); if (fabs(la) > 80 || fabs(py) > 84.5) continue; addp(x, y, la, lo); }
  int np = p.size(); vector<float> la_(np), lo_(np), xs(np), ys(np);
  for (int k = 0; k < np; k++) { la_[k] = p[k].lat; lo_[k] = p[k].lon; xs[k] = p[k].x; ys[k] = p[k].y; }
  float one[4] = {0, 0, 1, 1}; int ig[4]; cxgaig_("L", &ig[0], &ig[1], &ig[2], &ig[3], &one[0], &one[1], &one[2], &one[3], 1);
  char Y[2] = "Y", L[2] = "L"; int go = c_ezgdef_fmem(np, 1, Y, L, ig[0], ig[1], ig[2], ig[3], lo_.data(), la_.data());
  if (go < 0) { fail("the target grid cannot be defined"); return; }
  double tol = g.geo() == 'E' ? 0.015 : 3e-3; int nout = 0; for (auto &q : p) if (!o.noext && o.outside(q.x, q.y)) nout++;
  vector<Res> M(2 * n), X(2 * n), V(2 * n), S(2 * n), XS(2 * n), VS(2 * n);
  auto run = [&](int c, int pc, const char *w) { // one impulse through every form
    vector<float> u(n, 0), v(n, 0), r(np), q(np); (c < n ? u[c] : v[c - n]) = 1; auto uc = u, vc = v; int id = g.id;
    auto put = [&](Res &R) { R.u = r; R.v = q; r.assign(np, -99); q.assign(np, -99); };
    r.assign(np, -99); q.assign(np, -99);
    if (c_ezdefset(go, id) < 0) { fail("ezdefset failed"); return false; }
    int rc = c_ezuvint(r.data(), q.data(), u.data(), v.data()); trans(); put(M[c]); if (rc != (pc && nout ? 2 : 0)) { fail("ezuvint %s returns %d with %d points outside", w, rc, nout); return false; }
    rc = c_ezwdint(r.data(), q.data(), u.data(), v.data()); trans(); put(S[c]); if (rc != (pc && nout ? 2 : 0)) { fail("ezwdint %s returns %d with %d points outside", w, rc, nout); return false; }
    if (pc) { c_gdllvval(id, r.data(), q.data(), u.data(), v.data(), la_.data(), lo_.data(), np); put(X[c]); c_gdllwdval(id, r.data(), q.data(), u.data(), v.data(), la_.data(), lo_.data(), np); put(XS[c]);
      c_gdxyvval(id, r.data(), q.data(), u.data(), v.data(), xs.data(), ys.data(), np); put(V[c]);
      if (!g.flipped()) { c_gdxywdval(id, r.data(), q.data(), u.data(), v.data(), xs.data(), ys.data(), np); put(VS[c]); } trans(4); }
    if (u != uc || v != vc) { fail("a vector interpolation changed its input"); return false; }
    for (int k = 0; k < np; k++) if (la_[k] != p[k].lat || lo_[k] != p[k].lon || xs[k] != (float)p[k].x || ys[k] != (float)p[k].y) { fail("a vector interpolation changed the positions"); return false; }
    return true; };
  for (int deg : {0, 1, 3}) for (int pc = 1; pc >= 0; pc--) {
    opt("interp_degree", DEG[deg]); opt("extrap_degree", "neutral"); opt("polar_correction", pc ? "yes" : "no");
    string w = fmt("%s%s", DEG[deg], pc ? "" : " without polar correction");
    for (int c = 0; c < 2 * n; c++) if (!run(c, pc, w.c_str())) return;
    auto full = [&](const Pt &q) { return pc ? O.full(deg, q.x, q.y, deg, false) : O.general(deg, q.x, q.y); };
    auto gen = [&](const Pt &q) { return O.general(deg, q.x, q.y); };
    if (!cmp(o, ("ezuvint " + w).c_str(), p, M, full, tol, GEO) || !cmp(o, ("ezwdint " + w).c_str(), p, S, full, tol, SPD)) return;
    if (pc && (!cmp(o, ("gdllvval " + w).c_str(), p, X, gen, tol, GRID) || !cmp(o, ("gdllwdval " + w).c_str(), p, XS, gen, tol, SPD) || !cmp(o, ("gdxyvval " + w).c_str(), p, V, gen, 1e-3, GRID))) return;
    if (pc && !g.flipped() && !cmp(o, ("gdxywdval " + w).c_str(), p, VS, gen, 3e-3, SPD)) return;
    if (pc) { // each target on its own, and each with its successor, gives what the whole list gives
      vector<float> u(n), v(n), r(np, -99), q(np, -99), rs(np, -99), qs(np, -99); for (int c = 0; c < n; c++) { u[c] = (c * 37 % 101) - 30.5; v[c] = (c * 53 % 97) - 50.5; }
      c_ezdefset(go, g.id); c_ezuvint(r.data(), q.data(), u.data(), v.data()); c_ezwdint(rs.data(), qs.data(), u.data(), v.data());
      for (int k = 0; k < np; k++) for (int m = 1; m <= 2; m++) { if (k + m > np || (m == 2 && k % 5) || (!o.outside(p[k].x, p[k].y) && p[k].y >= o.j1 && p[k].y <= o.j2 && k % 7)) continue;
        int gk = c_ezgdef_fmem(m, 1, Y, L, ig[0], ig[1], ig[2], ig[3], &lo_[k], &la_[k]); float a[2] = {-99, -99}, b[2] = {-99, -99}, s[2] = {-99, -99}, d[2] = {-99, -99}; if (gk < 0 || c_ezdefset(gk, g.id) < 0) { fail("a target of %d point(s) is refused", m); return; }
        c_ezuvint(a, b, u.data(), v.data()); c_ezwdint(s, d, u.data(), v.data()); trans(2); c_gdrls(gk);
        for (int e = 0; e < m; e++) { eval(); int h = k + e; double dd = fabs(d[e] - qs[h]); if (dd > 180) dd = 360 - dd;
          if (!(fabs(a[e] - r[h]) <= 1e-3 + 1e-4 * fabs(r[h])) || !(fabs(b[e] - q[h]) <= 1e-3 + 1e-4 * fabs(q[h])) || !(fabs(s[e] - rs[h]) <= 1e-3 + 1e-4 * fabs(rs[h])) || !(dd * rs[h] <= 0.2)) {
            fail("%s: the target lat %g lon %g, position (%g,%g), gives (%g,%g) and %g at %g degrees in a list of %d, (%g,%g) and %g at %g degrees in the whole list", w.c_str(), la_[h], lo_[h], p[h].x, p[h].y, a[e], b[e], s[e], d[e], m, r[h], q[h], rs[h], qs[h]); return; } } } }
    if (pc && nout) for (const char *ex : {"nearest", "linear", "cubic", "maximum", "minimum", "value"}) { opt("extrap_degree", ex); int xd = ex[0] == 'n' ? 0 : ex[0] == 'l' ? 1 : ex[0] == 'c' ? 3 : -1;
      for (int c = 0; c < 2 * n; c++) if (!run(c, pc, ex)) return;
      auto fx = [&](const Pt &q) { return O.full(deg, q.x, q.y, xd < 0 ? 1 : xd, xd < 0); };
      if (!cmp(o, fmt("ezuvint %s, %s outside", DEG[deg], ex).c_str(), p, M, fx, tol, GEO) || !cmp(o, fmt("ezwdint %s, %s outside", DEG[deg], ex).c_str(), p, S, fx, tol, SPD)) return; }
    if (pc && nout) { opt("extrap_degree", "abort"); c_ezdefset(go, g.id); vector<float> u(n, 1), v(n, 1), r(np), q(np); int a = c_ezuvint(r.data(), q.data(), u.data(), v.data()), b = c_ezwdint(r.data(), q.data(), u.data(), v.data()); if (a != -1 || b != -1) { fail("ezuvint and ezwdint return %d and %d when asked to abort on extrapolation", a, b); return; } }
  }
  outcome(fmt("%c%c extension %d %s", g.t, g.ref, o.ext, o.noext ? "poles" : "extrapolated"));
}
// the same grid as source and target: components unchanged
static void same(Grid g) {
  if (g.create() < 0) return; int n = g.ni * g.nj; vector<float> u(n), v(n), a(n, -99), b(n, -99), sp(n), wd(n), s2(n, -1), w2(n, -1), la(n), lo(n);
  for (int i = 0; i < n; i++) { u[i] = (i * 7) % 11 - 5; v[i] = (i * 5) % 13 - 6; }
  c_gdll(g.id, la.data(), lo.data()); c_gdwdfuv(g.id, sp.data(), wd.data(), u.data(), v.data(), la.data(), lo.data(), n);
  for (int deg : {0, 1, 3}) { opt("interp_degree", DEG[deg]); c_ezdefset(g.id, g.id); int r1 = c_ezuvint(a.data(), b.data(), u.data(), v.data()), r2 = c_ezwdint(s2.data(), w2.data(), u.data(), v.data()); trans(2); (void)r1; (void)r2;
    for (int i = 0; i < n; i++) { eval(); if (fabs(la[i]) > 80) continue; double tol = g.geo() == 'E' ? 0.05 : 0.005; if (fabs(a[i] - u[i]) > tol || fabs(b[i] - v[i]) > tol) { fail("ezuvint from a grid to itself changes the wind (%g,%g) of point (%d,%d) to (%g,%g)", u[i], v[i], i % g.ni + 1, i / g.ni + 1, a[i], b[i]); return; }
      if (fabs(s2[i] - sp[i]) > 1e-3 || (sp[i] > 0 && fabs(mod(w2[i] - wd[i] + 180, 360) - 180) > 0.05)) { fail("ezwdint from a grid to itself gives speed %g direction %g at point (%d,%d), should be %g %g", s2[i], w2[i], i % g.ni + 1, i / g.ni + 1, sp[i], wd[i]); return; } } }
  outcome("same grid"); }
int main(int argc, char **argv) {
  init(argc, argv);
  for (auto &g : family(thorough)) { if (begin_s(g.str())) { state(g.str()); isolated([&] { vec(g); }); } if (begin_s("same grid " + g.str())) { state("same" + g.str()); isolated([&] { same(g); }); } }
  return done();
}
