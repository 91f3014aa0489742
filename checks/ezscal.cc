// E03: scalar interpolation, the whole linear operator compared with its definition
#include "ezop.hh"
using namespace vh; using namespace ez;
extern "C" int c_gdrls(int);
struct Pt { double x, y; float lat, lon; int kind; };
static void opt(const char *o, const char *v) { char a[32], b[32]; strcpy(a, o); strcpy(b, v); if (c_ezsetopt(a, b) < 0) fail("ezsetopt %s %s refused", o, v); }
static const char *DEG[] = {"nearest", "linear", "", "cubic"};
static bool cmp(const Op &o, const char *what, const vector<Pt> &p, const vector<vector<float>> &m, std::function<W(const Pt &)> f, double tol) {
  double worst = 0;
  for (size_t k = 0; k < p.size(); k++) { W w = f(p[k]); double s = 0; for (auto &c : w) s += fabs(c.second);
    bool dup = o.ext == 1 && (p[k].x > o.g.ni - 1e-3 || p[k].x < 1 + 1e-3); // the first and last columns are the same points
    for (size_t c = 0; c < m.size(); c++) { auto it = w.find(c); double e = it == w.end() ? 0 : it->second, v = m[c][k], d;
      if (dup && (int)c % o.g.ni == o.g.ni - 1) continue;
      if (dup && (int)c % o.g.ni == 0) { size_t c2 = c + o.g.ni - 1; v += m[c2][k]; it = w.find(c2); if (it != w.end()) e += it->second; }
      d = fabs(v - e); eval(); if (d / (1 + s) > worst) worst = d / (1 + s);
      if (!(d <= tol * (1 + s))) { fail("%s: at position (%g,%g) lat %g lon %g the weight of point (%d,%d) is %g, should be %g", what, p[k].x, p[k].y, p[k].lat, p[k].lon, (int)c % o.g.ni + 1, (int)c / o.g.ni + 1, v, e); return false; } } }
  count("worst weight error 1e-6 (" + string(1, o.g.t) + ")", 0);
  return true; }
static void scal(Grid g) {
  if (g.create() < 0) { fail("the source grid cannot be defined"); return; }
  Op o(g); int n = g.ni * g.nj; vector<Pt> p; double la, lo;
  float pl = 90, pm = -90, z = 0, a, b;
  c_gdxyfll(g.id, &a, &b, &pl, &z, 1); o.ypn = b; c_gdxyfll(g.id, &a, &b, &pm, &z, 1); o.yps = b;
  if (g.flipped() && g.t == 'G') { o.ypn = g.nj + 1 - o.ypn; o.yps = g.nj + 1 - o.yps; std::swap(o.ypn, o.yps); if (o.yps > o.ypn) std::swap(o.yps, o.ypn); }
  if (g.geo() == 'E') { o.ypn = g.nj + 0.5; o.yps = 0.5; if (g.t == 'E') { } }
  const double off[] = {0, 0.13, 0.37, 0.61, 0.88};
  double xm = o.ext == 2 ? g.ni + 0.999 : g.ni;
  for (int j = o.j1; j <= o.j2; j++) for (double dy : off) for (int i = 1; i <= g.ni; i++) for (double dx : off) { double x = i + dx, y = j + dy;
    if (x > xm || y > o.j2) continue;
    if (!thorough && (int)(dx * 100 + dy * 100 + 0.5) % 3 == 1) continue;
    o.ll(x, y, la, lo); Grid s = g; double px = 0, py = 0; if (s.flipped()) s.ig[1] = 0; s.plane(x, y, px, py);
    if (g.geo() == 'E' && (fabs(la) > 84 || fabs(py) > 86)) continue; // single precision is not enough there
    if (g.t == 'Z' && (g.ref == 'E' || g.ref == 'L') && (fabs(mod(px + 180, 360) - 180) < 1e-3)) continue; // seam
    if (g.t == 'E' && fabs(mod(px + 180, 360) - 180) < 1e-3) continue;
    p.push_back({x, y, (float)la, (float)lo, 0}); }
  if (!o.noext) for (double x : {-0.7, 0.2, 0.7, 2.4, g.ni - 0.3, g.ni + 0.3, g.ni + 0.8, g.ni + 1.9}) for (double y : {-0.7, 0.2, 0.7, 2.4, g.nj - 0.3, g.nj + 0.3, g.nj + 0.8, g.nj + 1.9}) { // around the grid
    if (x >= 1 && x <= g.ni && y >= 1 && y <= g.nj) continue;
    o.ll(x, y, la, lo); Grid s = g; double px, py; s.plane(x, y, px, py); if ((g.geo() == 'L' || g.geo() == 'E') && (fabs(g.geo() == 'L' ? g.xg[0] + (g.t == 'L' ? py - 1 : py) * g.xg[2] : py) > 85)) continue;
    float fa = la, fo = lo; c_gdxyfll(g.id, &a, &b, &fa, &fo, 1); if (fabs(a - x) > 0.01 || fabs(b - y) > 0.01) continue; // another branch of the projection
    p.push_back({x, y, fa, fo, 1}); }
  else if (g.geo() != 'E') for (double x = 1.2; x < xm; x += 0.8) for (double f : {0.3, 0.7, 1.0}) for (int h = 0; h < 2; h++) { // between the last row and the pole
    double l0, l1; o.ll(x, h ? o.j2 : o.j1, l0, l1); float fa = l0 + f * ((h ? 90 : -90) - l0), fo = l1; if (fabs(l0) > 89.9) continue;
    c_gdxyfll(g.id, &a, &b, &fa, &fo, 1); if (g.flipped() && g.t == 'G') b = g.nj + 1 - b; if (fabs(a - x) > 0.01 || fabs(mod(l1 + 180, 360) - 180) < 1e-3) continue;
    if (fabs(b - floor(b) - 0.5) < 0.02 && f != 1.0) continue;
    p.push_back({x, b, fa, fo, 2}); }
  if (g.t == 'E') for (double x = 1.3; x < g.ni - 0.2; x += 0.69) for (double d : {0.1, 0.2, 0.3}) for (int h = 0; h < 2; h++) { double y = h ? g.nj + d : 1 - d, px, py; g.plane(x, y, px, py); o.ll(x, y, la, lo); if (fabs(la) > 80 || fabs(py) > 84.5) continue; p.push_back({x, y, (float)la, (float)lo, 2}); }
  int np = p.size(); vector<float> la_(np), lo_(np), xs(np), ys(np);
  for (int k = 0; k < np; k++) { la_[k] = p[k].lat; lo_[k] = p[k].lon; xs[k] = p[k].x; ys[k] = p[k].y; }
  float one[4] = {0, 0, 1, 1}; int ig[4]; cxgaig_("L", &ig[0], &ig[1], &ig[2], &ig[3], &one[0], &one[1], &one[2], &one[3], 1);
  char Y[2] = "Y", L[2] = "L"; int go = c_ezgdef_fmem(np, 1, Y, L, ig[0], ig[1], ig[2], ig[3], lo_.data(), la_.data());
  if (go < 0) { fail("the target grid cannot be defined"); return; }
  double tol = g.geo() == 'E' ? 0.01 : 2e-3;
  int nout = 0; for (auto &q : p) if (!o.noext && o.outside(q.x, q.y)) nout++;
  vector<float> f(n), r(np); vector<vector<float>> M(n), X(n), V(n);
  for (int deg : {0, 1, 3}) {
    opt("interp_degree", DEG[deg]); opt("extrap_degree", "neutral");
    for (int pc = 1; pc >= 0; pc--) { opt("polar_correction", pc ? "yes" : "no");
      for (int c = 0; c < n; c++) { f.assign(n, 0); f[c] = 1; auto fc = f; r.assign(np, -99);
        if (c_ezdefset(go, g.id) < 0) { fail("ezdefset failed"); return; }
        int rc = c_ezsint(r.data(), f.data()); trans(); if (rc != (pc && nout ? 2 : 0)) { fail("ezsint returns %d with %d points outside", rc, nout); return; }
        if (f != fc) { fail("ezsint changed its input"); return; } M[c] = r;
        if (pc) { r.assign(np, -99); c_gdllsval(g.id, r.data(), f.data(), la_.data(), lo_.data(), np); X[c] = r; r.assign(np, -99); c_gdxysval(g.id, r.data(), f.data(), xs.data(), ys.data(), np); V[c] = r; if (f != fc) { fail("gdllsval or gdxysval changed its input"); return; } }
      }
      if (!cmp(o, fmt("ezsint %s%s", DEG[deg], pc ? "" : " without polar correction").c_str(), p, M, [&](const Pt &q) { return pc ? o.full(deg, q.x, q.y, deg) : o.general(deg, q.x, q.y); }, tol)) return;
      if (pc && !cmp(o, fmt("gdllsval %s", DEG[deg]).c_str(), p, X, [&](const Pt &q) { return o.general(deg, q.x, q.y); }, tol)) return;
      if (pc && !cmp(o, fmt("gdxysval %s", DEG[deg]).c_str(), p, V, [&](const Pt &q) { return o.general(deg, q.x, q.y); }, 1e-4)) return;
    }
    opt("polar_correction", "yes"); opt("extrap_degree", "neutral");
    { // each target on its own, and each with its successor, gives what the whole list gives
      for (int c = 0; c < n; c++) f[c] = (c * 37 % 101) - 30.5; r.assign(np, -99); c_ezdefset(go, g.id); c_ezsint(r.data(), f.data());
      for (int k = 0; k < np; k++) for (int m = 1; m <= 2; m++) { if (k + m > np || (m == 2 && k % 5) || (p[k].kind == 0 && k % 7 && k + 20 < np)) continue;
        int gk = c_ezgdef_fmem(m, 1, Y, L, ig[0], ig[1], ig[2], ig[3], &lo_[k], &la_[k]); float v[2] = {-99, -99}; if (gk < 0 || c_ezdefset(gk, g.id) < 0) { fail("a target of %d point(s) is refused", m); return; }
        c_ezsint(v, f.data()); trans(); c_gdrls(gk);
        for (int e = 0; e < m; e++) { eval(); if (!(fabs(v[e] - r[k + e]) <= 1e-4 * (1 + fabs(r[k + e])))) { fail("ezsint %s: the target lat %g lon %g, position (%g,%g), gives %g in a list of %d and %g in the whole list", DEG[deg], la_[k + e], lo_[k + e], p[k + e].x, p[k + e].y, v[e], m, r[k + e]); return; } } } }
    if (nout) { // every way to extrapolate
      for (int xd : {0, 1, 3}) { opt("extrap_degree", DEG[xd]);
        for (int c = 0; c < n; c++) { f.assign(n, 0); f[c] = 1; r.assign(np, -99); c_ezdefset(go, g.id); if (c_ezsint(r.data(), f.data()) != 2) fail("ezsint does not report the extrapolation"); trans(); M[c] = r; }
        if (!cmp(o, fmt("ezsint %s, %s outside", DEG[deg], DEG[xd]).c_str(), p, M, [&](const Pt &q) { return o.full(deg, q.x, q.y, xd); }, tol)) return; }
      for (int c = 0; c < n; c++) f[c] = (c * 37 % 101) - 30.5; f[n / 2] = -88; f[n / 3] = 203;
      double mx = *std::max_element(f.begin(), f.end()), mn = *std::min_element(f.begin(), f.end());
      vector<float> in(np); opt("extrap_degree", "neutral"); c_ezdefset(go, g.id); c_ezsint(in.data(), f.data());
      struct { const char *n; double v; } way[] = {{"maximum", mx + 0.05 * (mx - mn)}, {"minimum", mn - 0.05 * (mx - mn)}, {"value", -123.25}, {"abort", 0}};
      for (auto &w : way) { opt("extrap_degree", w.n); char ev[] = "extrap_value"; c_ezsetval(ev, -123.25); r.assign(np, -99); c_ezdefset(go, g.id);
        int rc = c_ezsint(r.data(), f.data()); trans(); bool ab = w.n[0] == 'a'; if (rc != (ab ? -1 : 2)) { fail("ezsint returns %d with extrapolation %s", rc, w.n); return; }
        if (ab) continue;
        for (int k = 0; k < np; k++) { bool ou = o.outside(p[k].x, p[k].y); eval(); if (ou ? fabs(r[k] - w.v) > 1e-3 : r[k] != in[k]) { fail("extrapolation %s: position (%g,%g) gives %g, should be %g", w.n, p[k].x, p[k].y, r[k], ou ? w.v : in[k]); return; } } }
    }
  }
  outcome(fmt("%c%c extension %d %s", g.t, g.ref, o.ext, o.noext ? "poles" : "extrapolated"));
}
int main(int argc, char **argv) {
  init(argc, argv);
  for (auto &g : family(thorough)) { if (!begin_s(g.str())) continue; state(g.str()); isolated([&] { scal(g); }); }
  return done();
}
