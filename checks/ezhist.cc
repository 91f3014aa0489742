// E02: histories of definitions, uses and releases of grids; tables of many grids; options
#include "ez.hh"
using namespace vh; using namespace ez;
extern "C" { int c_gdrls(int); int c_ezgetopt(char *, char *); int c_ezgetval(char *, float *); int c_ezgetival(char *, int *); int c_ezget_nsubgrids(int); int c_ezget_subgridids(int, int *);}
// a field linear in latitude and longitude is interpolated exactly by the linear degree, whatever the source grid
static double field(double lat, double lon) { return 3 * lat + 2 * lon; }
static Grid L(int ni, int nj, double lat, double lon, double dlat, double dlon) { Grid g; g.t = 'L'; g.ni = ni; g.nj = nj; g.par('L', lat, lon, dlat, dlon); return g; }
static Grid Z(char ref, vector<float> ax, vector<float> ay, double shift = 0) { Grid g; g.t = 'Z'; g.ref = ref; g.ni = ax.size(); g.nj = ay.size(); g.ax = ax; g.ay = ay; if (ref == 'L') g.par('L', shift, shift, 1, 1); return g; }
static Grid small(int k) { // k-th of a long list of distinct grids, all covering the middle of the targets
  if (k % 3 == 2) { vector<float> ax, ay; for (int i = 0; i < 6; i++) ax.push_back(10 + (k % 50) * 0.5 + i * 24 + (i & 1)); for (int j = 0; j < 5; j++) ay.push_back(-60 + (k / 50) * 0.25 + j * 26 - (j & 1)); return Z('L', ax, ay); }
  return L(6, 5, -60 + (k / 50) * 0.25, 10 + (k % 50) * 0.5, 25, 25); }
static bool check_def(const Grid &g, const char *when) { char t[4] = "", r[4] = ""; int ni = -1, nj = -1, q[4], p[4]; eval();
  c_ezgxprm(g.id, &ni, &nj, t, &q[0], &q[1], &q[2], &q[3], r, &p[0], &p[1], &p[2], &p[3]);
  if (t[0] != g.t || ni != g.ni || nj != g.nj || memcmp(g.ref == ' ' ? q : p, g.ig, sizeof q) || (g.ref != ' ' && r[0] != g.ref)) { fail("%s: grid %s (id %d) reads back as %c%c %dx%d ig=%d,%d,%d,%d", when, g.str().c_str(), g.id, t[0], r[0], ni, nj, q[0], q[1], q[2], q[3]); return false; }
  if (g.ref != ' ') { vector<float> a(g.ni), b(g.nj); c_gdgaxes(g.id, a.data(), b.data()); if (a != g.ax || b != g.ay) { fail("%s: the axes of grid %s (id %d) changed", when, g.str().c_str(), g.id); return false; } }
  return true; }
static bool use(Grid out, Grid in, const char *when) { eval(); trans();
  vector<float> f(in.ni * in.nj), r(out.ni * out.nj, -1e9); double la, lo;
  for (int j = 1; j <= in.nj; j++) for (int i = 1; i <= in.ni; i++) { in.ll(i, j, la, lo); f[(j - 1) * in.ni + i - 1] = field(la, lo); }
  if (c_ezdefset(out.id, in.id) < 0 || c_ezsint(r.data(), f.data()) < 0) { fail("%s: interpolation from %s to %s refused", when, in.str().c_str(), out.str().c_str()); return false; }
  for (int j = 1; j <= out.nj; j++) for (int i = 1; i <= out.ni; i++) { out.ll(i, j, la, lo); double w = field(la, lo), got = r[(j - 1) * out.ni + i - 1];
    if (la < -20 || la > 20 || lo < 60 || lo > 100) continue; // outside of some sources, or between a last and a first column
    if (!(fabs(got - w) < 0.05)) { fail("%s: interpolation from %s to %s gives %g at lat %g lon %g, should be %g", when, in.str().c_str(), out.str().c_str(), got, la, lo, w); return false; } }
  return true; }
static void linear() { char a[] = "interp_degree", b[] = "linear"; c_ezsetopt(a, b); }
// ---- histories
struct World { vector<Grid> g; vector<int> n; World(vector<Grid> v) : g(v), n(v.size(), 0) {}
  bool define(int k, const char *w) { Grid h = g[k]; h.create(); trans(); if (h.id < 0) { fail("%s: %s cannot be defined", w, h.str().c_str()); return false; }
    if (n[k] > 0 && h.id != g[k].id) { fail("%s: %s already has id %d, defining it again gives %d", w, h.str().c_str(), g[k].id, h.id); return false; }
    for (size_t o = 0; o < g.size(); o++) if ((int)o != k && n[o] > 0 && g[o].id == h.id) { fail("%s: %s and %s both have id %d", w, g[o].str().c_str(), h.str().c_str(), h.id); return false; }
    g[k].id = h.id; n[k]++; return true; }
  bool release(int k, const char *w) { trans(); if (c_gdrls(g[k].id) < 0) { fail("%s: release refused", w); return false; } n[k]--; return true; }
  bool all(const char *w) { for (size_t k = 0; k < g.size(); k++) if (n[k] > 0 && !check_def(g[k], w)) return false; return true; }
  string str() const { string s; for (int k : n) s += (char)('0' + k); for (auto &q : g) s += fmt(".%d", q.id); return s; } };
static vector<Grid> cast(int which) {
  if (which == 0) return {L(4, 4, -15, 62, 10, 10), L(6, 5, -50, 30, 25, 25), small(2), small(4)};
  if (which == 1) { Grid a; a.t = 'A'; a.ni = 24; a.nj = 12; Grid b = a; b.t = 'B'; b.ni = 25; b.nj = 13; return {L(3, 5, -10, 65, 5, 10), a, b, small(5)}; }
  vector<float> ax, ay; for (int i = 0; i < 24; i++) ax.push_back(i * 15); for (int j = 0; j < 11; j++) ay.push_back(-75 + 15 * j); auto ay2 = ay; ay2[3] += 1; ay2[8] -= 2; auto ax2 = ax; ax2[5] += 2;
  return {Z('L', ax, ay), Z('L', ax, ay2), Z('L', ax2, ay), Z('L', ax, ay, 1)}; } // same sizes and parameters, different axes
struct Opr { char o; int a, b; string str() const { return o == 'U' ? fmt("use %d->%d", b, a) : fmt("%s %d", o == 'D' ? "def" : "rel", a); } };
static void history(World &w, const vector<Opr> &ops, int depth, string path) {
  state(w.str());
  if (depth == 0) { // whatever happened, everything still works
    isolated([&] { describe(path + "; then everything"); for (size_t k = 0; k < w.g.size(); k++) if (!w.define(k, "afterwards")) return; if (!w.all("afterwards")) return;
      for (size_t a = 0; a < w.g.size(); a++) for (size_t b = 0; b < w.g.size(); b++) if (a != b && (b || w.g[0].t == 'Z') && !use(w.g[a], w.g[b], "afterwards")) return;
      w.all("after the uses"); outcome("complete"); });
    return; }
  for (auto &p : ops) { if (failed_in_case) return;
    if (p.o == 'D' && w.n[p.a] >= 2) continue; if (p.o == 'R' && w.n[p.a] < 1) continue; if (p.o == 'U' && (w.n[p.a] < 1 || w.n[p.b] < 1)) continue;
    isolated([&] { string d = path + "; " + p.str(); describe(d); bool ok = p.o == 'D' ? w.define(p.a, p.str().c_str()) : p.o == 'R' ? w.release(p.a, p.str().c_str()) : use(w.g[p.a], w.g[p.b], p.str().c_str());
      if (ok && w.all(p.str().c_str())) history(w, ops, depth - 1, d); }); } }
static void histories() { 
  for (int c = 0; c < 3; c++) { int n = 4, depth = thorough ? 6 : 5; vector<Opr> ops; for (int k = 0; k < n; k++) ops.push_back({'D', k, 0}); for (int k = 0; k < n; k++) ops.push_back({'R', k, 0});
    ops.push_back({'U', 0, 1}); ops.push_back({'U', 0, 2}); ops.push_back(c == 2 ? Opr{'U', 1, 0} : Opr{'U', 3, 1}); if (thorough) { ops.push_back({'U', 2, 1}); ops.push_back({'U', 3, 2}); ops.push_back({'U', 0, 3}); }
    // the first two steps split the histories between the processes
    for (auto &p : ops) for (auto &q : ops) { if (p.o != 'D') continue; if (q.o == 'R' && q.a != p.a) continue; if (q.o == 'U') continue;
      if (!begin("cast %d: history starting with %s; %s", c, p.str().c_str(), q.str().c_str())) continue;
      World w(cast(c)); isolated([&] { linear(); string d = fmt("cast %d: ", c) + p.str() + "; " + q.str(); if (!w.define(p.a, "first")) return; if (q.o == 'D' ? !w.define(q.a, "second") : !w.release(q.a, "second")) return; if (w.all("second")) history(w, ops, depth - 2, d); }); } } }
// ---- many grids
static void many() { int N = thorough ? 4000 : 1200;
  for (int part = 0; part < (thorough ? 64 : 16); part++) { if (!begin("%d grids: release of one of them, part %d", N, part)) continue; state(fmt("many %d", part)); isolated([&] {
    vector<Grid> g; std::map<int, int> ids; for (int k = 0; k < N; k++) { g.push_back(small(k)); g[k].create(); trans(); if (ids.count(g[k].id)) { fail("grids %s and %s both have id %d", g[ids[g[k].id]].str().c_str(), g[k].str().c_str(), g[k].id); return; } ids[g[k].id] = k; }
    for (int k = 0; k < N; k++) { if (!check_def(g[k], "after all the definitions")) return; Grid h = g[k]; h.create(); if (h.id != g[k].id) { fail("%s has id %d, defining it again gives %d", h.str().c_str(), g[k].id, h.id); return; } c_gdrls(h.id); if (!check_def(g[k], "after a second definition and one release")) return; }
    int parts = thorough ? 64 : 16, step = thorough ? 1 : 5;
    for (int v = part * step; v < N; v += parts * step) isolated([&] { describe(fmt("%d grids; release number %d; define three others", N, v)); c_gdrls(g[v].id); trans();
      vector<Grid> nw = {small(N + 1), small(N + 3), g[v]}; vector<int> nid; for (auto &h : nw) { h.create(); trans(); for (int k = 0; k < N; k++) if (k != v && g[k].id == h.id) { fail("a new grid takes id %d, which %s still has", h.id, g[k].str().c_str()); return; } for (int o : nid) if (o == h.id) { fail("two new grids share id %d", o); return; } nid.push_back(h.id); }
      for (int k = 0; k < N; k++) if (k != v && !check_def(g[k], "after the release")) return;
      for (auto &h : nw) if (!check_def(h, "new")) return;
      for (int k = 0; k < N; k++) if (k != v) { Grid h = g[k]; h.create(); if (h.id != g[k].id) { fail("after the release, %s is defined again as %d instead of %d", h.str().c_str(), h.id, g[k].id); return; } } });
    outcome("many grids"); }); } }
// ---- one target, many sources; one source, many targets
static void sets() { int R = 251;
  for (int r = 0; r < R; r += thorough ? 1 : 10) for (int extra : {62, 130, 280}) { int r2 = r; if (!begin("one target, %d sources, sources %d and %d first", extra, r2, r2 + R)) continue; state(fmt("sets %d %d", r2, extra)); isolated([&] { linear();
    int N = 800; vector<Grid> g; for (int k = 0; k < N; k++) { g.push_back(small(k)); g[k].create(); }
    Grid out = L(3, 3, -10, 65, 10, 10); out.create(); vector<int> order = {r2, r2 + R}; if (r2 + 2 * R < N) order.push_back(r2 + 2 * R); for (int k = 0; k < extra; k++) { int c = (r2 * 7 + k * 5) % N; order.push_back(c); }
    for (size_t k = 0; k < order.size(); k++) { if (!use(out, g[order[k]], fmt("source number %zu", k).c_str())) return; if (!use(out, g[order[k * 3 / 4]], fmt("return to source number %zu after %zu", k * 3 / 4, k).c_str())) return; }
    for (int o : order) if (!use(out, g[o], "after all the sources")) return;
    outcome("sources"); }); }
  for (int big = 0; big < (thorough ? 3 : 1); big++) { if (!begin("one target, 2300 sources, stride %d", big)) continue; isolated([&] { linear(); int N = 2300; vector<Grid> g; for (int k = 0; k < N; k++) { g.push_back(small(k)); g[k].create(); }
    Grid out = L(2, 2, -5, 70, 10, 10); out.create(); static const int st[] = {1, 7, 509}; for (int k = 0; k < N; k++) { int c = (long)k * st[big] % N; if (!use(out, g[c], fmt("source number %d", k).c_str()) || !use(out, g[(long)(k / 2) * st[big] % N], "an earlier one")) return; } outcome("full table"); }); }
  for (int n : {1, 31, 127, 128, 129, 300}) { if (!begin("one source, %d targets, then the release of the source", n)) continue; isolated([&] { linear(); Grid in = small(7), in2 = small(9); in.create(); in2.create(); vector<Grid> o; for (int k = 0; k < n; k++) { o.push_back(L(2, 2, -10 + (k % 20) * 0.5, 65 + (k / 20) * 0.5, 5, 5)); o[k].create(); if (!use(o[k], in, "first pass")) return; }
    for (auto &q : o) if (!use(q, in, "second pass") || !use(q, in2, "another source")) return; c_gdrls(in.id); for (auto &q : o) if (!check_def(q, "after the release") || !use(q, in2, "after the release")) return;
    in = small(8); in.create(); for (auto &q : o) if (!use(q, in, "with a new source") || !use(q, in2, "old source")) return; outcome("targets"); }); } }
// ---- options
struct OV { const char *o, *v, *get; };
static void options() {
  static const char *O[][2] = {{"interp_degree", "degre_interp"}, {"extrap_degree", "degre_extrap"}, {"polar_correction", "correction_polaire"}, {"verbose", "verbose"}, {"use_1subgrid", "use_1sousgrille"}, {"cloud_interp_alg", "cloud_interp_alg"}};
  static const vector<std::pair<const char *, const char *>> V[] = {{{"nearest", "voisin"}, {"linear", "lineaire"}, {"linear", "lineair"}, {"cubic", "cubique"}, {"average", "average"}, {"sph_average", "sph_average"}},
    {{"nearest", "voisin"}, {"linear", "lineaire"}, {"cubic", "cubique"}, {"maximum", "maximum"}, {"minimum", "minimum"}, {"value", "valeur"}, {"abort", "abort"}},
    {{"yes", "oui"}, {"no", "non"}}, {{"yes", "oui"}, {"no", "non"}, {"yesyesyes", "ouiouioui"}}, {{"yes", "oui"}, {"no", "non"}}, {{"linear", "lineaire"}, {"distance", "distance"}}};
  struct Set { int o; string name, val, want; }; vector<Set> all;
  for (int o = 0; o < 6; o++) for (auto &v : V[o]) for (int ln = 0; ln < 2; ln++) for (int lv = 0; lv < 2; lv++) for (int up = 0; up < 2; up++) { string n = O[o][ln], w = lv ? v.second : v.first; if (up) { for (auto &c : n) c = toupper(c); for (auto &c : w) c = toupper(c); } all.push_back({o, n, w, v.first}); }
  for (int f = 0; f < 2; f++) { // C and Fortran interfaces
    for (size_t a = 0; a < all.size(); a++) { if (!begin("option %s = %s then every other, %s interface", all[a].name.c_str(), all[a].val.c_str(), f ? "Fortran" : "C")) continue; isolated([&] {
      string cur[6] = {"cubic", "maximum", "yes", "no", "", "distance"}; { char x[32] = "use_1subgrid", y[32]; c_ezgetopt(x, y); cur[4] = y; }
      auto setq = [&](string n, string v) { if (f) { char x[40], y[40]; memset(x, ' ', 40); memset(y, ' ', 40); memcpy(x, n.data(), n.size()); memcpy(y, v.data(), v.size()); return ((int (*)(char *, char *, size_t, size_t))ezsetopt_)(x, y, n.size() + 3, v.size() + 2); } char x[40], y[40]; strcpy(x, n.c_str()); strcpy(y, v.c_str()); return c_ezsetopt(x, y); };
      auto chk = [&](const char *w) { for (int o = 0; o < 6; o++) { char x[32], y[32] = "nothing"; strcpy(x, O[o][0]); c_ezgetopt(x, y); eval(); if (cur[o] != y) { fail("%s: option %s is %s, should be %s", w, O[o][0], y, cur[o].c_str()); return false; } state(fmt("%d %s", o, y)); } return true; };
      if (!chk("by default")) return;
      if (setq(all[a].name, all[a].val) < 0) { fail("refused"); return; } cur[all[a].o] = all[a].want; trans(); if (!chk("after the first")) return;
      if (setq(all[a].name, "rubbish") != -1 || setq("rubbish", all[a].val) != -1) { fail("an unknown option or value is not refused"); return; } if (!chk("after a refused call")) return;
      for (auto &b : all) { if (setq(b.name, b.val) < 0) { fail("%s = %s refused", b.name.c_str(), b.val.c_str()); return; } cur[b.o] = b.want; trans(); if (!chk((b.name + "=" + b.val).c_str())) return; if (setq(all[a].name, all[a].val) < 0) { fail("refused"); return; } cur[all[a].o] = all[a].want; if (!chk("first one again")) return; }
      if (setq("extrap_degree", "neutral") < 0) { fail("neutral refused"); return; } { string d = cur[0]; char x[32] = "extrap_degree", y[32] = ""; c_ezgetopt(x, y); if ((d == "nearest" || d == "linear" || d == "cubic") && d != y) { fail("neutral extrapolation is %s with interpolation %s", y, d.c_str()); return; } }
      outcome("options"); }); } }
  static const char *FV[] = {"extrap_value", "missing_distance_threshold", "missing_gridpt_distance"}, *IV[] = {"weight_number", "missing_points_tolerance", "subgridid"};
  if (begin("values")) isolated([&] { float vals[] = {-1e30f, -1, 0, 1.5f, 1e30f}; int iv[] = {-5, 0, 1, 16, 2147483647}; float cf[3]; int ci[3]; for (int k = 0; k < 3; k++) { cf[k] = vals[k]; ci[k] = iv[k]; char x[40]; strcpy(x, FV[k]); c_ezsetfval(x, cf[k]); strcpy(x, IV[k]); c_ezsetival(x, ci[k]); }
    for (int a = 0; a < 3; a++) for (float v : vals) for (int up = 0; up < 2; up++) { char x[40]; strcpy(x, FV[a]); if (up) for (char *q = x; *q; q++) *q = toupper(*q); c_ezsetfval(x, v); cf[a] = v; trans(); for (int k = 0; k < 3; k++) { float g = 77; char y[40]; strcpy(y, FV[k]); c_ezgetval(y, &g); eval(); if (g != cf[k]) { fail("%s is %g, should be %g", FV[k], g, cf[k]); return; } } }
    for (int a = 0; a < 3; a++) for (int v : iv) { char x[40]; strcpy(x, IV[a]); c_ezsetival(x, v); ci[a] = v; trans(); for (int k = 0; k < 3; k++) { int g = 77; char y[40]; strcpy(y, IV[k]); c_ezgetival(y, &g); eval(); if (g != ci[k]) { fail("%s is %d, should be %d", IV[k], g, ci[k]); return; } } }
    outcome("values"); }); }
int main(int argc, char **argv) { init(argc, argv); histories(); many(); sets(); options(); return done(); }
