// E07: distances and areas on the sphere, for every pair and every cell of a lattice, against vector geometry in double precision
#include "ez.hh"
using namespace vh; using namespace ez;
extern "C" { void ez_calcdist_(float *, float *, float *, float *, float *); void ez_calcdist2_(double *, float *, float *, float *, float *);
  void ez_calcarea_rect_(float *, float *, float *, float *, float *); void ez_calcarea_(float *, float *, float *); void ez_calcarea2_(float *, float *, float *); }
static const double R = 6370997.;
struct LL { float la, lo; };
static double ref(LL a, LL b) { // haversine from exact differences; from the antipode when that is nearer
  double c = dist(a.la, a.lo, b.la, b.lo) * D2R;
  if (c < .1) { double s = sin(((double)b.la - a.la) * D2R / 2), t = sin(((double)b.lo - a.lo) * D2R / 2); c = 2 * asin(sqrt(s * s + cos(a.la * D2R) * cos(b.la * D2R) * t * t)); }
  return c * R; }
// the solid angle of a triangle (Van Oosterom and Strackee)
static double tri(P3 a, P3 b, P3 c) { double n = dot(a, cross(b, c)), d = 1 + dot(a, b) + dot(b, c) + dot(c, a); return fabs(2 * atan2(n, d)); }
static double quad(const LL *p) { P3 v[4]; for (int k = 0; k < 4; k++) v[k] = xyz(p[k].la, p[k].lo); return (tri(v[0], v[1], v[2]) + tri(v[0], v[2], v[3])) * R * R; }
static bool two(LL a, LL b) {
  float d = -1, f = -1; double e = -1, g = -1; c_ez_calcdist(&d, a.la, a.lo, b.la, b.lo); c_ez_calcdist2(&e, a.la, a.lo, b.la, b.lo);
  ez_calcdist_(&f, &a.la, &a.lo, &b.la, &b.lo); ez_calcdist2_(&g, &a.la, &a.lo, &b.la, &b.lo); trans(4); eval(4);
  double w = ref(a, b);
  if (!(fabs(d - w) <= 2 + 2e-7 * w) || !(f == d)) { fail("calcdist: (%.9g,%.9g) to (%.9g,%.9g) is %g or %g, should be %.9g", a.la, a.lo, b.la, b.lo, d, f, w); return false; }
  double near = std::min(w, M_PI * R - w) ;
  if (!(fabs(e - w) <= 2e-7 * w + (w > 1e7 ? 2 : 1e-7)) || !(g == e)) { fail("calcdist2: (%.9g,%.9g) to (%.9g,%.9g) is %.9g or %.9g, should be %.9g", a.la, a.lo, b.la, b.lo, e, g, w); return false; }
  (void)near; return true; }
static bool area(const LL *p, const char *what, double fuzz) { // a cell given by its corners in turn
  float la[4], lo[4]; for (int k = 0; k < 4; k++) { la[k] = p[k].la; lo[k] = p[k].lo; }
  double w = quad(p), e = -1; float d = -1, f = -1, g = -1; c_ez_calcarea(&d, la, lo); ez_calcarea_(&f, la, lo); c_ez_calcarea2(&e, la, lo); ez_calcarea2_(&g, la, lo); trans(4); eval(4);
  double big = 0; for (int k = 0; k < 4; k++) for (int m = 0; m < k; m++) big = std::max(big, ref(p[k], p[m]));
  auto s = [&]() { return fmt("%s (%.9g,%.9g) (%.9g,%.9g) (%.9g,%.9g) (%.9g,%.9g)", what, la[0], lo[0], la[1], lo[1], la[2], lo[2], la[3], lo[3]); };
  if (!(fabs(e - w) <= 2e-5 * w + fuzz * big * big) || !(g == (float)e)) { fail("calcarea2: %s has %g or %g m2, should be %g", s().c_str(), e, g, w); return false; }
  if (!(fabs(d - w) <= 2e-5 * w + fuzz * big * big + 3e7) || !(f == d)) { fail("calcarea: %s has %g or %g m2, should be %g", s().c_str(), d, f, w); return false; }
  state(hash(&w, 8)); return true; }
static bool rect(float la1, float lo1, float la2, float lo2) {
  LL p[4] = {{la1, lo1}, {la1, lo2}, {la2, lo2}, {la2, lo1}}; float d = -1, f = -1; double w = quad(p);
  c_ez_calcarea_rect(&d, la1, lo1, la2, lo2); ez_calcarea_rect_(&f, &la1, &lo1, &la2, &lo2); trans(2); eval(2);
  if (!(fabs(d - w) <= 2e-5 * w + 3e7) || !(f == d)) { fail("calcarea_rect: (%g,%g) to (%g,%g) has %g or %g m2, should be %g", la1, lo1, la2, lo2, d, f, w); return false; }
  for (int r = 0; r < 4; r++) for (int q = 0; q < 2; q++) { LL z[4]; for (int k = 0; k < 4; k++) z[k] = p[((q ? 3 - k : k) + r) % 4]; if (!area(z, "rectangle", 1e-7)) return false; }
  return true; }
int main(int argc, char **argv) {
  init(argc, argv);
  double step = thorough ? 7.5 : 15; std::vector<LL> P;
  for (double la = -90; la <= 90; la += step) for (double lo = 0; lo < 360; lo += step) P.push_back({(float)la, (float)lo});
  for (float la : {-89.99f, -45.001f, 0.0001f, 33.3f, 60.00001f, 89.9999f}) for (float lo : {-180.f, -10.5f, 0.001f, 179.9999f, 359.999f, 360.f}) P.push_back({la, lo});
  for (size_t a = 0; a < P.size(); a++) {
    if (!begin("distances from (%g,%g)", P[a].la, P[a].lo)) continue;
    bool ok = true; double s = 0; for (size_t b = 0; b < P.size() && ok; b++) { ok = two(P[a], P[b]); s += ref(P[a], P[b]); }
    // close by: every direction, from a metre upwards; and about the antipode
    for (float h : {1e-5f, 1e-4f, 1e-3f, .01f, .1f, 1.f}) for (int i = -1; i <= 1 && ok; i++) for (int j = -1; j <= 1 && ok; j++) { float la = P[a].la + i * h, lo = P[a].lo + j * h; if (fabs(la) > 90) continue; ok = two(P[a], {la, lo}) && two(P[a], {-la, lo + 180}); }
    state(hash(&s, 8)); outcome(ok ? "distances" : "distances wrong"); }
  for (int c = 0; c < 180; c++) { if (!begin("points with themselves and opposite, latitudes %d to %d", c - 90, c - 89)) continue; bool ok = true;
    for (int k = 0; k < 1000 && ok; k += thorough ? 1 : 10) { LL p = {c - 90 + k / 1000.f, (k * 7 + c) % 360 + k / 777.f}; ok = two(p, p) && two(p, {p.la, p.lo - 360}) && two(p, {-p.la, p.lo + 180}); } outcome("coincident and opposite"); }
  // cells between two parallels and two meridians
  for (double la = -90; la < 90; la += thorough ? 2.5 : 5) { if (!begin("rectangles from latitude %g", la)) continue; bool ok = true;
    for (double h : {.1, .5, 1., 2.5, 5., 10., 30.}) for (double w : {.1, .5, 1., 2.5, 5., 15., 60., 90.}) for (double lo : {0., 95., 359.}) if (ok && la + h <= 90) { ok = rect(la, lo, la + h, lo + w); if (ok && la == -90) ok = rect(90 - h, lo, 90, lo + w); }
    outcome("rectangles"); }
  // cells of rotated grids and skewed cells, the corners in every order around
  for (auto &g : family(thorough)) { if (g.flipped() || g.t == 'N' || g.t == 'S' || (g.geo() != 'E' && g.geo() != 'N' && g.geo() != 'S')) continue; if (!begin_s("cells of grid " + g.str())) continue; bool ok = true;
    for (int j = 1; j < g.nj && ok; j++) for (int i = 1; i < g.ni && ok; i++) for (int sk = 0; sk < 3; sk++) { double x[4] = {i + 0., i + 1., i + 1. - sk * .3, i - sk * .3}, y[4] = {j + 0., j + 0., j + 1., j + 1.}; LL p[4]; 
      for (int k = 0; k < 4; k++) { double a, b; g.ll(std::max(1., x[k]), y[k], a, b); p[k] = {(float)a, (float)b}; }
      bool wide = false; for (int k = 0; k < 4; k++) for (int m = 0; m < k; m++) if (ref(p[k], p[m]) > 0.45 * M_PI * R) wide = true; if (wide) continue;
      for (int r = 0; r < 4 && ok; r++) { LL z[4]; for (int k = 0; k < 4; k++) z[k] = p[(k + r) % 4]; ok = area(z, "cell", 3e-7); } }
    outcome("cells"); }
  // cells without extent in one direction or in both
  if (begin("degenerate cells")) { bool ok = true; for (float la : {-90.f, -45.f, 0.f, 33.f, 90.f}) for (float lo : {0.f, 100.f, 359.f}) for (float w : {0.f, .5f, 10.f}) for (float h : {0.f, .5f, 10.f}) { if (!ok || la + h > 90 || (w && h)) continue; if (h == 0 && la != 0 && w) continue; ok = rect(la, lo, la + h, lo + w); } outcome("degenerate"); }
  return done();
}
