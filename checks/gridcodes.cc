// G01: grid descriptors.  cxgaig (real -> integer) and cigaxg (integer -> real) over the whole range
// of every field of every grid type: decoding follows the documented units, encoding what was decoded
// gives the same integers, and a real descriptor comes back within half a unit.
#include "vh.h"
using namespace vh;
extern "C" {
void cxgaig_(const char *, int32_t *, int32_t *, int32_t *, int32_t *, float *, float *, float *, float *, size_t);
void cigaxg_(const char *, float *, float *, float *, float *, int32_t *, int32_t *, int32_t *, int32_t *, size_t);
void igaxg95_(char *, float *, int32_t *, const char *, int32_t *, int32_t *, int32_t *, int32_t *, size_t, size_t);
}
struct IG { int32_t v[4]; bool operator==(const IG &o) const { return !memcmp(v, o.v, 16); } };
struct XG { float v[4]; };
static IG enc(char t, XG x) { IG g = {{-7, -7, -7, -7}}; trans(); XG y = x; cxgaig_(&t, &g.v[0], &g.v[1], &g.v[2], &g.v[3], &x.v[0], &x.v[1], &x.v[2], &x.v[3], 1); if (memcmp(&x, &y, 16)) fail("type %c: encoding changed its input", t); return g; }
static XG dec(char t, IG g) { XG x = {{-7, -7, -7, -7}}; trans(); IG h = g; cigaxg_(&t, &x.v[0], &x.v[1], &x.v[2], &x.v[3], &g.v[0], &g.v[1], &g.v[2], &g.v[3], 1); if (!(h == g)) fail("type %c: decoding changed its input", t); return x; }
static std::string str(IG g) { return fmt("%d %d %d %d", g.v[0], g.v[1], g.v[2], g.v[3]); }
static std::string str(XG x) { return fmt("%.9g %.9g %.9g %.9g", x.v[0], x.v[1], x.v[2], x.v[3]); }
static double circ(double a, double b) { double d = std::fmod(std::fabs(a - b), 360.); return std::min(d, 360. - d); }

// documented meaning of the integers
static bool expected(char t, IG g, double *e) {
  double a = g.v[0], b = g.v[1], c = g.v[2], d = g.v[3];
  switch (t) {
    case 'L': e[0] = c * .01 - 90; e[1] = d * .01; e[2] = a * .01; e[3] = b * .01; return true;
    case 'C': e[0] = c * .01 - 90; e[1] = d * .01; e[2] = 180 / a; e[3] = 360 / b; return true;
    case 'H': e[0] = c; e[1] = .01 * d - 90; e[2] = 500 * b; e[3] = a * .2; return true;
    case 'A': case 'B': case 'G': e[0] = a; e[1] = b; e[2] = e[3] = 0; return true;
    case 'N': case 'S': e[0] = b * .1; e[1] = a * .1; e[2] = d * 100; e[3] = c * .01; return true;
  }
  return false;
}
static bool codes(char t, IG g) {
  XG x = dec(t, g); double e[4];
  eval();
  if (expected(t, g, e)) for (int k = 0; k < 4; k++) if (!(std::fabs(x.v[k] - e[k]) <= 1e-5 + 1e-6 * std::fabs(e[k]))) { fail("type %c: %s decodes to %s, value %d should be %.9g", t, str(g).c_str(), str(x).c_str(), k + 1, e[k]); return false; }
  IG h = enc(t, x);
  if (!(h == g)) { fail("type %c: %s decodes to %s, which encodes to %s", t, str(g).c_str(), str(x).c_str(), str(h).c_str()); return false; }
  char o = '?'; float l[4] = {0, 0, 0, 0}; int32_t n = 4; IG q = g;
  igaxg95_(&o, l, &n, &t, &q.v[0], &q.v[1], &q.v[2], &q.v[3], 1, 1);
  if (o != t || memcmp(l, x.v, 16)) { fail("type %c: %s: the extended decoder gives %c %.9g %.9g %.9g %.9g", t, str(g).c_str(), o, l[0], l[1], l[2], l[3]); return false; }
  return true;
}
// full range of each field, the others at each of some values
static void ranges(char t, std::vector<std::pair<int, int>> r, int step = 1) {
  for (int k = 0; k < 4; k++) for (int bg = 0; bg < 4; bg++) {
    if (!begin("type %c, every value of ig%d, background %d", t, k + 1, bg)) continue;
    IG g; for (int j = 0; j < 4; j++) { long w = r[j].second - r[j].first; g.v[j] = r[j].first + (bg == 0 ? 0 : bg == 1 ? w : bg == 2 ? w / 2 : w / 3); }
    for (int v = r[k].first; v <= r[k].second; v += step) { g.v[k] = v; if (!codes(t, g)) break; }
    state(hash(&g, sizeof g)); outcome(fmt("type %c", t));
    count("fields enumerated");
  }
}
static bool near4(char t, XG x, const double *tol, const bool *lon, const double *want = nullptr) {
  IG g = enc(t, x); XG y = dec(t, g);
  eval(); 
  for (int k = 0; k < 4; k++) {
    double w = want ? want[k] : x.v[k];
    double d = lon[k] ? circ(y.v[k], w) : std::fabs(y.v[k] - w);
    if (!(d <= tol[k])) { fail("type %c: %s encodes to %s and decodes to %s: value %d is off by %g (unit allows %g)", t, str(x).c_str(), str(g).c_str(), str(y).c_str(), k + 1, d, tol[k]); return false; }
  }
  return true;
}
// latitude and longitude of grid point (x,y) relative to the pole of a polar-stereographic grid
static void ll(double x, double y, double d60, double dgrw, bool south, double &lat, double &lon) {
  double re = 1.866025 * 6.371e6 / d60, r2 = x * x + y * y;
  lat = std::asin((re * re - r2) / (re * re + r2)) * 180 / M_PI;
  lon = std::atan2(y, x) * 180 / M_PI - dgrw;
  if (south) { lat = -lat; lon = -lon; }
}

int main(int argc, char **argv) {
  init(argc, argv);
  ranges('L', {{0, 20000}, {0, 36000}, {0, 18000}, {0, 36000}});
  ranges('C', {{1, 3600}, {1, 7200}, {0, 18000}, {0, 36000}});
  ranges('H', {{0, 1800}, {1, 4000}, {0, 36180}, {0, 18000}});
  for (char t : {'A', 'B', 'G'}) ranges(t, {{0, 2}, {0, 1}, {0, 0}, {0, 0}});
  for (char t : {'N', 'S'}) ranges(t, {{0, 2047}, {0, 2047}, {0, 35999}, {1, 32000}});

  // E: latitude and longitude share two bits of two fields
  for (int half = 0; half < 2; half++) for (int blk = 0; blk < 40; blk++) {
    if (!begin("type E, %s pole, block %d of the latitudes", half ? "second" : "first", blk)) continue;
    bool ok = true;
    for (int la = blk * 7201 / 40; la < (blk + 1) * 7201 / 40 && ok; la++)
      for (int lo = la % (thorough ? 11 : 101); lo <= 14400 && ok; lo += thorough ? 11 : 101) {
        XG x = {{10, 20, 30, 40}};
        x.v[half ? 2 : 0] = (float)(la / 40.0 - 90); x.v[half ? 3 : 1] = (float)(lo / 40.0);
        static const double tol[4] = {1e-5, 4e-5, 1e-5, 4e-5}; static const bool lon[4] = {false, true, false, true};
        ok = near4('E', x, tol, lon);
      }
    if (ok) count("type E blocks");
    outcome("type E");
  }
  // reals between the units: half a unit
  struct R { char t; double lo[4], hi[4], tol[4]; bool lon[4]; } rs[] = {
    {'L', {-90, -360, .01, .01}, {90, 720, 180, 360}, {.00502, .00505, .00502, .00504}, {false, true, false, false}},
    {'E', {-90, -360, -90, -360}, {90, 360, 90, 360}, {.01253, .01256, .01253, .01256}, {false, true, false, true}},
    {'H', {0, -90, 1000, -360}, {36180, 90, 600000, 360}, {.5, .00502, 250.1, .1001}, {false, false, false, true}},
    {'+', {-90, -180, 0, 0}, {90, 360, 0, 0}, {1.3e-5, 3.6e-5, 0, 0}, {false, true, false, false}},
    {'N', {1, 1, 1000, 0}, {204, 204, 3.1e6, 359.9}, {.0501, .0501, 50.2, .0051}, {false, false, false, true}},
    {'S', {1, 1, 1000, -300}, {204, 204, 3.1e6, 359.9}, {.0501, .0501, 50.2, .0051}, {false, false, false, true}},
  };
  for (auto &r : rs) for (int k = 0; k < 4; k++) for (int bg = 0; bg < 5; bg++) {
    if (r.lo[k] == r.hi[k]) continue;
    if (!begin("type %c, values of xg%d between the units, background %d", r.t, k + 1, bg)) continue;
    XG x; for (int j = 0; j < 4; j++) x.v[j] = (float)(r.lo[j] + (r.hi[j] - r.lo[j]) * (bg == 4 ? .618 : bg / 3.));
    int n = thorough ? 2000003 : 200003; bool ok = true;
    for (int i = 0; i < n && ok; i++) { x.v[k] = (float)(r.lo[k] + (r.hi[k] - r.lo[k]) * i / (n - 1)); ok = near4(r.t, x, r.tol, r.lon); }
    if (ok) count("real ranges");
    outcome(fmt("type %c", r.t));
  }
  // the general polar-stereographic code: spacing, orientation, and where grid point (1,1) is
  static const float PI_[] = {-500.5f, -20, -0.3f, .5f, 1.7f, 33, 204.7f, 205, 1000.25f, 3000};
  static const float D60[] = {1000, 5000, 12500, 25000, 60000, 190500, 204700, 204800, 381000, 1e6f};
  for (char t : {'N', 'S'}) for (float pi : PI_) for (float pj : PI_) {
    if (!begin("type %c, general code, pole at %g %g", t, pi, pj)) continue;
    bool ok = true;
    for (float d : D60) for (int gw = -3600; gw <= 3600 && ok; gw += thorough ? 1 : 25) {
      float dgrw = gw * 0.1f;
      XG x = {{pi, pj, d, dgrw}}; IG g = enc(t, x); XG y = dec(t, g);
      eval();
      bool oldcode = g.v[3] < 32768;
      double q = oldcode ? 50.2 : d > 204700 ? 501 : 50.2;
      if (!(std::fabs(y.v[2] - d) <= q) || !(circ(y.v[3], dgrw) <= (oldcode ? .0051 : .0501))) { fail("%s encodes to %s and decodes to %s", str(x).c_str(), str(g).c_str(), str(y).c_str()); ok = false; break; }
      if (g.v[0] < 0 || g.v[1] < 0 || g.v[2] < 0 || g.v[3] < 0 || g.v[0] > 65535 || g.v[1] > 65535 || g.v[2] > 65535 || g.v[3] > 65535) { fail("%s encodes to %s, beyond 16 bits", str(x).c_str(), str(g).c_str()); ok = false; break; }
      if (oldcode) { if (std::fabs(y.v[0] - pi) > .051 || std::fabs(y.v[1] - pj) > .051) { fail("%s encodes to %s and decodes to %s", str(x).c_str(), str(g).c_str(), str(y).c_str()); ok = false; } continue; }
      double la, lo, la2, lo2;
      ll(1. - pi, 1. - pj, d, dgrw, t == 'S', la, lo); ll(1. - y.v[0], 1. - y.v[1], y.v[2], y.v[3], t == 'S', la2, lo2);
      double r = M_PI / 180, dist = 2 * std::asin(std::min(1., std::sqrt(std::pow(std::sin((la - la2) * r / 2), 2) + std::cos(la * r) * std::cos(la2 * r) * std::pow(std::sin((lo - lo2) * r / 2), 2)))) / r;
      // the latitude is the arc sine of a single-precision number, which is coarse next to the pole
      double single = std::min(.04, 1.2e-7 / std::max(1e-9, std::cos(std::max(std::fabs(la), std::fabs(la2)) * r)) / r);
      if (!(dist <= 180. / 16383 / 2 + 360. / 32767 / 2 * std::cos(std::min(std::fabs(la), std::fabs(la2)) * r) + .004 + single)) {
        fail("%s encodes to %s and decodes to %s: point (1,1) moves from %.5f %.5f to %.5f %.5f", str(x).c_str(), str(g).c_str(), str(y).c_str(), la, lo, la2, lo2); ok = false; break; }
      state(hash(&g, sizeof g));
    }
    outcome("general polar-stereographic");
    if (ok) count("poles");
  }
  // a list too short is refused
  if (begin("extended decoder, list of fewer than four reals")) {
    for (int32_t n = 0; n < 4; n++) { char o = '?'; float l[4] = {1, 2, 3, 4}; int32_t a = 10, b = 10, c = 0, d = 0; igaxg95_(&o, l, &n, "L", &a, &b, &c, &d, 1, 1); if (o != '*' || l[0] != 1 || l[3] != 4) fail("a list of %d reals is not refused", n); }
  }
  return done();
}
