// F04: every data type x number of bits x element width x field shape x value pattern written to a
// standard file between two other records and read back.
#include "fst.hh"
using namespace vh; using namespace fst; using std::vector;
extern "C" { int ForceMissingValueUsage(int); void set_missing_value_flags(const float *, const int *, const unsigned *, const double *, const short *, const unsigned short *, const signed char *, const unsigned char *); int c_armn_compress_getlevel(void); void c_armn_compress_setlevel(int); }
static const int DATE = 405318490;
struct Shape { int ni, nj, nk; };
static const char *F = "t.fst", *G = "g.fst";
typedef long double LD;
static bool isint(int d) { d &= 15; return d == 2 || d == 4; }
static bool isreal(int d) { d &= 15; return d == 1 || d == 5 || d == 6; }
// ---- value patterns, as doubles between 0 and 1 or special
static const int NPAT = 13;
static double unit(int pat, int i, int j, int k, int n, int idx) {
  switch (pat) {
    case 0: return 0.5;                                             // constant
    case 1: return n > 1 ? idx / (double)(n - 1) : 0;               // ramp
    case 2: return idx & 1;                                         // alternating extremes
    case 3: return (hash(&idx, 4) >> 20 & 0xffffff) / (double)0xffffff; // noise
    case 4: return idx == n / 2 ? 1 : 0;                            // spike
    case 5: return idx == 0 ? 1 : 0.25;                             // first one is the largest
    case 6: return 0.5 + 0.5 * sin(i * 0.3) * cos(j * 0.21 + k);    // smooth
    case 7: return idx == n - 1 ? 0 : 1;
    case 8: return ((i / 5) ^ (j / 5) ^ k) & 1;                     // blocks
    case 9: return (i % 7 == 3 && j % 5 == 2) ? 1 : 0.001 * ((idx * 31) % 17);  // mostly flat with peaks
    case 10: return ((i + j + k) & 1) ? 0.999 : 0.001 * (i % 3);    // checkerboard: worst for prediction
    case 11: return idx < 70 * (n / 80.) ? 0 : 1;                   // long runs
    case 12: return 0;                                              // powers of two: see mkreal
  }
  return 0;
}
// ranges for real fields
struct Rng { double lo, hi; };
static const Rng RR[] = {{0, 1}, {-3.5, 12.25}, {-1000, -999}, {1e-20, 3e-20}, {-2.5e30, 1e30}, {100000, 100000.5}, {0, 65535}, {-7, -7}, {-1e-3, 1}, {0, 3e-36}, {-2e-37, 5e-37}};
static float top(float f, int nb) { uint32_t u; memcpy(&u, &f, 4); if (nb < 32) u &= ~((1u << (32 - nb)) - 1); memcpy(&f, &u, 4); return f; }
static float flp(float lo, float hi, float x) { return lo + (hi - lo) * x; }
struct Fld { int n; vector<double> v; vector<char> miss; vector<unsigned char> raw; };   // raw: as given to the library
static int width_of(int w, int datyp, int nb) { int b = datyp & 15; if (b == 3 || b == 7) return 1; if ((b == 5) && nb == 64) return 8; return w; }
static void store(Fld &f, int datyp, int w) {
  int b = datyp & 15; f.raw.assign((size_t)f.n * w + 8, 0xA5);
  for (int i = 0; i < f.n; i++) {
    void *p = &f.raw[(size_t)i * w];
    if (isreal(b)) { if (w == 8) { double d = f.v[i]; memcpy(p, &d, 8); } else { float d = f.v[i]; memcpy(p, &d, 4); } }
    else { long long x = f.v[i]; memcpy(p, &x, w); }
  }
  f.raw.resize((size_t)f.n * w);
}
static double load(const unsigned char *p, int datyp, int w) {
  int b = datyp & 15;
  if (isreal(b)) { if (w == 8) { double d; memcpy(&d, p, 8); return d; } float d; memcpy(&d, p, 4); return d; }
  if (b == 4) { if (w == 1) return *(signed char *)p; if (w == 2) { short s; memcpy(&s, p, 2); return s; } int s; memcpy(&s, p, 4); return s; }
  if (w == 1) return *p; if (w == 2) { unsigned short s; memcpy(&s, p, 2); return s; } unsigned s; memcpy(&s, p, 4); return s;
}
static const float FM = -1.0e38f; static const double DM = -1.0e38;
static double missval(int datyp, int w) {
  int b = datyp & 15;
  if (isreal(b)) return w == 8 ? DM : FM;
  if (b == 4) return w == 1 ? -128 : w == 2 ? -32768 : -2147483648.0;
  return w == 1 ? 255 : w == 2 ? 65535 : 4294967295.0;
}
// tolerance of the decoded values: lo/hi are the extremes the packer sees
static LD tol(int datyp, int nb, int w, double lo, double hi, LD v) {
  int b = datyp & 15;
  if (b == 1 && nb < 33) {
    LD r = w == 8 ? (LD)(double)(hi - lo) : (LD)(float)(hi - lo); LD t = (fabsl(lo) + fabsl(v)) * powl(2, -23) + 2e-38L; if (r > 0) { int e; frexpl(r, &e); t += ldexpl(1.0001L, e - nb); } return t;
  }
  if (b == 6 && nb <= 16) {
    int e1, e2; frexp((float)lo, &e1); frexp((float)hi, &e2); if (lo == 0) e1 = -200; if (hi == 0) e2 = -200; int e = std::max(e1, e2); if (e == -200) return 0;
    LD un = ldexpl(1, e - 24); long long R = (long long)(hi / un) - (long long)(lo / un) + 1; int s = 0; while ((R >> s) > ((1 << nb) - 1)) s++;
    return un * ((1 << s) + 2.0L) + (v != 0 && fabsl(v) < 1.18e-38L ? 1.18e-38L : 0);   // denormals are packed as zero
  }
  if (b == 6 && nb <= 24) return tol(1, nb, w, lo, hi, v);
  return 0;
}
static int wr(int iun, void *d, int nb, Shape s, int ip1, int datyp, const char *nom, int w) {
  if (w != 4) c_fst_data_length(w);
  return c_fstecr(d, nullptr, -nb, iun, DATE, 0, 0, s.ni, s.nj, s.nk, ip1, 0, 0, "P", nom, "TYPES", "X", 1, 2, 3, 4, datyp, 0);
}
static bool guard(int iun, int seed, const char *when) {
  for (int k = 0; k < 2; k++) {
    int a, b, c, q[9]; for (auto &x : q) x = -1; int r = c_fstlir(q, iun, &a, &b, &c, -1, " ", seed, -1, -1, " ", k ? "GB" : "GA");
    bool ok = r >= 0 && a == 7; for (int i = 0; ok && i < 7; i++) ok = q[i] == seed * 100 + i + k * 50;
    if (!ok || q[7] != -1) { fail("%s: the record written %s it does not read back (rc %d)", when, k ? "after" : "before", r); return false; }
  }
  return true;
}
static bool putguard(int iun, int seed, int k) { int q[7]; for (int i = 0; i < 7; i++) q[i] = seed * 100 + i + k * 50; return c_fstecr(q, nullptr, -32, iun, DATE, 0, 0, 7, 1, 1, seed, 0, 0, "P", k ? "GB" : "GA", "GUARD", "X", 0, 0, 0, 0, 4, 0) >= 0; }
// reads record seed and compares with f
static bool compare(int iun, int seed, int datyp, int nb, int w, Shape s, const Fld &f, bool mset, const char *where) {
  int b = datyp & 15, a, c, d; int h = c_fstinf(iun, &a, &c, &d, -1, " ", seed, -1, -1, " ", "TT");
  if (h < 0) { fail("%s: the record is not found (%d)", where, h); return false; }
  if (a != s.ni || c != s.nj || d != s.nk) { fail("%s: dimensions %dx%dx%d", where, a, c, d); return false; }
  Meta m; prm(h, m);
  int base = m.datyp & 15, wantb = (b == 1 && (nb == 31 || nb == 32)) ? (datyp & 128 ? 1 : 5) : (b == 6 && nb > 24) ? 5 : (b == 6 && nb > 16) ? 1 : b;
  if (base == 5 && b == 1 && nb > 30) wantb = 5;
  if (base != wantb) { fail("%s: data type recorded %d for a field written as %d with %d bits", where, m.datyp, datyp, nb); return false; }
  bool anym = false; for (char x : f.miss) anym |= x;
  if (((m.datyp & 64) != 0) != (anym && mset)) { fail("%s: missing data flag in data type %d, field %s missing values", where, m.datyp, anym ? "has" : "has no"); return false; }
  int n = f.n, cw = b == 8 ? 2 : 1; size_t bytes = b == 8 ? (size_t)n * 2 * (nb == 64 ? 8 : 4) : b == 0 ? ((size_t)n * nb + 31) / 32 * 4 : f.raw.size();
  vector<unsigned char> o(bytes + 64, 0xC3);
  // character data are handled in words of four
  size_t lim = b == 3 ? (bytes + 3) / 4 * 4 : bytes;
  if (w != 4) c_fst_data_length(w);
  int r = c_fstluk(o.data(), h, &a, &c, &d); trans();
  if (r < 0) { fail("%s: reading gives %d", where, r); return false; }
  for (size_t i = lim; i < o.size(); i++) if (o[i] != 0xC3) { fail("%s: reading writes %zu bytes past the field", where, i - lim + 1); return false; }
  eval();
  if (b == 0 || b == 3 || b == 7) { for (size_t i = 0; i < bytes; i++) if (o[i] != f.raw[i] && !(b == 0 && (i / 4) == (size_t)n * nb / 32 && (size_t)n * nb % 32)) { fail("%s: byte %zu reads %02x, %02x was written", where, i, o[i], f.raw[i]); return false; } return true; }
  if (b == 8) {
    for (int i = 0; i < 2 * n; i++) {
      if (nb == 64) { if (memcmp(&o[i * 8], &f.raw[i * 8], 8)) { fail("%s: complex part %d differs", where, i); return false; } }
      else { float x, y; memcpy(&x, &o[i * 4], 4); memcpy(&y, &f.raw[i * 4], 4); y = top(y, nb); if (memcmp(&x, &y, 4)) { fail("%s: complex part %d reads %g, %g expected", where, i, x, y); return false; } }
    }
    return true;
  }
  // extremes
  double lo = 0, hi = 0; bool first = true; for (int i = 0; i < n; i++) if (!f.miss[i]) { if (first) lo = hi = f.v[i], first = false; lo = std::min(lo, f.v[i]); hi = std::max(hi, f.v[i]); }
  double ehi = hi, elo = lo;
  if (anym && !first && isreal(b)) { static const double fac[9] = {2.0, 3.1, 0.7, 0.3, 0.14, 0.07, 0.035, 0.017, 0.01}; ehi = hi + (hi - lo) * (nb > 8 ? 0.01 : fac[nb]) * 1.0001; if (w == 8 ? ehi - hi <= fabs(hi) * 1e-15 : (float)ehi <= (float)hi * (1 + (hi > 0 ? 1 : -1) * 3e-7f)) ehi = hi == 0 ? 1.0 : hi + fabs(hi); }
  for (int i = 0; i < n; i++) {
    double x = load(&o[(size_t)i * w], datyp, w), e = f.v[i];
    if (f.miss[i]) { if (x != missval(datyp, w)) { fail("%s: missing element %d of %d reads %.9g", where, i, n, x); return false; } continue; }
    if (anym && x == missval(datyp, w)) { fail("%s: element %d of %d (%.9g, largest %.9g) reads as missing", where, i, n, e, hi); return false; }
    if (isint(b)) { if (x != e) { fail("%s: element %d of %d reads %.0f, %.0f was written", where, i, n, x, e); return false; } continue; }
    if (wantb == 5) { double y = e; if (nb < 32 && b == 5) y = top(e, nb); if (w != 8) y = (float)y; if (memcmp(&x, &y, 8)) { fail("%s: element %d of %d reads %.9g, %.9g expected", where, i, n, x, y); return false; } continue; }
    LD t = tol(datyp, nb, w, elo, ehi, e);
    if (!(fabsl((LD)x - e) <= t)) { fail("%s: element %d of %d reads %.9g, %.9g was written (extremes %.9g %.9g, error %.3Lg, allowed %.3Lg)", where, i, n, x, e, lo, hi, fabsl((LD)x - e), t); return false; }
    if (b == 1 && !anym && e == lo && w == 4 && fabs(lo) > 1e-37 && (float)x != (float)lo) { fail("%s: the smallest value %.9g reads %.9g", where, lo, x); return false; }
  }
  return true;
}
// same data seen through image-mode copying
static bool imagecopy(int iun, int seed, int w, size_t room) {
  int a, b, c; int h = c_fstinf(iun, &a, &b, &c, -1, " ", seed, -1, -1, " ", "TT"); Meta m; if (h < 0) return true; prm(h, m);
  vector<unsigned> img(room / 4 + 400, 0);
  c_fstopl("IMAGE", 1, 0); int r = c_fstluk(img.data(), h, &a, &b, &c); c_fstopl("IMAGE", 0, 0);
  if (r < 0) { fail("reading in image mode gives %d", r); return false; }
  unlink(G); int out = opn(G, "STD+RND", "RND"); if (out < 0) { fail("open of the copy: %d", out); return false; }
  bool ok = putguard(out, seed, 0);
  c_fstopl("IMAGE", 1, 0);
  r = c_fstecr(img.data(), nullptr, -m.nbits, out, DATE, 0, 0, a, b, c, m.ip1, m.ip2, m.ip3, m.typvar.c_str(), m.nomvar.c_str(), m.etiket.c_str(), m.grtyp.c_str(), m.ig1, m.ig2, m.ig3, m.ig4, m.datyp, 0);
  c_fstopl("IMAGE", 0, 0);
  ok = ok && r >= 0 && putguard(out, seed, 1);
  if (cls(out) < 0 || !ok) { fail("writing in image mode gives %d", r); return false; }
  out = opn(G, "STD+RND", "RND+R/O"); if (out < 0) { fail("reopening the copy: %d", out); return false; }
  // both must decode to the same bits
  vector<unsigned char> x(room + 64, 0x11), y(room + 64, 0x11);
  if (w != 4) c_fst_data_length(w);
  r = c_fstluk(x.data(), h, &a, &b, &c);
  int h2 = c_fstinf(out, &a, &b, &c, -1, " ", seed, -1, -1, " ", "TT");
  if (w != 4) c_fst_data_length(w);
  int r2 = c_fstluk(y.data(), h2, &a, &b, &c); eval();
  ok = true; if (r2 < 0 || x != y) { fail("the copy made in image mode does not decode to the same field (rc %d)", r2); ok = false; }
  ok = ok && guard(out, seed, "image copy"); cls(out); unlink(G);
  return ok;
}
static void mkreal(Fld &f, Shape s, int pat, Rng r, int w) {
  f.n = s.ni * s.nj * s.nk; f.v.resize(f.n); f.miss.assign(f.n, 0); int x = 0;
  for (int k = 0; k < s.nk; k++) for (int j = 0; j < s.nj; j++) for (int i = 0; i < s.ni; i++, x++) { double u = unit(pat, i, j, k, f.n, x); double q = r.lo + (r.hi - r.lo) * u; if (pat == 12) { unsigned h = hash(&x, 4) >> 16; q = ldexp(h & 1 && r.lo < 0 ? -1 : 1, r.hi > 1e20 ? (int)(h >> 1) % 80 : (int)(h >> 1) % 20); } f.v[x] = w == 8 ? q : (double)(float)q; }
}
static void mkint(Fld &f, Shape s, int pat, double lo, double hi) {
  f.n = s.ni * s.nj * s.nk; f.v.resize(f.n); f.miss.assign(f.n, 0); int x = 0;
  for (int k = 0; k < s.nk; k++) for (int j = 0; j < s.nj; j++) for (int i = 0; i < s.ni; i++, x++) f.v[x] = std::min(hi, floor(lo + (hi - lo) * unit(pat, i, j, k, f.n, x) + 0.5));
}
static vector<Shape> shapes() {
  vector<Shape> v = {{1, 1, 1}, {2, 1, 1}, {1, 3, 1}, {2, 2, 1}, {3, 2, 1}, {5, 4, 1}, {7, 3, 2}, {16, 16, 1}, {17, 16, 1}, {20, 19, 1}, {17, 17, 3}, {33, 2, 1}, {31, 17, 1}, {16, 16, 2}, {3, 5, 2}, {100, 100, 1}};
  if (thorough) for (Shape s : vector<Shape>{{4, 1, 5}, {6, 6, 1}, {11, 11, 1}, {15, 40, 1}, {16, 15, 1}, {40, 16, 1}, {50, 47, 1}, {18, 22, 1}, {19, 16, 1}, {21, 21, 2}, {100, 3, 1}}) v.push_back(s);
  return v;
}
struct Job { int datyp, nb, w; };
struct Rec { Shape s; Fld f; string what; };
static bool part(const Job &J, bool miss, const string &base, const Rec *recs, int nrec);
static void one(const Job &J, bool miss) {
  int b = J.datyp & 15, w = width_of(J.w, J.datyp, J.nb); vector<Rec> recs; vector<Shape> sh = shapes();
  auto add = [&](Shape s, const Fld &f, const string &what) { recs.push_back({s, f, fmt("%dx%dx%d %s", s.ni, s.nj, s.nk, what.c_str())}); };
  for (Shape s : sh) {
    int n = s.ni * s.nj * s.nk;
    if (b == 0) { for (int k = 0; k < 3; k++) { Fld f; f.n = n; f.v.assign(n, 0); f.miss.assign(n, 0); f.raw.resize(((size_t)n * J.nb + 31) / 32 * 4); for (size_t i = 0; i < f.raw.size(); i++) f.raw[i] = k == 0 ? 0xff : k == 1 ? i * 37 + 11 : 0; add(s, f, "raw"); } continue; }
    if (b == 3 || b == 7) { for (int k = 0; k < 3; k++) { Fld f; f.n = n; f.v.assign(n, 0); f.miss.assign(n, 0); f.raw.resize(n); for (int i = 0; i < n; i++) f.raw[i] = k == 0 ? ' ' + i % 95 : k == 1 ? 255 - i % 256 : 'A' + (i * i) % 26; add(s, f, "text"); } continue; }
    if (b == 8) { for (int p : {1, 3, 6}) for (auto &r : {RR[1], RR[4]}) { Fld f; f.n = n; f.v.assign(n, 0); f.miss.assign(n, 0); f.raw.resize((size_t)n * 2 * (J.nb == 64 ? 8 : 4)); for (int i = 0; i < 2 * n; i++) { double q = r.lo + (r.hi - r.lo) * unit(p, i, i / 3, 0, 2 * n, i); float g = q; if (J.nb == 64) memcpy(&f.raw[i * 8], &q, 8); else memcpy(&f.raw[i * 4], &g, 4); } add(s, f, "complex"); } continue; }
    for (int p = 0; p < NPAT; p++) {
      if (isreal(b)) { int k = 0; for (auto &r : RR) { k++; if (miss && k > 6 && k != 8) continue; if (n > 300 && !thorough && (k + p) % 3) continue; Fld f; mkreal(f, s, p, r, w); store(f, J.datyp, w); add(s, f, fmt("pattern %d in [%g,%g]", p, r.lo, r.hi)); } }
      else {
        double M = pow(2, J.nb) - 1, lo = 0, hi = M; if (b == 4) lo = -pow(2, J.nb - 1), hi = pow(2, J.nb - 1) - 1;
        if (w == 1) { if (b == 4) lo = std::max(lo, -128.), hi = std::min(hi, 127.); else hi = std::min(hi, 255.); } if (w == 2) { if (b == 4) lo = std::max(lo, -32768.), hi = std::min(hi, 32767.); else hi = std::min(hi, 65535.); }
        if (miss) { hi -= 2; if (b == 4) lo += 1; if (hi < lo) continue; }
        for (int q = 0; q < 3; q++) { double a = q == 1 ? floor(lo / 2) : lo, c = q == 0 ? hi : q == 1 ? std::min(hi, floor(lo / 2) + 3) : lo + floor((hi - lo) * 0.9); if (q && (n > 300 && !thorough) && (p + q) % 2) continue; Fld f; mkint(f, s, p, a, c); store(f, J.datyp, w); add(s, f, fmt("pattern %d in [%.0f,%.0f]", p, a, c)); }
      }
    }
  }
  // all fields of four points over four values
  if (isreal(b) || isint(b)) for (int c = 0; c < 256; c++) {
    Fld f; f.n = 4; f.v.resize(4); f.miss.assign(4, 0); double q[4] = {0, 1, 2, 3};
    if (isreal(b)) { q[0] = -2.5; q[1] = 0; q[2] = 1.0 / 3; q[3] = 7; } else { double hi = pow(2, b == 4 ? J.nb - 1 : J.nb) - 1; hi = std::min(hi, w == 1 ? b == 4 ? 127. : 255. : w == 2 ? b == 4 ? 32767. : 65535. : hi); if (miss) hi = std::max(0., hi - 2); q[0] = b == 4 ? (miss ? -hi : -hi - 1) : 0; q[1] = std::min(1., hi); q[2] = floor(hi / 2); q[3] = hi; }
    for (int i = 0; i < 4; i++) { f.v[i] = q[c >> (2 * i) & 3]; if (isreal(b) && w != 8) f.v[i] = (float)f.v[i]; } store(f, J.datyp, w); add(c & 1 ? Shape{2, 2, 1} : Shape{4, 1, 1}, f, fmt("values #%d", c));
  }
  if (miss) { // all subsets of missing points on four-point fields, chosen ones on the others
    vector<Rec> r2;
    for (auto &r : recs) {
      int n = r.f.n;
      int ns = n == 4 ? 16 : 6;
      static int rot = 0; 
      for (int m = 0; m < ns; m++) {
        if (n == 4 && r.what.find("values") != string::npos && !thorough && (m + rot++) % 4) continue;
        if (n > 4 && !thorough && (m + rot++) % 3) continue;
        Rec x = r; for (int i = 0; i < n; i++) x.f.miss[i] = n == 4 ? m >> i & 1 : m == 0 ? 0 : m == 1 ? i == 0 : m == 2 ? i == n - 1 : m == 3 ? 1 : m == 4 ? i % 3 == 1 : (i == n / 2 || i == 1);
        for (int i = 0; i < n; i++) if (x.f.miss[i]) x.f.v[i] = missval(J.datyp, w);
        store(x.f, J.datyp, w); x.what += fmt(" missing set %d", m); r2.push_back(x);
      }
    }
    recs.swap(r2);
  }
  string base = fmt("datyp %d%s, %d bits, %d byte elements", J.datyp, miss ? "+64" : "", J.nb, J.w);
  for (size_t i = 0; i < recs.size(); i += 80) if (!part(J, miss, base, &recs[i], std::min<size_t>(80, recs.size() - i))) break;
  outcome(fmt("datyp %d", J.datyp)); count("records", recs.size()); sample("%s: %zu records", base.c_str(), recs.size());
}
static bool part(const Job &J, bool miss, const string &base, const Rec *recs, int nrec) {
  int b = J.datyp & 15, w = width_of(J.w, J.datyp, J.nb), seed = 0;
  unlink(F); int iun = opn(F, "STD+RND", "RND"); if (iun < 0) { fail("open %d", iun); return false; }
  for (int x = 0; x < nrec; x++) {
    const Rec &r = recs[x]; seed++; describe(base + ", " + r.what);
    putguard(iun, seed, 0); vector<unsigned char> in = r.f.raw; in.resize(in.size() + (b == 3 ? 3 : 0), 0x20); vector<unsigned char> in0 = in;
    int rc = wr(iun, in.data(), J.nb, r.s, seed, J.datyp | (miss ? 64 : 0), "TT", J.w); trans();
    if (rc < 0) { fail("writing gives %d", rc); cls(iun); return false; }
    if (in != in0) { fail("the field given to be written is changed"); cls(iun); return false; }
    putguard(iun, seed, 1);
    state(hash(r.f.raw.data(), r.f.raw.size(), J.datyp * 1000 + J.nb * 8 + J.w));
    if (seed % 16 == 1 || r.s.nk > 1) { if (!compare(iun, seed, J.datyp, J.nb, w, r.s, r.f, miss, "in the same session")) { cls(iun); return false; } }
  }
  if (cls(iun) < 0) { fail("close"); return false; }
  iun = opn(F, "STD+RND", "RND+R/O"); if (iun < 0) { fail("reopen %d", iun); return false; }
  seed = 0; bool ok = true;
  for (int x = 0; ok && x < nrec; x++) {
    const Rec &r = recs[x]; seed++; describe(base + ", " + r.what);
    ok = compare(iun, seed, J.datyp, J.nb, w, r.s, r.f, miss, "after reopening") && guard(iun, seed, "after reopening");
    if (ok && !miss && J.w == 4 && (seed % 5 == 0 || r.s.nk > 1 || thorough)) ok = imagecopy(iun, seed, J.w, (size_t)r.f.n * 16 + 64);
  }
  cls(iun); unlink(F); return ok;
}
int main(int argc, char **argv) {
  init(argc, argv);
  c_fstopc("MSGLVL", "FATAL", 0);
  vector<Job> jobs;
  for (int nb = 1; nb <= 64; nb++) if (nb <= 33 || nb == 64 || nb % 8 == 0) jobs.push_back({0, nb, 4});
  for (int c : {0, 128}) {
    for (int nb = 1; nb <= 32; nb++) { jobs.push_back({1 + c, nb, 4}); if (nb <= 30) jobs.push_back({1 + c, nb, 8}); }
    for (int nb = 1; nb <= 32; nb++) { jobs.push_back({2 + c, nb, 4}); if (nb <= 16) jobs.push_back({2 + c, nb, 2}); if (nb <= 8) jobs.push_back({2 + c, nb, 1}); }
    for (int nb = 1; nb <= 32; nb++) jobs.push_back({6 + c, nb, 4});
    for (int nb = 2; nb <= 32; nb++) { jobs.push_back({4 + c, nb, 4}); if (nb <= 16) jobs.push_back({4 + c, nb, 2}); if (nb <= 8) jobs.push_back({4 + c, nb, 1}); }
    for (int nb : {8, 1, 4, 16, 32}) { jobs.push_back({3 + c, nb, 4}); jobs.push_back({7 + c, nb, 4}); } jobs.push_back({7 + c, 8, 1});
    for (int nb = c ? 2 : 10; nb <= 32; nb++) jobs.push_back({5 + c, nb, 4});
    jobs.push_back({5 + c, 64, 4}); jobs.push_back({5 + c, 64, 8});
    for (int nb : {16, 24, 32, 64}) jobs.push_back({8 + c, nb, 4});
  }
  for (auto &J : jobs) for (int miss = 0; miss < 2; miss++) {
    int b = J.datyp & 15; if (miss && (b == 0 || b == 3 || b == 7 || b == 8)) continue;
    if (miss && b == 5 && J.nb != 32 && J.nb != 64) continue;
    if (miss && J.nb < 2 && isint(b)) continue;
    if (!begin("datyp %d%s, %d bits, %d byte elements", J.datyp, miss ? "+64" : "", J.nb, J.w)) continue;
    isolated([&] { ForceMissingValueUsage(miss); one(J, miss); });
    if (too_many()) break;
  }
  return done();
}
