// Level/time codes: every 28-bit code is decoded and re-encoded; a grid of float
// values per kind is encoded; triplets over small level/time sets in all combinations.
#include "vh.h"
using namespace vh;
extern "C" {
void convip_plus_(int *, float *, int *, int *, char *, int *, size_t);
void convip_(int *, float *, int *, int *, char *, int *, size_t);
void ConvertIp(int *, float *, int *, int);
typedef struct { float lo, hi; int kind; } FIP;
int EncodeIp(int *, int *, int *, FIP *, FIP *, FIP *); int DecodeIp(FIP *, FIP *, FIP *, int, int, int);
int EncodeIp_v(int *, FIP *); int DecodeIp_v(FIP *, int *);
int ConvertPKtoIP(int *, int *, int *, float, int, float, int, float, int);
int ConvertIPtoPK(float *, int *, float *, int *, float *, int *, int, int, int);
int ConvertPKtoIP_v(int *, float *, int *); int ConvertIPtoPK_v(float *, int *, int *);
int c_ip1_all(float, int); int c_ip2_all(float, int); int c_ip3_all(float, int);
void c_fstreset_ip_flags(void);
int c_ip1_val(float, int); int c_ip2_val(float, int); int c_ip3_val(float, int);
}
static int MD = -1, F0 = 0;
struct Dec { int kind; float p; };
static bool valid(int k) { return (k >= 0 && k <= 7) || k == 10 || k == 15 || k == 17 || k == 21 || k == 31; }
static float lo(int k) { switch (k) { case 0: case 4: return -20000; case 1: case 2: case 5: case 7: case 10: case 21: return 0; case 6: case 17: return 1; } return -4.8e8f; }
static float hi(int k) { switch (k) { case 0: case 4: return 100000; case 1: case 5: return 1; case 2: return 1100; case 6: return 200000; case 7: return 20000; case 21: return 1000000; } return 1e10f; }
static double fact(int k) { return k == 17 ? -1.0 : k == 21 ? 1e4 : 1.0; }
static Dec ref_new(int ip) { // documented layout: kind | decimal exponent | mantissa
  int k = ip >> 24 & 15, e = ip >> 20 & 15, m = ip & 0xfffff;
  Dec d = {-1, -999999.f};
  if (k == 15) { int v = ip & 0xffffff; if (v <= 2000000) { d.kind = 15; d.p = v; } return d; }
  if (!valid(k)) return d;
  if (m > 1000000) m = -(m - 1000000);
  for (; k < 32; k += 16) {
    if (!valid(k)) return d;
    float p = (float)(m * pow(10.0, 4 - e) ); p = (float)(p / (float)fact(k));
    if (p < lo(k) || p > hi(k)) continue;
    if (k == 6 || k == 17) { if (fabsf(p) < 1.001f) p = 1; }
    if (k == 21 && fabsf(p) < 1.001f * 1.001e-4f) p = 0;
    d.kind = k; d.p = p; return d;
  }
  return d;
}
static Dec ref_old(int ip) {
  if (ip > 12000 && ip <= 32000) return {0, 5.f * (ip - 12001)};
  if (ip >= 2000 && ip <= 12000) return {1, (float)((ip - 2000) / 10000.0)};
  if (ip < 1100) return {2, (float)ip};
  if (ip <= 1200) return {3, 1200.f - ip};
  if (ip < 1400) return {2, (float)((ip - 1200) / 20000.0)};
  if (ip < 1600) return {2, (float)((ip - 1400) / 2000.0)};
  if (ip < 1800) return {2, (float)((ip - 1600) / 200.0)};
  if (ip < 2000) return {2, (float)((ip - 1800) / 20.0)};
  return {3, (float)ip};
}
static bool near(double a, double b, double rel) { return a == b || fabs(a - b) <= rel * std::max(fabs(a), fabs(b)); }
static Dec dec(int ip) { Dec d = {-7, -7}; char s[2] = " "; convip_plus_(&ip, &d.p, &d.kind, &MD, s, &F0, 1); return d; }
static int enc(float p, int k, int mode) { int ip = -7; char s[2] = " "; convip_plus_(&ip, &p, &k, &mode, s, &F0, 1); return ip; }
static Dec decf(int ip) { Dec d = {-7, -7}; char s[2] = " "; convip_(&ip, &d.p, &d.kind, &MD, s, &F0, 1); return d; }
static int encf(float p, int k, int mode) { int ip = -7; char s[2] = " "; convip_(&ip, &p, &k, &mode, s, &F0, 1); return ip; }
static bool oldcode_valid_f(int k) { return (k >= 0 && k <= 6) || k == 10 || k == 17 || k == 21; } // kinds of the older routine
static const int KINDS[] = {0, 1, 2, 3, 4, 5, 6, 7, 10, 15, 17, 21};

static void one_new(int ip) {
  Dec r = ref_new(ip), d = dec(ip);
  eval();
  if (d.kind != r.kind || !near(d.p, r.p, 2e-7)) { fail("code %d decodes to (%.9g, kind %d), documented value is (%.9g, kind %d)", ip, d.p, d.kind, r.p, r.kind); return; }
  { int nk = ip >> 24 & 15; if (!oldcode_valid_f(nk)) { Dec f = decf(ip); if (f.kind != -1 || f.p != -999999.f) { fail("code %d of a kind unknown to the older decoder gives (%g,%d)", ip, f.p, f.kind); return; } } }
  if (d.kind < 0) return;
  int ip2 = enc(d.p, d.kind, 2);
  if (d.kind == 17 && d.p > 4.8e8) { if (ip2 >= 0) fail("value %g of kind 17 cannot be coded but got %d", d.p, ip2); return; }
  Dec d2 = dec(ip2);
  if (d2.kind != d.kind || !near(d2.p, d.p, 2.5e-7)) {
    // the smallest magnitudes cannot be coded on 6 digits; they come back within the resolution
    // codes whose normalised form would need a decimal exponent outside 0..15 are coded with fewer digits
    double res = 0.502e-11 / fabs(fact(d.kind));
    int mm = ip & 0xfffff; bool nrm = (mm >= 100000 && mm < 1000000) || (mm >= 1004800 && mm < 1048000);
    if (!nrm && d.kind != 15) res = std::max(res, fabs((double)d.p) * (d.p < 0 || d.kind == 17 ? 0.502 / 4800 : 0.502 / 100000));
    if (d2.kind != d.kind || fabs((double)d2.p - d.p) > res) fail("code %d = (%.9g, kind %d) re-encodes to %d = (%.9g, kind %d)", ip, d.p, d.kind, ip2, d2.p, d2.kind);
  }
  int m = ip & 0xfffff; bool norm = (m >= 100000 && m < 1000000) || (m >= 1004800 && m < 1048000);
  if (norm && d.p != 0 && d.kind != 15 && d.kind != 6 && d.kind != 17 && ip2 != ip && (ip2 & 0xfffff) != 1000000 && (ip2 & 0xfffff) != 1048000) fail("normalised code %d decodes to (%.9g, kind %d) which encodes to %d", ip, d.p, d.kind, ip2);
  if (d.kind != 15 && d.kind != 7 && oldcode_valid_f(ip >> 24 & 15)) { // the older routine agrees where both define the code
    Dec f = decf(ip); if (f.kind != d.kind || !near(f.p, d.p, 2e-7)) fail("the two decoders disagree on %d: (%.9g,%d) and (%.9g,%d)", ip, d.p, d.kind, f.p, f.kind);
    if (ip2 > 0) { int fi = encf(d.p, d.kind, 2); if (fi != ip2) { Dec f2 = dec(fi); if (f2.kind != d.kind || !near(f2.p, d.p, 1e-5)) fail("the two encoders disagree on (%.9g,%d): %d %d", d.p, d.kind, ip2, fi); } }
  }
}
// ---- triplets -------------------------------------------------------------
static const int ERR = 64, WARN = 32;
static bool is_level(int k) { return (k >= 0 && k <= 7) || k == 21; }
static int order(int k) { return k == 0 || k == 4 || k == 21 ? 1 : k == 1 || k == 2 || k == 7 ? -1 : 0; }
static bool badkind(int k) { return k < 0 || (k > 31 && (k & 15) != 15); }
static std::string s3(int a, int b, int c) { return fmt("%d,%d,%d", a, b, c); }
struct PK { float p; int k; };
int main(int argc, char **argv) {
  init(argc, argv);
  { int m; float p = 0; int k = 2, ip = 0; (void)m; }
  for (int k = 0; k < 16; k++) for (int e = 0; e < 16; e++) for (int c = 0; c < 16; c++) {
    int base = k << 24 | e << 20 | c << 16;
    if (!begin("new style codes %d..%d", base, base + 65535)) continue;
    int step = 1;
    std::map<int, long> kc;
    for (int i = 0; i < 65536; i += step) { int ip = base + i; if (ip > 32767) { one_new(ip); } }
    outcome(fmt("kind %d", ref_new(base + 1).kind)); state(hash(&base, 4)); trans(65536);
    sample("codes %d.. e.g. %d -> (%g, %d)", base, base + 7, dec(base + 7).p, dec(base + 7).kind);
  }
  for (int c = 0; c < 32; c++) {
    if (!begin("old style codes %d..%d", c * 1024, c * 1024 + 1023)) continue;
    for (int ip = c * 1024; ip < c * 1024 + 1024; ip++) {
      Dec r = ref_old(ip), d = dec(ip), f = decf(ip); eval();
      if (d.kind != r.kind || !near(d.p, r.p, 2e-7)) fail("old code %d -> (%.9g,%d) expected (%.9g,%d)", ip, d.p, d.kind, r.p, r.kind);
      if (f.kind != d.kind || !near(f.p, d.p, 2e-7)) fail("old code %d: decoders disagree", ip);
      if (ip > 1200 && ip < 2000) { // small pressures: several codes for the same value
        int i2 = enc(d.p, d.kind, 3), i3 = encf(d.p, d.kind, 3); double res = 0.5 / 20000 * (ip >= 1800 ? 1000 : ip >= 1600 ? 100 : ip >= 1400 ? 10 : 1);
        Dec d2 = dec(i2); if (d.p < 0.999999e-3) { if (i2 != 0) fail("pressure %g below the old range is coded %d", d.p, i2); }
        else if (d2.kind != 2 || fabs(d2.p - d.p) > (d.p >= 9.99999 ? 0.5 : res * 1.01)) fail("old code %d = %.9g mb re-encodes to %d = %.9g (kind %d)", ip, d.p, i2, d2.p, d2.kind);
        if (i2 != i3) fail("old encoders disagree on %g mb: %d %d", d.p, i2, i3);
      } else if (d.kind <= 2 && ip <= 32000 && !(d.kind == 2 && ip < 10 && ip > 0)) {
        int i2 = enc(d.p, d.kind, 3), i3 = encf(d.p, d.kind, 3); if (i2 != ip || i3 != ip) fail("old code %d = (%.9g, %d) re-encodes to %d / %d", ip, d.p, d.kind, i2, i3);
      } else if (d.kind == 2) { int i2 = enc(d.p, 2, 3); Dec d2 = dec(i2); if (d2.kind != 2 || d2.p != d.p) fail("old code %d = %g mb re-encodes to %d = %g", ip, d.p, i2, d2.p); }
      else if (ip <= 1200) { int i2 = enc(d.p, 3, 3); if (i2 != ip) fail("old arbitrary code %d re-encodes to %d", ip, i2); }
      // an old style code and the new style code of the same level are equivalent
      if (d.kind <= 3 && d.p <= hi(d.kind) && d.p >= lo(d.kind)) { Dec n = dec(enc(d.p, d.kind, 2)); if (n.kind != d.kind || !near(n.p, d.p, 6e-6)) fail("old code %d: new style equivalent is (%g,%d), not (%g,%d)", ip, n.p, n.kind, d.p, d.kind); }
      state(fmt("o%d", ip));
    }
    outcome("old style");
  }
  // a dense grid of float values for each kind
  int bits = thorough ? 13 : 9;
  for (int k : KINDS) for (int sign = 0; sign < 2; sign++) for (int ex = -40; ex <= 34; ex++) {
    if (k == 15) continue;
    if (!begin("values of kind %d, sign %d, binary exponent %d, all %d-bit significands", k, sign, ex, bits)) continue;
    float last = 0, lastdec = 0; bool have = false;
    for (int m = 0; m < (1 << bits); m++) for (int j = -1; j <= 1; j++) {
      float p = ldexpf(1.0f + (float)m / (1 << bits), ex); if (sign) p = -p;
      if (j) p = nextafterf(p, j > 0 ? 1e30f : -1e30f);
      int ip = enc(p, k, 2); eval();
      if (p < lo(k) || p > hi(k)) { if (ip != -999999) fail("value %.9g outside of the range of kind %d is coded %d", p, k, ip); outcome("rejected"); continue; }
      if (k == 17 && p > 4.8e8) { if (ip >= 0) fail("value %g of kind 17 cannot be coded but got %d", p, ip); continue; }
      Dec d = dec(ip);
      double rel = p >= 0 ? 0.502 / 100000 : 0.502 / 4800, res = 0.502e-11 / fabs(fact(k));
      double exp = p; if ((k == 21) && p < 1.001 * 1.001e-4) exp = 0; if ((k == 6 || k == 17) && p < 1.001) exp = 1;
      if (k == 17) rel = 0.502 / 4800;
      if (k == 21 && fabs(d.p - p) <= 1.1e-4 && p < 2.1e-4) exp = d.p;
      if (k == 2 && p == 0) { if (ip != 0) fail("0 mb is not coded 0"); continue; }
      if (k == 6 || k == 17) if (fabs(d.p - p) <= 1.1e-3 && p < 1.002) exp = d.p;
      if (k == 5 || k == 1) if (d.p == 1 && p > 0.999995) exp = 1;
      if (d.kind != k || fabs(d.p - exp) > std::max(rel * fabs(p), res) * 1.0001) fail("value %.9g of kind %d is coded %d which decodes to (%.9g, kind %d)", p, k, ip, d.p, d.kind);
      { int ic; float pc = p; int kc = k; ConvertIp(&ic, &pc, &kc, 2); if (ic != ip) fail("the C interface codes %.9g kind %d as %d, not %d", p, k, ic, ip); pc = -1; kc = -1; int iq = ip; ConvertIp(&iq, &pc, &kc, -1); if (pc != d.p || kc != d.kind || iq != ip) fail("the C interface decodes %d as (%.9g,%d)", ip, pc, kc); }
      c_fstreset_ip_flags();
      if (c_ip1_all(p, k) != ip || c_ip2_all(p, k) != ip || c_ip3_all(p, k) != ip) fail("level helper codes %.9g kind %d as %d/%d/%d, not %d", p, k, c_ip1_all(p, k), c_ip2_all(p, k), c_ip3_all(p, k), ip);
      if (c_ip1_val(p, k) != ip || c_ip2_val(p, k) != ip || c_ip3_val(p, k) != ip) fail("value helper codes %.9g kind %d differently", p, k);
      if (have && j == 0) { if ((p > last) == (d.p < lastdec) && d.p != lastdec) fail("order lost between %.9g and %.9g (kind %d)", last, p, k); }
      if (j == 0) { last = p; lastdec = d.p; have = true; }
      { // formatted value
        char s[16]; memset(s, 'x', 16); int one = 1; float q; int kq, iq = ip; convip_plus_(&iq, &q, &kq, &MD, s, &one, 15); std::string t(s, 15);
        double back = atof(t.c_str());
        if (fabs(d.p) >= 1e-4 && fabs(d.p) < 1e9 && !near(back, d.p, 2e-5) && fabs(back - d.p) > 1.1e-8) fail("value %.9g kind %d is written as '%s'", d.p, d.kind, t.c_str());
        static const char *U[] = {" m", "sg", "mb", "  ", " M", "hy", "th", "m-", "??", "??", " H", "??", "??", "??", "??", "_0", "??", "[]", "??", "??", "??", "mp"};
        std::string u = U[kq]; size_t e = t.find_last_not_of(' '); std::string tt = t.substr(0, e + 1); size_t ub = u.find_first_not_of(' '); if (ub != std::string::npos) { u = u.substr(ub); if (tt.size() < u.size() || tt.substr(tt.size() - u.size()) != u) fail("unit missing in '%s' (kind %d)", t.c_str(), kq); }
      }
      outcome(fmt("kind %d", k)); trans();
    }
    state(fmt("v%d/%d/%d", k, sign, ex)); sample("kind %d exponent %d", k, ex);
  }
  for (int c = 0; c < 21; c++) {
    if (!begin("integer kind 15, %d..", c * 100000)) continue;
    for (int v = c * 100000; v < c * 100000 + 100000 && v <= 2000000; v++) { int ip = enc(v, 15, 2); Dec d = dec(ip); eval(); if (d.kind != 15 || d.p != (float)v) fail("integer %d is coded %d -> (%g,%d)", v, ip, d.p, d.kind); }
    state(fmt("k15/%d", c)); outcome("kind 15"); trans(100000);
  }
  // the helpers remember the codes for the next search, up to a documented table size; beyond it they refuse
  for (int w = 0; w < 6; w++) {
    if (!begin("level helper %d called 200 times without a search", w)) continue;
    c_fstreset_ip_flags(); int good = 0;
    for (int i = 0; i < 200; i++) { float p = 1 + i; int r = w == 0 ? c_ip1_all(p, 2) : w == 1 ? c_ip2_all(p, 2) : w == 2 ? c_ip3_all(p, 2) : w == 3 ? c_ip1_val(p, 2) : w == 4 ? c_ip2_val(p, 2) : c_ip3_val(p, 2); eval();
      if (r != -1 && r != enc(p, 2, 2)) fail("call %d returns %d", i, r); if (r != -1) good++; }
    if (good < 20) fail("only %d codes accepted", good);
    // the other helpers are not affected
    c_fstreset_ip_flags(); for (int q = 0; q < 3; q++) { int r = q == 0 ? c_ip1_all(7, 2) : q == 1 ? c_ip2_all(7, 2) : c_ip3_all(7, 2); if (r != enc(7, 2, 2)) fail("helper unusable after a reset"); }
    c_fstreset_ip_flags(); outcome("table full"); state(fmt("full%d", w));
  }
  // ---- triplets
  std::vector<PK> LV, TM, ANY;
  for (int k : {0, 1, 2, 3, 4, 5, 6, 7, 21}) { float a[4] = {10, 20, 500, 1000}; if (k == 1 || k == 5) { a[0] = 0; a[1] = 0.1f; a[2] = .5f; a[3] = 1; } if (k == 21) { a[0] = 2; a[1] = 20; } if (k == 0) a[0] = -10; for (float x : a) LV.push_back({x, k}); }
  for (float x : {0.f, 1.f, 6.f, 16.f, 240.5f}) TM.push_back({x, 10});
  for (size_t a = 0; a < LV.size(); a++) for (size_t b = 0; b < LV.size(); b++) {
    if (LV[a].k != LV[b].k) continue;
    if (!begin("triplets of level %g..%g kind %d with every time range and third value", LV[a].p, LV[b].p, LV[a].k)) continue;
    for (auto &t : TM) for (auto &u : TM) for (int third = 0; third < 5; third++) {
      FIP r1 = {LV[a].p, LV[b].p, LV[a].k}, r2 = {t.p, u.p, 10}, r3 = {3, 3, third == 0 ? 3 : third == 1 ? 17 : third == 2 ? -1 : third == 3 ? 15 : 10};
      bool lr = r1.lo != r1.hi, tr = r2.lo != r2.hi;
      int i1 = 0, i2 = 0, i3 = 0, st = EncodeIp(&i1, &i2, &i3, &r1, &r2, &r3); eval(); trans();
      bool expect_err = (lr && tr) || (!lr && !tr && r3.kind < 0);
      if ((st & ERR) != (expect_err ? ERR : 0)) { fail("encode status %d for level %g..%g time %g..%g third kind %d", st, r1.lo, r1.hi, r2.lo, r2.hi, r3.kind); continue; }
      { int v[3] = {0, 0, 0}; FIP q[3] = {r1, r2, r3}; int sv = EncodeIp_v(v, q); if (sv != st || v[0] != i1 || v[1] != i2 || v[2] != i3) fail("vector encoder differs"); }
      outcome(fmt("encode %s%s st %d", lr ? "L" : "-", tr ? "T" : "-", st));
      if (expect_err) continue;
      FIP d1, d2, d3; memset(&d1, 1, sizeof d1); memset(&d2, 1, sizeof d2); memset(&d3, 1, sizeof d3);
      int ds = DecodeIp(&d1, &d2, &d3, i1, i2, i3);
      { int v[3] = {i1, i2, i3}; FIP q[3]; memset(q, 0, sizeof q); int sv = DecodeIp_v(q, v); if (sv != ds || memcmp(&q[0], &d1, sizeof d1) || memcmp(&q[1], &d2, sizeof d1) || memcmp(&q[2], &d3, sizeof d1)) fail("vector decoder differs"); }
      // a range is coded in atmospheric order for levels, the end before the beginning for times
      if (lr && !(i1 == 0 || i3 == 0)) { int o = order(r1.kind); double a1 = dec(i1).p, a3 = dec(i3).p; if ((o > 0 && a1 > a3) || (o < 0 && a1 < a3)) fail("levels %g..%g kind %d are coded as %g, %g", r1.lo, r1.hi, r1.kind, a1, a3); }
      if (tr && !(dec(i2).p > dec(i3).p)) fail("times %g..%g are coded as %g, %g", r2.lo, r2.hi, dec(i2).p, dec(i3).p);
      // 0 mb is coded 0 (old style zero): reported as a guess
      bool z = i1 == 0 || i3 == 0;
      if (z) continue;
      if (!lr && !tr && r3.kind == r1.kind) continue; // a third value of the level's kind denotes a range
      if (ds & ERR) { fail("decode of an encoded triplet (%s) fails: %d", s3(i1, i2, i3).c_str(), ds); continue; }
      float l = std::min(r1.lo, r1.hi), h = std::max(r1.lo, r1.hi); int o = order(r1.kind);
      float e1 = o > 0 ? l : o < 0 ? h : r1.lo, e2 = o > 0 ? h : o < 0 ? l : r1.hi;
      if (d1.kind != r1.kind || !near(d1.lo, e1, 6e-6) || !near(d1.hi, e2, 6e-6)) fail("level %g..%g kind %d comes back as %g..%g kind %d", r1.lo, r1.hi, r1.kind, d1.lo, d1.hi, d1.kind);
      float t1 = std::min(r2.lo, r2.hi), t2 = std::max(r2.lo, r2.hi);
      if (!lr && !tr && r3.kind == 10) { t1 = std::min(r2.lo, 3.f); t2 = std::max(r2.lo, 3.f); }
      if (d2.kind != 10 || !near(d2.lo, t1, 6e-6) || !near(d2.hi, t2, 6e-6)) fail("time %g..%g comes back as %g..%g kind %d", r2.lo, r2.hi, d2.lo, d2.hi, d2.kind);
      bool used = lr || tr || r3.kind == 10;
      if (!used && !(r3.kind == r1.kind)) { if (d3.kind != r3.kind || !near(d3.lo, r3.lo, 6e-6) || d3.lo != d3.hi) fail("third value %g kind %d comes back as %g..%g kind %d", r3.lo, r3.kind, d3.lo, d3.hi, d3.kind); }
      if (used && d3.kind != -1) fail("third value should be unset, kind %d", d3.kind);
      state(fmt("t%s", s3(i1, i2, i3).c_str()));
    }
  }
  // old style codes in a triplet: level by table, time in hours, third value arbitrary; never an error, flagged as a guess
  for (int q = 0; q < 2; q++) for (int i1 : {1, 500, 850, 1500, 6000, 12501, 126029120, 39945888 }) {
    if (!begin("old style codes in a triplet starting with %d (dirty stack %d)", i1, q)) continue;
    for (int i2 : {0, 12, 240, 177409344}) for (int i3 : {0, 6, 1200, 177309344}) {
      volatile int dirt[4000]; for (int z = 0; z < 4000; z++) dirt[z] = q ? 10 : 0x7fffffff;
      FIP d1, d2, d3; int ds = DecodeIp(&d1, &d2, &d3, i1, i2, i3); eval(); trans();
      Dec e1 = i1 < 32768 ? ref_old(i1) : ref_new(i1); float t = i2 < 32768 ? i2 : ref_new(i2).p;
      if (!is_level(e1.kind)) continue;
      int xs = (i1 < 32768 || i2 < 32768 ? 2 : 0) | (i3 < 32768 ? 8 : 0);
      if (ds != xs) { fail("status %d instead of %d for %d %d %d", ds, xs, i1, i2, i3); continue; }
      float lo2 = t, hi2 = t; if (i3 >= 32768) { float t3 = ref_new(i3).p; lo2 = std::min(t, t3); hi2 = std::max(t, t3); }
      if (d1.kind != e1.kind || !near(d1.lo, e1.p, 2e-7) || d1.hi != d1.lo) fail("level of %d comes back as %g..%g kind %d", i1, d1.lo, d1.hi, d1.kind);
      if (d2.kind != 10 || !near(d2.lo, lo2, 2e-7) || !near(d2.hi, hi2, 2e-7)) fail("time of %d,%d comes back as %g..%g kind %d", i2, i3, d2.lo, d2.hi, d2.kind);
      if (i3 < 32768 && (d3.kind != 3 || d3.lo != i3 || d3.hi != i3)) fail("third code %d comes back as %g..%g kind %d", i3, d3.lo, d3.hi, d3.kind);
      state(fmt("o%s", s3(i1, i2, i3).c_str())); outcome("old triplet");
    }
  }
  // kinds that do not exist, at each of the three places
  if (begin("kinds below 0 and above 31")) for (int k = -40; k < 400; k++) {
    if (k >= 0 && (k < 32 || k % 16 == 15)) continue;
    for (int q = 0; q < 3; q++) { int kk[3] = {2, 10, 3}, i1, i2, i3; kk[q] = k; eval(2); trans(2);
      int st = ConvertPKtoIP(&i1, &i2, &i3, 100, kk[0], 6, kk[1], 5, kk[2]);
      if (st != ERR) fail("kind %d at place %d: ConvertPKtoIP returns %d", k, q + 1, st);
      FIP r1 = {100, 100, kk[0]}, r2 = {6, 6, kk[1]}, r3 = {5, 5, kk[2]}; st = EncodeIp(&i1, &i2, &i3, &r1, &r2, &r3);
      if (!(st & ERR)) fail("kind %d at place %d: EncodeIp returns %d", k, q + 1, st); }
  }
  // values one by one (kind checked) and wrong kinds
  std::vector<PK> P; for (int k : {-1, 0, 1, 2, 3, 4, 5, 6, 7, 10, 15, 17, 21, 32}) { float a = k == 1 || k == 5 ? .25f : 100, b = k == 1 || k == 5 ? .75f : 200; P.push_back({a, k}); P.push_back({b, k}); }
  for (size_t a = 0; a < P.size(); a++) for (size_t b = 0; b < P.size(); b++) {
    if (!begin("independent values (%g,%d) (%g,%d) with every third", P[a].p, P[a].k, P[b].p, P[b].k)) continue;
    for (auto &c : P) {
      int i1, i2, i3, st = ConvertPKtoIP(&i1, &i2, &i3, P[a].p, P[a].k, P[b].p, P[b].k, c.p, c.k); eval(); trans();
      { int v[3]; float pp[3] = {P[a].p, P[b].p, c.p}; int kk[3] = {P[a].k, P[b].k, c.k}; int sv = ConvertPKtoIP_v(v, pp, kk); if (sv != st || v[0] != i1 || v[1] != i2 || v[2] != i3) fail("vector form differs"); }
      bool bad = badkind(P[a].k) || badkind(P[b].k) || badkind(c.k) || !is_level(P[a].k) || !(is_level(P[b].k) || P[b].k == 10);
      int exps = bad ? ERR : is_level(P[b].k) ? WARN : 0;
      outcome(fmt("pk %d", st));
      if (st != exps) { fail("status %d instead of %d for kinds %d %d %d", st, exps, P[a].k, P[b].k, c.k); continue; }
      { FIP r1 = {P[a].p, P[a].p, P[a].k}, r2 = {P[b].p, P[b].p, P[b].k}, r3 = {c.p, c.p, c.k}; int j1, j2, j3; int s2 = EncodeIp(&j1, &j2, &j3, &r1, &r2, &r3); bool e2 = badkind(P[a].k) || badkind(P[b].k) || !is_level(P[a].k) || P[b].k != 10 || badkind(c.k); if (((s2 & ERR) != 0) != e2) fail("kind check: status %d for kinds %d %d %d", s2, P[a].k, P[b].k, c.k); }
      if (bad) continue;
      // expected (value,kind) multiset and placement
      PK e[3] = {P[a], P[b], c};
      if (e[0].k == e[1].k && is_level(e[0].k) && e[2].k == 10) { std::swap(e[1], e[2]); int o = order(e[0].k); if ((o > 0 && e[0].p > e[2].p) || (o < 0 && e[0].p < e[2].p)) std::swap(e[0], e[2]); }
      else if (e[1].k == 10 && e[2].k == 10 && e[1].p < e[2].p) std::swap(e[1], e[2]);
      int ii[3] = {i1, i2, i3}; for (int q = 0; q < 3; q++) { Dec d = dec(ii[q]); if (d.kind != e[q].k || !near(d.p, e[q].p, 6e-6)) { fail("position %d holds (%g,%d), expected (%g,%d)", q + 1, d.p, d.kind, e[q].p, e[q].k); break; } }
      float p1, p2, p3; int k1, k2, k3, ds = ConvertIPtoPK(&p1, &k1, &p2, &k2, &p3, &k3, i1, i2, i3);
      if (ds & ERR) fail("decoding of an encoded triplet fails");
      PK g[3] = {{p1, k1}, {p2, k2}, {p3, k3}};
      PK x[3] = {e[0], e[1], e[2]}; // decoder forces atmospheric order of a level range and decreasing times
      if (x[0].k == x[1].k && x[2].k == 10) std::swap(x[1], x[2]);
      if (x[0].k == x[2].k) { int o = order(x[0].k); if ((o > 0 && x[0].p > x[2].p) || (o < 0 && x[0].p < x[2].p)) std::swap(x[0], x[2]); }
      if (x[1].k == 10 && x[2].k == 10 && x[1].p < x[2].p) std::swap(x[1], x[2]);
      for (int q = 0; q < 3; q++) if (g[q].k != x[q].k || !near(g[q].p, x[q].p, 6e-6)) { fail("decoded position %d is (%g,%d), expected (%g,%d)", q + 1, g[q].p, g[q].k, x[q].p, x[q].k); break; }
      if ((ds & WARN) != (is_level(e[1].k) ? WARN : 0)) fail("decode warning flag %d", ds);
      state(fmt("p%s", s3(i1, i2, i3).c_str()));
    }
  }
  return done();
}
