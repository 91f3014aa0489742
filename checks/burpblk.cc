// B01: BURP report buffers, every sequence of block operations against a list of blocks
#include "vh.h"
#include <rmn/burp.h>
using namespace vh; using std::vector; using std::string;
extern "C" { int c_fnom(int *, const char *, const char *, int); int c_fclos(int); }
static int iun;
struct Blk { int nele, nval, nt, bfam, btyp, nbit, datyp; vector<uint32_t> lst, val; };
struct Hdr { int temps, flgs; string stn; int idtp, lat, lon, dx, dy, elev, drcv, date, oars, runn; };
struct Rep { Hdr h; vector<Blk> b; };
static long words(long bits) { return (bits + 63) / 64 * 2; }
static long bwords(const Blk &b) { bool big = b.nele >= 127 || b.nval >= 256 || b.nt >= 256; long in = big ? b.nele : b.nele > 3 ? b.nele - 3 : 0; return 4 + words(16 * in) + words((long)b.nele * b.nval * b.nt * b.nbit); }
static long used(const Rep &r) { long n = 10; for (auto &b : r.b) n += bwords(b); return n; }
// what becomes of the requested number of bits and datyp; false: refused
static bool fit(int &nbit, int &dt, const vector<uint32_t> &v) { if ((dt == 2 && nbit == 32) || dt == 0) return true; if (dt > 5) { nbit = 32; return true; } if (dt == 3 || dt == 5) return nbit == 8;
  int64_t mx = (int32_t)v[0], mn = mx; for (uint32_t u : v) { mx = std::max(mx, (int64_t)(int32_t)u); mn = std::min(mn, (int64_t)(int32_t)u); } if (mn == -1 && mx == -1) return true;
  if (mn < -1) { mx = std::max(mx, -mn); dt = 4; } int need = 0; while (mx >> need) need++; if (mx == (1LL << need) - 1) need++; // the pattern of all ones is reserved for missing values
  if (dt == 4 && ++need > 31) return false; nbit = std::max(nbit, std::min(need, 32)); return true; }
static bool valid(const Blk &b) { if (b.datyp < 0 || b.datyp == 1 || b.datyp > 9) return false; if ((b.datyp == 7 || b.datyp == 8) && b.nele % 2) return false; if (b.datyp == 9 && b.nele % 4) return false; return true; }
static uint32_t up(uint32_t w) { for (int s = 0; s < 32; s += 8) { int c = w >> s & 255; if (c >= 'a' && c <= 'z') w ^= 32u << s; } return w; }
static size_t nwv(const Blk &b) { return b.datyp == 3 || b.datyp == 5 ? ((long)b.nele * b.nval * b.nt + 3) / 4 : b.datyp == 0 ? ((long)b.nele * b.nval * b.nt * b.nbit + 31) / 32 : (size_t)b.nele * b.nval * b.nt; }
// one guard word follows the buffer: the bit unpacker prefetches (reads, never writes) the word after the last one
struct Buf { vector<uint32_t> w; explicit Buf(long n) { w.assign(n + 1, 0); w.shrink_to_fit(); w[0] = n; w[n] = 0x5AFE5AFE; } uint32_t *p() { return w.data(); } long size() const { return w.size() - 1; } bool guard() const { return w.back() == 0x5AFE5AFE; } };
static bool audit(Buf &B, const Rep &r, const char *w) {
  eval(); if (!B.guard()) { fail("%s: the word after the buffer was overwritten", w); return false; } int l, left; c_mrblen(B.p(), &l, &left); long u = used(r); if (l != u * 32 || left != (B.size() - 9 - u) * 32) { fail("%s: mrblen says %d bits used, %d left; should be %ld, %ld", w, l, left, u * 32, (B.size() - 9 - u) * 32); return false; }
  Hdr h; int nb; char s[12] = "###########"; c_mrbhdr(B.p(), &h.temps, &h.flgs, s, &h.idtp, &h.lat, &h.lon, &h.dx, &h.dy, &h.elev, &h.drcv, &h.date, &h.oars, &h.runn, &nb, nullptr, 0, nullptr, 0); h.stn = string(s, 9);
  const Hdr &e = r.h; if (h.temps != e.temps || h.flgs != e.flgs || h.stn != e.stn || h.idtp != e.idtp || h.lat != e.lat || h.lon != e.lon || h.dx != e.dx || h.dy != e.dy || h.elev != e.elev || h.drcv != e.drcv || h.date != e.date || h.oars != e.oars || h.runn != e.runn) { fail("%s: header is '%s' %d %x %d %d %d %d %d %d %d %d %d %d, should be '%s' %d %x %d %d %d %d %d %d %d %d %d %d", w, h.stn.c_str(), h.temps, h.flgs, h.idtp, h.lat, h.lon, h.dx, h.dy, h.elev, h.drcv, h.date, h.oars, h.runn, e.stn.c_str(), e.temps, e.flgs, e.idtp, e.lat, e.lon, e.dx, e.dy, e.elev, e.drcv, e.date, e.oars, e.runn); return false; }
  if (nb != (int)r.b.size()) { fail("%s: %d blocks, should be %zu", w, nb, r.b.size()); return false; }
  vector<int> tbl(10 * (nb + 1), -7); int rc = c_mrbprml((int *)B.p(), 0, tbl.data(), 10, nb + 1); if (rc != nb) { fail("%s: mrbprml says %d blocks of %d", w, rc, nb); return false; }
  long pos = 0;
  for (int i = 0; i < nb; i++) { const Blk &b = r.b[i]; int p[9]; eval(); if (c_mrbprm(B.p(), i + 1, p, p + 1, p + 2, p + 3, p + 4, p + 5, p + 6, p + 7, p + 8)) { fail("%s: mrbprm refused", w); return false; }
    int want[9] = {b.nele, b.nval, b.nt, b.bfam, 0, b.btyp, b.nbit, (int)pos, b.datyp}; static const char *N[] = {"nele", "nval", "nt", "bfam", "bdesc", "btyp", "nbit", "bit0", "datyp"};
    for (int k = 0; k < 9; k++) { if (p[k] != want[k]) { fail("%s: block %d: %s is %d, should be %d", w, i + 1, N[k], p[k], want[k]); return false; } if (tbl[10 * i + 1 + k] != want[k]) { fail("%s: block %d: mrbprml gives %s %d, should be %d", w, i + 1, N[k], tbl[10 * i + 1 + k], want[k]); return false; } }
    if (tbl[10 * i] != i + 1) { fail("%s: mrbprml numbers block %d %d", w, i + 1, tbl[10 * i]); return false; }
    vector<uint32_t> L(b.lst.size(), 0xdead), V(b.val.size(), 0x12345678); if ((rc = c_mrbxtr(B.p(), i + 1, L.data(), V.data()))) { fail("%s: mrbxtr of block %d returns %d", w, i + 1, rc); return false; }
    for (size_t k = 0; k < L.size(); k++) if (L[k] != b.lst[k]) { fail("%s: block %d element %zu is %u, should be %u", w, i + 1, k, L[k], b.lst[k]); return false; }
    for (size_t k = 0; k < V.size(); k++) if (V[k] != b.val[k]) { fail("%s: block %d value %zu is %d, should be %d (nbit %d datyp %d)", w, i + 1, k, (int)V[k], (int)b.val[k], b.nbit, b.datyp); return false; }
    pos += (bwords(b) - 4) / 2; }
  for (int k = nb * 10; k < (int)tbl.size(); k++) if (tbl[k] != -7) { fail("%s: mrbprml wrote past the last block", w); return false; }
  return true; }
static bool locate(Buf &B, const Rep &r) { int nb = r.b.size();
  vector<int> fams = {-1, 1, 0x43, 0xfff, 0xfc0}, typs = {-1, 0x7fff, 106, 0, 106 | 0x10000000, 0x20000000 | 106, 0x40000000 | 106, 0x30000000 | 0x7800}; for (auto &b : r.b) { fams.push_back(b.bfam); typs.push_back(b.btyp); }
  for (int f : fams) for (int d : {0, -1, 1, 63}) for (int t : typs) for (int s = 0; s <= nb; s++) { eval(); int want = -1, ff = f; bool bad = false; if (f == -1) bad = d > 0; else if (d > 0) { bad = (f >> 6 & 63) && (f >> 6 & 63) != d; ff = (f & 63) | d << 6; } int m = t == -1 ? 0 : (t & 0x10000000 ? 0 : 0xf) | (t & 0x20000000 ? 0 : 0x7f0) | (t & 0x40000000 ? 0 : 0x7800);
      for (int i = s; i < nb && want < 0; i++) if ((f == -1 || r.b[i].bfam == (ff & 0xfff)) && !((r.b[i].btyp ^ t) & m)) want = i + 1; if (bad) want = -43;
      int got = c_mrbloc(B.p(), f, d, t, s); if (got != want) { fail("mrbloc(bfam %d, bdesc %d, btyp %x, from %d) = %d, should be %d", f, d, t, s, got, want); return false; } }
  for (int n : {-1, 0, 3, 15}) for (int t : {-1, 0, 6, 127}) for (int s : {-1, 0, 10, 15}) for (int from = 0; from <= nb; from++) { eval(); int want = -1; for (int i = from; i < nb && want < 0; i++) { int y = r.b[i].btyp; if ((n < 0 || y >> 11 == n) && (t < 0 || (y >> 4 & 127) == t) && (s < 0 || (y & 15) == s)) want = i + 1; }
      int got = c_mrblocx((int *)B.p(), -1, -1, n, t, s, from); if (got != want) { fail("mrblocx(%d,%d,%d from %d) = %d, should be %d", n, t, s, from, got, want); return false; } }
  for (int s = 1; s <= nb; s++) { vector<int> tbl(10 * nb, -7); int rc = c_mrbprml((int *)B.p(), s, tbl.data(), 10, nb); if (rc != nb - s) { fail("mrbprml after block %d of %d reports %d blocks", s, nb, rc); return false; } for (int i = 0; i < nb - s; i++) if (tbl[10 * i] != s + i + 1 || tbl[10 * i + 7 - 1] != r.b[s + i].btyp) { fail("mrbprml after block %d: entry %d", s, i); return false; } }
  return true; }
static vector<int32_t> VALS[] = {{0}, {1, 0}, {5, -1, 6}, {7}, {-1}, {255, 254, -1}, {256}, {-2, 5}, {-128, 127, -1}, {0x7ffffffe, 3}, {0x7fffffff}, {1 << 20, -(1 << 20)}, {-0x3fffffff, 1}, {-0x40000000, 9}, {INT32_MIN, 5}, {65535, -1}, {2, 3, -1}};
static const int NV = sizeof VALS / sizeof *VALS;
static void setvals(Blk &b, int cls, int nbit0) { size_t n = nwv(b); (void)nbit0; b.val.resize(n); for (size_t i = 0; i < n; i++) { auto &c = VALS[cls]; uint32_t v = c[i % c.size()] ; if (b.datyp == 0 || b.datyp >= 6) v = v * 2654435761u + i * 77; if (b.datyp == 3 || b.datyp == 5) { static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .-"; v = 0; for (int k = 0; k < 4; k++) v = v << 8 | (uint8_t)A[(i * 7 + k * 5 + cls * 11) % 65]; } b.val[i] = v; } }
struct Spec { int nele, nval, nt, bfam, btyp, nbit, datyp, cls; };
struct Op { int o, a, b; }; // 0 add spec a; 1 delete block a; 2 replace block a with class b; 3 header update a
static vector<Spec> specs; static vector<Op> ops;
static Blk make(const Spec &s) { Blk b{s.nele, s.nval, s.nt, s.bfam, s.btyp, s.nbit, s.datyp, {}, {}}; for (int i = 0; i < s.nele; i++) b.lst.push_back((i * 4099 + s.btyp + 1) & 0xffff); if (s.datyp == 7) for (int i = 1; i < s.nele; i += 2) b.lst[i] = i % 4 == 1 ? 0 : 55 << 8 | 204; if (s.datyp == 8) for (int i = 1; i < s.nele; i += 2) b.lst[i] = 55 << 8 | 205; if (s.datyp == 9) for (int i = 0; i < s.nele; i++) if (i % 4) b.lst[i] = i & 4 ? 0 : 55 << 8 | (i % 4 == 1 ? 204 : 204 + i % 4); setvals(b, s.cls, 0); return b; }
static void elems(Blk &b) { if (b.datyp >= 7) for (int i = 0; i < b.nele; i++) { if (b.datyp < 9 ? i % 2 : i % 4) b.lst[i] = 55 << 8 | (b.datyp == 7 ? 204 : b.datyp == 8 ? 205 : i % 4 == 1 ? 204 : 204 + i % 4); } }
static string ostr(const Op &o) { if (o.o == 0) { auto &s = specs[o.a]; return fmt("add(nele %d nval %d nt %d bfam %x btyp %x nbit %d datyp %d values %d)", s.nele, s.nval, s.nt, s.bfam, s.btyp, s.nbit, s.datyp, s.cls); } if (o.o == 1) return fmt("delete(%d)", o.a); if (o.o == 2) return fmt("replace(%d, values %d)", o.a, o.b); return fmt("update header %d", o.a); }
static Hdr base() { return {1123, 0377, "STATION#1", 2, 1800, 3600, 101, 102, 1000, 3, 20250614, 17, 9}; }
static bool enough(const Rep &r, const Op &o) { return o.o == 0 || o.o == 3 || o.a <= (int)r.b.size(); }
// applies the operation to the report and to the real buffer
static bool step(Buf &B, Rep &r, const Op &o, const char *w) { trans(); string ww = string(w) + " " + ostr(o); const char *W = ww.c_str(); long cap = B.size() - 9; int rc;
  if (o.o == 0) { Blk b = make(specs[o.a]); int nb = b.nbit, dt = b.datyp; bool ok = fit(nb, dt, b.val) && valid(b); Blk given = b; b.nbit = nb; b.datyp = dt; if (ok && used(r) + bwords(b) > cap) ok = false;
    int bk = -5, bit0 = -5; auto v0 = given.val; rc = c_mrbadd(B.p(), &bk, given.nele, given.nval, given.nt, given.bfam, 0, given.btyp, given.nbit, &bit0, given.datyp, given.lst.data(), given.val.data());
    if ((rc == 0) != ok) { fail("%s returns %d, should %s (capacity %ld words, %ld used)", W, rc, ok ? "succeed" : "be refused", cap, used(r)); return false; } if (given.val != v0) { fail("%s changed the caller's values", W); return false; }
    if (ok) { elems(b); if (given.lst != b.lst) { fail("%s: element list given back differs", W); return false; } if (b.datyp == 5) for (auto &x : b.val) x = up(x); if (bk != (int)r.b.size() + 1) { fail("%s: block number %d", W, bk); return false; } long pos = 0; for (auto &q : r.b) pos += (bwords(q) - 4) / 2; if (bit0 != pos) { fail("%s: bit0 %d, should be %ld", W, bit0, pos); return false; } r.b.push_back(b); } outcome(ok ? "block added" : "block refused"); }
  else if (o.o == 1) { bool ok = o.a >= 1 && o.a <= (int)r.b.size(); rc = c_mrbdel(B.p(), o.a); if ((rc == 0) != ok) { fail("%s returns %d", W, rc); return false; } if (ok) r.b.erase(r.b.begin() + o.a - 1); outcome(ok ? "block deleted" : "no such block"); }
  else if (o.o == 2) { bool ok = o.a >= 1 && o.a <= (int)r.b.size(); Blk b; if (ok) { b = r.b[o.a - 1]; setvals(b, o.b, 0); int nb = b.nbit, dt = b.datyp; ok = fit(nb, dt, b.val); b.nbit = nb; b.datyp = dt; if (ok && used(r) - bwords(r.b[o.a - 1]) + bwords(b) > cap) ok = false; } else b.val.assign(4, 1);
    rc = c_mrbrep(B.p(), o.a, b.val.data()); if ((rc == 0) != ok) { fail("%s returns %d, should %s", W, rc, ok ? "succeed" : "be refused"); return false; } if (ok) { if (b.datyp == 5) for (auto &x : b.val) x = up(x); r.b[o.a - 1] = b; } outcome(ok ? "block replaced" : "replacement refused"); }
  else { Hdr n = r.h, p{-1, -1, "*********", -1, -1, -1, -1, -1, -1, -1, -1, -1, -1}; switch (o.a) { case 0: break; case 1: p = {2359, 0xffffff, "azZ09-_#%", 255, 65534, 65534, 4095, 4095, 8191, 2047, 20991231, 65535, 255}; n = p; n.stn = "AZZ09-_#%"; break; case 2: p.stn = "A**B"; n.stn = "A" + n.stn.substr(1, 2) + "B     "; p.temps = 0; n.temps = 0; break; case 3: p.lat = n.lat = 0; p.elev = n.elev = 0; p.oars = n.oars = 1; break; case 4: p.date = n.date = 991231; p.dx = n.dx = 0; p.flgs = n.flgs = 0; break; case 5: p.runn = n.runn = 0; p.drcv = n.drcv = 1; p.lon = n.lon = 1; p.dy = n.dy = 7; p.idtp = n.idtp = 32; break; }
    char s[20]; strcpy(s, p.stn.c_str()); rc = c_mrbupd(iun, (int *)B.p(), p.temps, p.flgs, s, p.idtp, p.lat, p.lon, p.dx, p.dy, p.elev, p.drcv, p.date, p.oars, p.runn, nullptr, 0, nullptr, 0); if (rc) { fail("%s returns %d", W, rc); return false; } r.h = n; }
  return audit(B, r, W); }
static bool start(Buf &B, Rep &r) { r = Rep(); r.h = base(); char s[] = "station#1"; int rc = c_mrbini(iun, (int *)B.p(), r.h.temps, r.h.flgs, s, r.h.idtp, r.h.lat, r.h.lon, r.h.dx, r.h.dy, r.h.elev, r.h.drcv, r.h.date, r.h.oars, r.h.runn, nullptr, 0, nullptr, 0); if (rc) { fail("mrbini returns %d", rc); return false; } return audit(B, r, "mrbini"); }
static void explore(const vector<int> &prefix, int depth) { Rep r; Buf B(1200); string d; if (!start(B, r)) return; for (int k : prefix) { d += ostr(ops[k]) + "; "; if (!enough(r, ops[k])) return; describe(d); if (!step(B, r, ops[k], "")) return; }
  state(hash(B.p(), B.w.size() * 4)); if (!locate(B, r)) return;
  // the same last operation in a buffer that just holds the result, and in one that is one unit too small
  long u = used(r); Rep q; for (long n : {u + 9, u + 8, u + 7}) { describe(d + fmt("with a buffer of %ld words", n)); Buf C(n < 19 ? 19 : n); if (!start(C, q)) return; bool ok = true; for (size_t k = 0; ok && k < prefix.size(); k++) ok = step(C, q, ops[prefix[k]], "in a tight buffer:"); if (!ok) return; }
  if (depth) for (size_t k = 0; k < ops.size() && !failed_in_case; k++) { auto p = prefix; p.push_back(k); explore(p, depth - 1); } }
int main(int argc, char **argv) { init(argc, argv); setenv("CMCCONST", "/nonexistent", 1);
  string dir = fmt("/tmp/vh_burp_%d", getpid()); mkdir(dir.c_str(), 0777); auto path = dir + "/f"; if (c_fnom(&iun, path.c_str(), "RND", 0) || c_mrfopn(iun, (char *)"CREATE") < 0) { begin("setup"); fail("cannot create a BURP file"); return done(); }
  // A: every combination of dimensions, datyp, requested bits and values, alone in a report
  for (int dt = -1; dt <= 10; dt++) for (int nb : {1, 2, 7, 8, 12, 16, 31, 32}) if (begin("one block, datyp %d, nbit %d", dt, nb)) for (int ne : {1, 2, 3, 4, 5, 6, 7, 8, 12, 126, 127, 128, 200}) for (auto d : {std::pair<int, int>{1, 1}, {1, 2}, {3, 1}, {2, 3}, {255, 1}, {256, 1}, {1, 255}, {1, 256}, {257, 2}}) for (int c = 0; c < NV && !failed_in_case; c++) {
      if (ne > 12 && d.first * d.second > 6 && c > 2) continue; specs = {{ne, d.first, d.second, 0x43, 0x1234, nb, dt, c}, {4, 1, 2, 1, 106, 7, 2, 2}}; vector<Op> s = {{0, 1, 0}, {0, 0, 0}, {0, 1, 0}, {1, 2, 0}, {0, 0, 0}, {1, 1, 0}, {1, 9, 0}}; Blk b = make(specs[0]); Buf B(400 + 3 * (bwords(b) + words(b.val.size() * 32L))); Rep r; describe(fmt("one block, datyp %d, nbit %d, nele %d nval %d nt %d values %d", dt, nb, ne, d.first, d.second, c)); bool ok = start(B, r); for (auto &o : s) if (ok) ok = step(B, r, o, "");
      for (int c2 = 0; ok && c2 < (ne <= 8 && d.first * d.second <= 6 ? NV : 0); c2++) { Buf C = B; Rep q = r; for (auto &o : vector<Op>{{0, 1, 0}, {2, 1, c2}, {2, 2, c2}, {2, 1, c}}) if (ok) ok = step(C, q, o, ""); } }
  // B: every family and type of block
  for (int f = 0; f < 4096; f += 64) if (begin("families from %d", f)) { specs = {{1, 1, 1, f, 1, 8, 2, 0}}; ops = {{0, 0, 0}}; for (int k = 0; k < 64 && !failed_in_case; k++) { specs[0].bfam = f + k; specs[0].btyp = (f + k) * 8 + k % 8; Buf B(1000); Rep r; if (start(B, r)) step(B, r, {0, 0, 0}, ""); } }
  // C: all dates and times a report can hold
  for (int y = 1900; y < 2300; y += 10) if (begin("years from %d", y)) for (int yy = y; yy < y + 10; yy++) for (int m = 1; m <= 12; m++) for (int dd : {1, 9, 31}) { Buf B(100); char s[] = "A"; int date = yy * 10000 + m * 100 + dd, t = (m * 2 - 1) * 100 + (dd == 31 ? 59 : dd); Rep r; r.h = {t, 0, "A        ", 0, 0, 0, 0, 0, 0, 0, yy < 2000 ? date - 19000000 : date, 0, 0}; c_mrbini(iun, (int *)B.p(), t, 0, s, 0, 0, 0, 0, 0, 0, 0, date, 0, 0, nullptr, 0, nullptr, 0); if (!audit(B, r, fmt("date %d", date).c_str())) break; 
        c_mrbupd(iun, (int *)B.p(), 0, 0, s, 0, 0, 0, 0, 0, 0, 0, 20000101, 0, 0, nullptr, 0, nullptr, 0); c_mrbupd(iun, (int *)B.p(), t, -1, s, -1, -1, -1, -1, -1, -1, -1, date, -1, -1, nullptr, 0, nullptr, 0); if (!audit(B, r, fmt("updated to date %d", date).c_str())) break; }
  // D: histories of operations
  specs = {{1, 1, 1, 1, 106, 8, 2, 2}, {4, 3, 1, 0x43, 0x7fff, 1, 2, 5}, {5, 1, 3, 0xfff, 0x386a, 12, 4, 8}, {7, 2, 1, 0xfc0, 0, 8, 3, 0}, {4, 1, 1, 1, 106 + 16, 32, 7, 1}, {3, 1, 1, 2, 5, 32, 6, 3}, {6, 1, 1, 0x43, 106, 5, 0, 1}, {127, 1, 1, 3, 9, 3, 2, 2}, {2, 256, 1, 4, 0x4001, 1, 2, 0}, {3, 1, 1, 1, 1, 8, 1, 0}, {2, 1, 1, 9, 106, 8, 5, 4}};
  for (int i = 0; i < (int)specs.size(); i++) ops.push_back({0, i, 0}); ops.erase(ops.begin()); ops.clear(); for (int i = 0; i < (int)specs.size(); i++) ops.push_back({0, i, 0});
  for (int k = 0; k <= 3; k++) ops.push_back({1, k, 0}); for (int k = 0; k <= 3; k++) for (int c : {0, 8, 9, 13}) ops.push_back({2, k, c}); for (int u = 0; u < 6; u++) ops.push_back({3, u, 0});
  int n = ops.size();
  for (int i = -1; i < n; i++) for (int j = -1; j < n; j++) { if (i < 0 && j >= 0) continue; if (!begin("histories beginning with %s, %s", i < 0 ? "nothing" : ostr(ops[i]).c_str(), j < 0 ? "nothing" : ostr(ops[j]).c_str())) continue; if (i < 0) explore({}, 0); else if (j < 0) explore({i}, 0); else explore({i, j}, thorough ? 2 : 1); }
  c_mrfcls(iun); c_fclos(iun); unlink(path.c_str()); rmdir(dir.c_str()); return done(); }
