// F01: every history of writes, rewrites, erasures, directory edits and reopenings of a
// random-access file, compared record by record with a reference list.
#include "fst.hh"
using namespace vh; using namespace fst; using std::vector;
struct R { string nom, et; int ip1, ni; int seed; };
static const char *F = "f1.fst";
static const char *NOM[4] = {"AA", "BB", "CC", "DD"};
static int SZ[2] = {4, 40};
static const int DATE = 20240229 * 0 + 405318490;   // a valid CMC stamp
static vector<R> M; static int seedc, iun;
static void data(int *d, int n, int seed) { for (int i = 0; i < n; i++) d[i] = (seed * 1000003 + i * 7919) ^ (i << 20); }
static bool openrw() { iun = opn(F, "STD+RND", "RND"); if (iun < 0) { fail("open for write failed: %d", iun); return false; } return true; }
// expected content = live records in file order
static bool readback(const char *when) {
  int ni, nj, nk; vector<int> L(600); int n = -1;
  int r = c_fstinl(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " ", L.data(), &n, 600);
  if (n != (int)M.size()) { fail("%s: %d records are found, %zu are expected (rc %d)", when, n, M.size(), r); return false; }
  int nb = c_fstnbrv(iun); if (nb != n) { fail("%s: valid record count %d, %d are expected", when, nb, n); return false; }
  for (int i = 0; i < n; i++) {
    if (n > 40 && i > 4 && i < n - 12 && !thorough) continue;
    int b[64]; for (auto &x : b) x = 0x5a5a5a5a; Meta m; const R &w = M[i];
    if (prm(L[i], m) < 0) { fail("%s: record %d has no descriptors", when, i); return false; }
    if (m.nomvar != w.nom || m.etiket != w.et || m.ip1 != w.ip1 || m.ip2 != 6 || m.ip3 != 0x1234567 || m.ni != w.ni || m.nj != 1 || m.nk != 1 || m.nbits != 32 || m.datyp != 4 || m.typvar != "P" || m.grtyp != "Z" || m.ig1 != 11 || m.ig2 != 0xA2B3C4 || m.ig3 != 33 || m.ig4 != w.seed || m.dateo != DATE || m.deet != 0 || m.npas != 0) {
      fail("%s: record %d reads %s, expected %s '%s' ip1=%d ni=%d ig4=%d", when, i, str(m).c_str(), w.nom.c_str(), w.et.c_str(), w.ip1, w.ni, w.seed); return false; }
    r = c_fstluk(b, L[i], &ni, &nj, &nk);
    int e[64]; data(e, w.ni, w.seed);
    if (r < 0 || ni != w.ni || memcmp(b, e, w.ni * 4)) { fail("%s: record %d (%s) does not read back the data last written (rc %d)", when, i, w.nom.c_str(), r); return false; }
    if (b[w.ni] != 0x5a5a5a5a) { fail("%s: reading record %d wrote past the field", when, i); return false; }
    eval();
  }
  // find each by its own key: the first record bearing that key
  for (int k = 0; k < 4; k++) {
    int x = -1; for (int i = 0; i < n && x < 0; i++) if (M[i].nom == NOM[k]) x = i;
    int h = c_fstinf(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", NOM[k]);
    if ((x < 0) != (h < 0) || (x >= 0 && h != L[x])) { fail("%s: searching %s gives handle %d, expected record %d", when, NOM[k], h, x); return false; }
  }
  return true;
}
struct Op { char t; int k, s, rw; };
static string show(const Op &o) { return o.t == 'W' ? fmt("W%s%d%s", NOM[o.k], o.s, o.rw ? "r" : "") : o.t == 'E' ? fmt("E%s", NOM[o.k]) : o.t == 'L' ? "ELast" : o.t == 'D' ? fmt("D%s>%s", NOM[o.k], NOM[(o.k + 1) % 3]) : o.t == 'C' ? "C" : o.t == 'K' ? "K" : "?"; }
static bool apply(const Op &o) {
  int ni, nj, nk; trans();
  if (o.t == 'W') {
    R w{NOM[o.k], o.k ? "LABEL" : "OPERATIONNEL", 1000 + o.k, SZ[o.s], ++seedc}; int b[64]; data(b, w.ni, w.seed);
    int r = c_fstecr(b, nullptr, -32, iun, DATE, 0, 0, w.ni, 1, 1, w.ip1, 6, 0x1234567, "P", w.nom.c_str(), w.et.c_str(), "Z", 11, 0xA2B3C4, 33, w.seed, 4, o.rw);
    if (r < 0) { fail("write refused: %d", r); return false; }
    int x = -1; if (o.rw) for (size_t i = 0; i < M.size() && x < 0; i++) if (M[i].nom == w.nom && M[i].et == w.et && M[i].ip1 == w.ip1) x = i;
    if (x < 0) M.push_back(w);
    else if (M[x].ni == w.ni) M[x] = w;            // same length: replaced where it is
    else { M.erase(M.begin() + x); M.push_back(w); }
    return true;
  }
  if (o.t == 'E' || o.t == 'D') {
    int x = -1; for (size_t i = 0; i < M.size() && x < 0; i++) if (M[i].nom == NOM[o.k]) x = i;
    int h = c_fstinf(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", NOM[o.k]);
    if ((x < 0) != (h < 0)) { fail("search for %s before %c: handle %d, expected record %d", NOM[o.k], o.t, h, x); return false; }
    if (x < 0) return true;
    if (o.t == 'E') {
      int r = c_fsteff(h); if (r < 0) { fail("erase refused: %d", r); return false; }
      if (c_fsteff(h) >= 0) { fail("erasing the erased record %s succeeds", NOM[o.k]); return false; }
      M.erase(M.begin() + x);
    } else {
      int k2 = (o.k + 1) % 3; R &w = M[x];
      int r = c_fst_edit_dir(h, -1, -1, -1, -1, -1, -1, 1000 + k2, -1, -1, " ", NOM[k2], "LABEL", " ", -1, -1, -1, -1, -1);
      if (r < 0) { fail("directory edit refused: %d", r); return false; }
      w.nom = NOM[k2]; w.et = "LABEL"; w.ip1 = 1000 + k2;
    }
    return true;
  }
  if (o.t == 'L') {
    if (M.empty()) return true;
    vector<int> L(600); int n = 0; c_fstinl(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " ", L.data(), &n, 600);
    if (n != (int)M.size()) { fail("%d records before erasing the last, expected %zu", n, M.size()); return false; }
    if (c_fsteff(L[n - 1]) < 0) { fail("erase of the last record refused"); return false; }
    M.pop_back(); return true;
  }
  if (o.t == 'K') { if (c_fstckp(iun) < 0) { fail("checkpoint failed"); return false; } 
    return true; }
  if (o.t == 'C') { int r = cls(iun); if (r < 0) { fail("close: %d", r); iun = -1; return false; } 
    if (c_xdfcheck(F) < 0) { fail("file is not valid after closing"); iun = -1; return false; }
    return openrw(); }
  return true;
}
static string pre; static vector<R> preM;
static void run(const string &tag, const vector<Op> &s) {
  string d = tag; for (auto &o : s) d += " " + show(o);
  if (!begin_s(d)) return;
  M = preM; seedc = 1000; unlink(F); if (!pre.empty()) spit(F, pre);
  if (!openrw()) return;
  bool ok = true;
  for (auto &o : s) if (!(ok = apply(o))) break;
  if (iun < 0) return;
  ok = ok && readback("before closing");
  int r = cls(iun);
  if (ok && r < 0) { fail("close: %d", r); ok = false; }
  if (ok && c_xdfcheck(F) < 0) { fail("the closed file does not pass the file checker"); ok = false; }
  if (ok) { iun = opn(F, "STD+RND+R/O", "RND+R/O"); if (iun < 0) { fail("reopen: %d", iun); ok = false; }
    else { ok = readback("after reopening"); cls(iun); } }
  string st; for (auto &x : M) st += x.nom + x.et + fmt("%d,", x.ni); state(st); 
  outcome(fmt("%zu records", M.size() - preM.size() + 100));
}
static void rec(const string &tag, const vector<Op> &alpha, vector<Op> &s, int depth) {
  if (too_many()) return;
  run(tag, s);
  if ((int)s.size() == depth) return;
  for (auto &o : alpha) { s.push_back(o); rec(tag, alpha, s, depth); s.pop_back(); }
}
static void prefill(int n) {
  M.clear(); seedc = 0; unlink(F); openrw();
  for (int i = 0; i < n; i++) apply(Op{'W', 3, i & 1, 0});
  cls(iun); pre = slurp(F); preM = M;
}
// Descriptors: every value class of every field, one field at a time plus all-extreme
struct P { int date, deet, npas, ni, nj, nk, ip1, ip2, ip3, ig1, ig2, ig3, ig4; string tv, nv, et, gt; };
static void onemeta(const P &p, const char *what, bool legal) {
  if (!begin("descriptors %s", what)) return;
  unlink(F); if (!openrw()) return;
  int b[64] = {7}; trans();
  int r = c_fstecr(b, nullptr, -1, iun, p.date, p.deet, p.npas, p.ni, p.nj, p.nk, p.ip1, p.ip2, p.ip3, p.tv.c_str(), p.nv.c_str(), p.et.c_str(), p.gt.c_str(), p.ig1, p.ig2, p.ig3, p.ig4, 0, 0);
  outcome(r < 0 ? "refused" : "written");
  if (!legal) { if (r >= 0) fail("out-of-range descriptor accepted (%s)", what); else if (c_fstnbr(iun) != 0) fail("a refused write left %d records", c_fstnbr(iun)); cls(iun); return; }
  if (r < 0) { fail("legal descriptors refused: %d", r); cls(iun); return; }
  for (int pass = 0; pass < 2; pass++) {
    int ni, nj, nk; int h = c_fstinf(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " "); Meta m; eval();
    if (h < 0 || prm(h, m) < 0) { fail("the record is not found"); cls(iun); return; }
    auto up = [](string s, int n) { string o; for (char c : s) { unsigned char u = c; if (u >= 'a' && u <= 'z') u -= 32; o += u; } return rtrim(o.substr(0, n)); };
    if (m.deet != p.deet || m.npas != p.npas || m.ni != p.ni || m.nj != p.nj || m.nk != p.nk || ni != p.ni || nj != p.nj || nk != p.nk || m.ip1 != p.ip1 || m.ip2 != p.ip2 || m.ip3 != p.ip3 || m.ig1 != p.ig1 || m.ig2 != p.ig2 || m.ig3 != p.ig3 || m.ig4 != p.ig4 || m.typvar != up(p.tv, 2) || m.nomvar != up(p.nv, 4) || m.etiket != up(p.et, 12) || m.grtyp[0] != p.gt[0] || (m.dateo != p.date)) {
      fail("descriptors come back as %s", str(m).c_str()); break; }
    // and its own full key finds it
    int h2 = c_fstinf(iun, &ni, &nj, &nk, m.datev, p.et.c_str(), p.ip1, p.ip2, p.ip3, p.tv.c_str(), p.nv.c_str());
    if (h2 != h) { fail("the record is not found by its own key (%d)", h2); break; }
    if (pass == 0) { cls(iun); iun = opn(F, "STD+RND+R/O", "RND+R/O"); if (iun < 0) { fail("reopen %d", iun); return; } }
  }
  cls(iun); state(string(what));
}
static void meta() {
  P b{DATE, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, "P", "AA", "LBL", "X"};
  onemeta(b, "base", true);
  for (int pos = 0; pos < 2; pos++) for (int c = 32; c < 127; c++) { if (c >= 96 && !(c >= 'a' && c <= 'z')) continue; P p = b; p.tv = string(pos, 'Q') + (char)c; onemeta(p, fmt("typvar '%s'", p.tv.c_str()).c_str(), true); }
  for (int pos = 0; pos < 4; pos++) for (int c = 33; c < 127; c++) { if (c >= 96 && !(c >= 'a' && c <= 'z')) continue; P p = b; p.nv = string(pos, 'Q') + (char)c + (pos < 3 ? "Z" : ""); onemeta(p, fmt("nomvar '%s'", p.nv.c_str()).c_str(), true); }
  for (int pos = 0; pos < 12; pos++) for (int c = 33; c < 127; c++) { if (c >= 96 && !(c >= 'a' && c <= 'z')) continue; P p = b; p.et = string(pos, 'Q') + (char)c + string(11 - pos, 'Z'); onemeta(p, fmt("etiket '%s'", p.et.c_str()).c_str(), true); }
  for (int l = 1; l <= 12; l++) { P p = b; p.et = string("ABCDEFGHIJKL").substr(0, l); onemeta(p, fmt("etiket length %d", l).c_str(), true); }
  for (int c = 33; c < 127; c++) { P p = b; p.gt = string(1, c); onemeta(p, fmt("grtyp %c", c).c_str(), true); }
  auto each = [&](const char *n, int P::*f, long max, int lo) {
    for (int bit = 0; bit < 31; bit++) for (int d = -1; d <= 1; d++) { long v = (1l << bit) + d; if (v < lo || v > 0x7fffffff) continue; 
      if ((f == &P::ni || f == &P::nj || f == &P::nk) && v <= max && v > 40) continue; // huge records are covered by 'dims' below
      P p = b; p.*f = v; onemeta(p, fmt("%s=%ld", n, v).c_str(), v <= max); }
    for (long v : {max, max + 1, -1l, -2l, (long)-2147483647 - 1}) { if (f == &P::nk && v < 1) continue; if ((f == &P::ni || f == &P::nj || f == &P::nk) && v == max) continue; P p = b; p.*f = v; onemeta(p, fmt("%s=%ld", n, v).c_str(), v >= lo && v <= max); }
  };
  each("ip1", &P::ip1, 0xfffffff, 0); each("ip2", &P::ip2, 0xfffffff, 0); each("ip3", &P::ip3, 0xfffffff, 0);
  each("ig1", &P::ig1, 0xffffff, 0); each("ig2", &P::ig2, 0xffffff, 0); each("ig3", &P::ig3, 0xffffff, 0); each("ig4", &P::ig4, 0xffffff, 0);
  each("ni", &P::ni, 0xffffff, 1); each("nj", &P::nj, 0xffffff, 1); each("nk", &P::nk, 0xfffff, 1);
  for (int bit = 0; bit < 24; bit++) for (int d = -1; d <= 1; d++) { int v = (1 << bit) + d; P p = b; p.deet = v; onemeta(p, fmt("deet=%d", v).c_str(), v >= 0 && v <= 0xffffff); p = b; p.npas = v; onemeta(p, fmt("npas=%d", v).c_str(), v >= 0 && v <= 0xffffff); }
  { P p = b; p.deet = p.npas = -1; onemeta(p, "deet=-1", false); p = b; p.deet = 0x1000000; onemeta(p, "deet=2^24", false); p = b; p.npas = 0x1000000; onemeta(p, "npas=2^24", false); }
  // origin date comes back whatever the forecast length (5-second resolution)
  for (int deet : {5, 60, 300, 450, 1200, 3600, 7200, 86400}) for (int np : {1, 2, 3, 7, 12, 24, 48, 71, 100, 240, 366, 1000}) { P p = b; p.deet = deet; p.npas = np; p.date = DATE + 0; onemeta(p, fmt("deet=%d npas=%d", deet, np).c_str(), true); }
}
// Directory edits: every field alone and every pair of fields, at several values, through both entry points
extern "C" { int newdate_(int *, int *, int *, int *); void incdatr_(int *, int *, double *); }
static int stampof(int d, int t) { int a = -1, m = 3; newdate_(&a, &d, &t, &m); return a; }
static void edits() {
  struct E { const char *name; vector<int> v; vector<string> s; };
  vector<E> f = {{"date", {stampof(20301231, 6000000), stampof(19791231, 23000000), stampof(20200229, 12300000)}, {}}, {"deet", {0, 1, 300, 3600, 0xffffff}, {}}, {"npas", {0, 1, 24, 0xffffff}, {}}, {"ip1", {0, 1, 0xfffffff, 0x5555555}, {}}, {"ip2", {0, 0xfffffff, 0xaaaaaaa}, {}}, {"ip3", {0, 0xfffffff, 0x1234567}, {}},
    {"typvar", {}, {"Z", "QR", "@9"}}, {"nomvar", {}, {"Z", "QR", "WXY", "ABCD"}}, {"etiket", {}, {"A", "ABCDEFGHIJKL", "Q0123456789Z", "           X"}}, {"grtyp", {}, {"Y", "#"}}, {"ig1", {0, 0xffffff, 0x123456}, {}}, {"ig2", {0, 0xffffff, 0x123456, 0xff, 0xff00, 0xff0000}, {}}, {"ig3", {0, 0xffffff, 0x654321}, {}}, {"ig4", {0, 0xffffff, 0x654321}, {}}};
  int n = f.size(); auto cnt = [&](int k) { return (int)(f[k].v.size() + f[k].s.size()); };
  auto set = [&](Meta &m, int k, int q) { int v = k < 6 || k > 9 ? f[k].v[q] : 0; string s = k >= 6 && k <= 9 ? f[k].s[q] : "";
    switch (k) { case 0: m.datev = v; break; case 1: m.deet = v; break; case 2: m.npas = v; break; case 3: m.ip1 = v; break; case 4: m.ip2 = v; break; case 5: m.ip3 = v; break; case 6: m.typvar = s; break; case 7: m.nomvar = s; break; case 8: m.etiket = s; break; case 9: m.grtyp = s; break; case 10: m.ig1 = v; break; case 11: m.ig2 = v; break; case 12: m.ig3 = v; break; default: m.ig4 = v; } };
  for (int plus = 0; plus < 2; plus++) for (int a = 0; a < n; a++) for (int b = a; b < n; b++) for (int va = 0; va < cnt(a); va++) for (int vb = 0; vb < cnt(b); vb++) {
    if (a == b && va != vb) continue; if (!thorough && a != b && va && vb) continue;
    if (!begin("directory edit %d of %s (%d) and %s (%d)", plus, f[a].name, va, f[b].name, vb)) continue;
    unlink(F); if (!openrw()) continue; int x[8] = {1, 2, 3}, ni, nj, nk; bool ok = true;
    for (int k = 0; k < 3 && ok; k++) ok = c_fstecr(x, nullptr, -32, iun, DATE, 900, 4, 2, 1, 1, 100 + k, 200, 300, "PX", "ABC", "ORIGINAL", "X", 11, 0x030201, 33, 44, 4, 0) >= 0;
    int h = c_fstinf(iun, &ni, &nj, &nk, -1, " ", 101, -1, -1, " ", " "); Meta m0, m, w; if (!ok || h < 0 || prm(h, m0) < 0) { fail("setting up"); cls(iun); continue; }
    w = m0; set(w, a, va); set(w, b, vb); if (!plus) { w.grtyp = m0.grtyp; }
    auto I = [&](int k, int none) { return a == k ? f[k].v[va] : b == k ? f[k].v[vb] : none; }; auto S = [&](int k) { return a == k ? f[k].s[va].c_str() : b == k ? f[k].s[vb].c_str() : " "; };
    trans(); int r = (plus ? c_fst_edit_dir_plus : c_fst_edit_dir)(h, I(0, -1), I(1, -1), I(2, -1), -1, -1, -1, I(3, -1), I(4, -1), I(5, -1), S(6), S(7), S(8), S(9), I(10, -1), I(11, -1), I(12, -1), I(13, -1), -1); if (r < 0) { fail("the edit is refused: %d", r); cls(iun); continue; }
    double hrs = -(double)w.deet * w.npas / 3600.; int dv = w.datev; incdatr_(&w.dateo, &dv, &hrs); if (!w.deet || !w.npas) w.dateo = w.datev;
    for (int pass = 0; pass < 2 && ok; pass++) { eval(); if (prm(h, m) < 0) { fail("descriptors refused after the edit"); break; }
      m.typvar = rtrim(m.typvar); if (str(m) != str(w)) { fail("%s: descriptors after the edit are %s, should be %s", pass ? "after reopening" : "in the session", str(m).c_str(), str(w).c_str()); break; }
      for (int k : {100, 102}) { int h2 = c_fstinf(iun, &ni, &nj, &nk, -1, " ", k, 200, 300, "PX", "ABC"); Meta o; if (h2 < 0 || (h2 == h) || prm(h2, o) < 0) { fail("another record is lost"); ok = false; break; } o.ip1 = m0.ip1; if (str(o) != str(m0)) { fail("the edit changes another record: %s", str(o).c_str()); ok = false; break; } }
      int y[8] = {0}; if (ok && (c_fstluk(y, h, &ni, &nj, &nk) < 0 || y[0] != 1 || y[1] != 2)) { fail("the edit changes the data"); break; }
      if (pass == 0) { cls(iun); iun = opn(F, "STD+RND+R/O", "RND+R/O"); if (iun < 0) { fail("reopen %d", iun); break; } int l[8], c; c_fstinl(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " ", l, &c, 8); if (c != 3) { fail("%d records after the edit", c); break; } h = l[1]; } }
    if (iun > 0) cls(iun); state(fmt("edit %d %d %d %d", a, b, va, vb)); }
}
// origin dates of every style, with forecast lengths that keep or change the style
static void odates() {
  int D[] = {18991231, 19000101, 19010101, 19791231, 19800101, 19991231, 20000101, 20000229, 20351231, 22351231, 22360101, 101, 99991231, 15820101}, T[] = {0, 1000000, 23000000, 12345500}; struct L { int d, n; } l[] = {{0, 0}, {3600, 1}, {3600, 24}, {86400, 400}, {300, 7}, {5, 1}};
  for (int d : D) for (int t : T) for (auto &q : l) { int st = stampof(d, t); int y = d / 10000; bool fine = y >= 1980 && y < 2235 ; if (!fine && (t % 1000000 || q.d % 3600)) continue; if (d == 99991231 && q.n) continue; if (d == 19010101 && t == 1000000) continue; /* the dummy date */ if (d == 22351231 && (t % 1000000)) continue;
    P p{st, q.d, q.n, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, "P", "AA", "LBL", "X"}; onemeta(p, fmt("origin %08d %08d plus %d x %d seconds", d, t, q.n, q.d).c_str(), true); }
}
// a file opened for reading only is not changed by any history of operations
static void readonly() {
  for (int how = 0; how < 3; how++) for (int code = 0; code < 216; code++) {
    int o[3] = {code % 6, code / 6 % 6, code / 36};
    if (!begin("read-only file (%d), operations %d %d %d", how, o[0], o[1], o[2])) continue;
    chmod(F, 0644); unlink(F); preM.clear(); pre.clear(); M.clear(); seedc = 5; if (!openrw()) continue;
    for (int i = 0; i < 3; i++) apply(Op{'W', i, 0, 0}); if (cls(iun) < 0) { fail("close"); continue; }
    string before = slurp(F); vector<R> keep = M;
    if (how == 2) chmod(F, 0444);
    iun = opn(F, how == 0 ? "STD+RND+R/O" : how == 1 ? "STD+RND+R/O+OLD" : "STD+RND+R/O", how == 1 ? "RND" : "RND+R/O"); if (iun < 0) { fail("open %d", iun); continue; }
    int ni, nj, nk; trans(3);
    for (int k : o) {
      int h = c_fstinf(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", "BB"), r = -1; int b[64] = {0};
      if (h < 0) { fail("record not found"); break; }
      if (k == 0) r = c_fstecr(b, nullptr, -32, iun, DATE, 0, 0, 4, 1, 1, 1, 1, 1, "P", "BB", "LABEL", "X", 0, 0, 0, 0, 4, 0);
      else if (k == 1) r = c_fstecr(b, nullptr, -32, iun, DATE, 0, 0, 4, 1, 1, 1001, 6, 0x1234567, "P", "BB", "LABEL", "X", 0, 0, 0, 0, 4, 1);
      else if (k == 2) r = c_fsteff(h);
      else if (k == 3) r = c_fst_edit_dir(h, -1, -1, -1, -1, -1, -1, 7, -1, -1, " ", "ZZ", " ", " ", -1, -1, -1, -1, -1);
      else if (k == 4) { c_fstckp(iun); continue; }
      else { r = c_fstluk(b, h, &ni, &nj, &nk); r = r < 0 ? 0 : -1; }
      if (r >= 0) { fail("operation %d on a read-only file returns %d", k, r); break; }
    }
    eval(); cls(iun); chmod(F, 0644);
    if (slurp(F) != before) fail("the read-only file was changed");
    state(fmt("ro%d,%d", how, code)); outcome("read-only");
  }
}
int main(int c, char **v) {
  init(c, v);
  vector<Op> A, B;
  for (int k = 0; k < 3; k++) for (int s = 0; s < 2; s++) for (int r = 0; r < 2; r++) { if (k == 2 && (s || r)) continue; A.push_back(Op{'W', k, s, r}); }
  for (int k = 0; k < 2; k++) A.push_back(Op{'E', k, 0, 0});
  A.push_back(Op{'L'}); A.push_back(Op{'C'}); A.push_back(Op{'K'}); A.push_back(Op{'D', 0}); 
  vector<Op> s;
  rec("empty:", A, s, thorough ? 5 : 4);
  // around a directory page boundary (256 entries per page)
  for (int n : {254, 255, 256, 257, 511, 512}) { if (n > 500 && !thorough) continue; prefill(n); rec(fmt("after %d records:", n), A, s, thorough ? 3 : 2); }
  preM.clear(); pre.clear();
  meta(); edits(); odates(); readonly();
  return done();
}
