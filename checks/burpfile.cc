// B02: BURP files, every history of put / rewrite / delete / close and reopen, against a list of reports
#include "vh.h"
#include <rmn/burp.h>
using namespace vh; using std::vector; using std::string;
extern "C" { int c_fnom(int *, const char *, const char *, int); int c_fclos(int); int c_mrfbfl(int); }
static string path; static int iun; static bool open_ = false, ro = false;
struct R { string stn; int idtp, lat, lon, dx, dy, date, temps, flgs, elev, drcv, oars, runn; int blocks, size; };
static vector<R> KINDS = {{"AAAA", 1, 100, 200, 3, 4, 20250101, 1230, 5, 6, 7, 8, 9, 1, 1}, {"AAAB", 1, 100, 201, 0, 0, 20250101, 1259, 0, 0, 0, 0, 0, 2, 30}, {"AAAA", 2, 0, 65535, 4095, 4095, 991231, 0, 0xffffff, 8191, 2047, 65535, 255, 0, 0}, {"ZZ  AAAA9", 255, 100, 200, 1, 1, 20250102, 2300, 1, 1, 1, 1, 1, 1, 200}};
struct Rec { R r; int serial; int handle; bool live; };
struct M { vector<Rec> v; long nbig = 0; int serial = 0; };
static vector<uint32_t> build(const R &r, int serial, int pad = 0) { vector<uint32_t> b(600 + pad, 0); b[0] = b.size(); char s[12]; strcpy(s, r.stn.c_str());
  c_mrbini(iun, (int *)b.data(), r.temps, r.flgs, s, r.idtp, r.lat, r.lon, r.dx, r.dy, r.elev, r.drcv, r.date, r.oars, r.runn, nullptr, 0, nullptr, 0);
  for (int k = 0; k < r.blocks; k++) { vector<uint32_t> l{(uint32_t)(1000 + k), 2000, 3000, 4000}, v(4 * (r.size + k)); for (size_t i = 0; i < v.size(); i++) v[i] = i % 5 == 4 ? -1u : (serial * 31 + i * 7 + k) & 0xfff; int bk, b0; c_mrbadd(b.data(), &bk, 4, r.size + k, 1, k + 1, 0, 106 + k, 13, &b0, 2, l.data(), v.data()); }
  return b; }
static long reclen(const R &r) { long n = 10; for (int k = 0; k < r.blocks; k++) n += 4 + 2 + ((long)4 * (r.size + k) * 13 + 63) / 64 * 2; return n; }
static string pad9(string s) { s.resize(9, ' '); return s; }
static int disp(int d) { return d; }
static bool same(const Rec &e, uint32_t *b, const char *w) { int t, f, id, la, lo, dx, dy, el, dr, da, oa, ru, nb; char s[12] = {0}; c_mrbhdr(b, &t, &f, s, &id, &la, &lo, &dx, &dy, &el, &dr, &da, &oa, &ru, &nb, nullptr, 0, nullptr, 0); const R &r = e.r; eval();
  if (string(s, 9) != pad9(r.stn) || t != r.temps || f != r.flgs || id != r.idtp || la != r.lat || lo != r.lon || dx != r.dx || dy != r.dy || el != r.elev || dr != r.drcv || da != disp(r.date) || oa != r.oars || ru != r.runn || nb != r.blocks) { fail("%s: the report read has header '%s' %d %x %d %d %d %d %d %d %d %d %d %d and %d blocks", w, s, t, f, id, la, lo, dx, dy, el, dr, da, oa, ru, nb); return false; }
  for (int k = 0; k < nb; k++) { vector<uint32_t> l(4), v(4 * (r.size + k)); if (c_mrbxtr(b, k + 1, l.data(), v.data())) { fail("%s: mrbxtr refused", w); return false; } if (l[0] != 1000u + k || l[3] != 4000) { fail("%s: elements of block %d", w, k + 1); return false; } for (size_t i = 0; i < v.size(); i++) if (v[i] != (i % 5 == 4 ? -1u : (e.serial * 31 + i * 7 + k) & 0xfff)) { fail("%s: block %d value %zu is %d", w, k + 1, i, (int)v[i]); return false; } }
  return true; }
static int loc(int h, const char *st, int id, int la, int lo, int da, int te) { char s[12]; strcpy(s, st); return c_mrfloc(iun, h, s, id, la, lo, da, te, nullptr, 0); }
static bool audit(M &m, const char *w, bool full) {
  int live = 0; long big = 0; for (auto &e : m.v) if (e.live) { live++; big = std::max(big, reclen(e.r)); }
  eval(); int n = c_mrfnbr(iun); if (n != live) { fail("%s: mrfnbr says %d reports, should be %d", w, n, live); return false; }
  int mx = c_mrfmxl(iun); if (mx != m.nbig) { fail("%s: mrfmxl says %d words, longest report written has %ld", w, mx, m.nbig); return false; } if (c_mrfbfl(iun) != mx + 10) { fail("%s: mrfbfl %d", w, c_mrfbfl(iun)); return false; }
  int h = 0; for (auto &e : m.v) if (e.live) { h = loc(h, "*********", -1, -1, -1, -1, -1); if (h <= 0) { fail("%s: search for all reports ended early (%d)", w, h); return false; } if (e.handle && e.handle != h) { fail("%s: handle of a report changed", w); return false; } e.handle = h;
    vector<uint32_t> b(mx + 10 + 1, 0); b[0] = mx + 10; b.back() = 0x5afe; int rc = c_mrfget(h, b.data()); if (rc) { fail("%s: mrfget returns %d with a buffer of mrfbfl words", w, rc); return false; } if (b.back() != 0x5afe) { fail("%s: mrfget wrote past the buffer", w); return false; } if (!same(e, b.data(), w)) return false;
    int id, la, lo, dx, dy, da, te, fl, ln; char s[12] = "xxxxxxxxx"; s[9] = 0; rc = c_mrfprm(h, s, &id, &la, &lo, &dx, &dy, &da, &te, &fl, nullptr, 0, &ln); const R &r = e.r; if (rc || string(s, 9) != pad9(r.stn) || id != r.idtp || la != r.lat || lo != r.lon || dx != r.dx || dy != r.dy || da != disp(r.date) || te != r.temps || fl != r.flgs || ln != reclen(r)) { fail("%s: mrfprm returns %d '%s' %d %d %d %d %d %d %d %x %d", w, rc, s, id, la, lo, dx, dy, da, te, fl, ln); return false; }
    vector<uint32_t> sm(reclen(r) + 9 + 1, 0x77); sm[0] = reclen(r) + 8; sm[1] = 0; if (reclen(r) > 10) { rc = c_mrfget(h, sm.data()); if (rc >= 0) { fail("%s: mrfget accepts a buffer that is too small", w); return false; } if (sm[reclen(r) + 8] != 0x77) { fail("%s: mrfget wrote past a small buffer", w); return false; } sm[0]++; rc = c_mrfget(h, sm.data()); if (rc || sm.back() != 0x77) { fail("%s: mrfget returns %d with a buffer of exactly the right size", w, rc); return false; } if (!same(e, sm.data(), w)) return false; } }
  if (loc(h, "*********", -1, -1, -1, -1, -1) >= 0 && h) { fail("%s: search finds more reports than there are", w); return false; }
  for (auto &e : m.v) if (!e.live && e.handle) { vector<uint32_t> b(600, 0); b[0] = 600; if (c_mrfget(e.handle, b.data()) >= 0) { fail("%s: a deleted report can still be read", w); return false; } }
  if (!full) return true;
  struct C { const char *s; int id, la, lo, da, te; }; static vector<C> cs; if (cs.empty()) for (const char *s : {"*********", "AAAA", "AAAB", "AAA******", "AA*A*****", "aaaa", "ZZ  AAAA9", "*********", "B"}) for (auto c : vector<C>{{s, -1, -1, -1, -1, -1}, {s, 1, -1, -1, -1, -1}, {s, -1, 100, -1, -1, -1}, {s, -1, 0, 65535, -1, -1}, {s, -1, -1, 200, 20250101, -1}, {s, -1, -1, -1, 991231, -1}, {s, -1, -1, -1, -1, 1200}, {s, -1, -1, -1, -1, 0}, {s, 255, 100, 200, 20250102, 2359}, {s, -1, -1, -1, 19991231, 0}}) cs.push_back(c);
  for (auto &c : cs) for (size_t from = 0; from <= m.v.size(); from++) { int h0 = 0; if (from) { if (!m.v[from - 1].live) continue; h0 = m.v[from - 1].handle; } int want = -1; string p; for (const char *q = c.s; *q; q++) p += toupper(*q); p = pad9(p);
      for (size_t i = from; i < m.v.size() && want < 0; i++) { auto &e = m.v[i]; if (!e.live) continue; string s = pad9(e.r.stn); bool ok = true; for (int k = 0; k < 9; k++) if (p[k] != '*' && p[k] != s[k]) ok = false; int da = c.da > 999999 && c.da < 20000000 ? c.da - 19000000 : c.da; if (ok && (c.id < 0 || c.id == e.r.idtp) && (c.la < 0 || c.la == e.r.lat) && (c.lo < 0 || c.lo == e.r.lon) && (da < 0 || da == e.r.date) && (c.te < 0 || c.te / 100 == e.r.temps / 100)) want = e.handle; }
      eval(); int got = loc(h0, c.s, c.id, c.la, c.lo, c.da, c.te); if (want < 0 ? got >= 0 : got != want) { fail("%s: mrfloc('%s',%d,%d,%d,%d,%d) from report %zu gives %d, should be %d", w, c.s, c.id, c.la, c.lo, c.da, c.te, from, got, want); return false; } }
  return true; }
static bool op_open(const char *mode, int want, const char *w) { iun = 0; if (c_fnom(&iun, path.c_str(), "RND", 0)) { fail("%s: fnom", w); return false; } char md[10]; strcpy(md, mode); int rc = c_mrfopn(iun, md); if (rc != want) { fail("%s: mrfopn(%s) returns %d, should be %d", w, mode, rc, want); return false; } open_ = true; ro = !strcmp(mode, "READ"); return true; }
static void op_close() { if (!open_) return; c_mrfcls(iun); c_fclos(iun); open_ = false; }
struct Op { int o, a, b; };
static string ostr(const Op &o) { static const char *N[] = {"put report kind", "rewrite report", "delete report", "close and reopen", "put unchanged report"}; return fmt("%s %d%s", N[o.o], o.a, o.o == 1 ? fmt(" as kind %d", o.b).c_str() : o.o == 3 ? o.a ? " (READ)" : " (APPEND)" : ""); }
static bool step(M &m, const Op &o, const char *w) { trans(); int rc; int lived = 0; for (auto &e : m.v) lived += e.live;
  switch (o.o) {
    case 0: { int sr = ++m.serial; auto b = build(KINDS[o.a], sr); rc = c_mrfput(iun, 0, b.data()); if ((rc == 0) == ro) { fail("%s: mrfput returns %d", w, rc); return false; } if (!ro) { m.v.push_back({KINDS[o.a], sr, 0, true}); m.nbig = std::max(m.nbig, reclen(KINDS[o.a])); } outcome(ro ? "put refused in a file open for reading" : "put"); break; }
    case 1: { int sr = ++m.serial; auto b = build(KINDS[o.b], sr); auto &e = m.v[o.a]; bool ok = e.live && !ro; int hh = e.handle; rc = c_mrfput(iun, m.serial % 2 ? hh : -hh, b.data()); if ((rc == 0) != ok) { fail("%s: mrfput over a report returns %d", w, rc); return false; } if (ok) { m.v[o.a].live = false; m.v.push_back({KINDS[o.b], sr, 0, true}); m.nbig = std::max(m.nbig, reclen(KINDS[o.b])); } outcome(ok ? "rewritten" : "rewriting refused"); break; }
    case 2: { auto &e = m.v[o.a]; bool ok = e.live && !ro; rc = c_mrfdel(e.handle); if ((rc >= 0) != ok) { fail("%s: mrfdel returns %d", w, rc); return false; } if (ok) e.live = false; outcome(ok ? "deleted" : "deletion refused"); break; }
    case 3: op_close(); for (auto &e : m.v) if (e.live) e.handle = 0; else e.handle = 0; if (!op_open(o.a ? "READ" : "APPEND", lived, w)) return false; outcome("reopened"); break; }
  return audit(m, w, false); }
static vector<Op> OPS;
static bool replay(const vector<int> &h, M &m) { unlink(path.c_str()); op_close(); if (!op_open("CREATE", 0, "create")) return false; string d; for (int k : h) { d += ostr(OPS[k]) + "; "; describe(d); auto &o = OPS[k]; if ((o.o == 1 || o.o == 2) && (o.a >= (int)m.v.size() || !m.v[o.a].handle)) return false; if (!step(m, o, ostr(o).c_str())) return false; } return true; }
static void explore(const vector<int> &h, int depth) { M m; if (!replay(h, m)) { op_close(); return; } string key; for (auto &e : m.v) key += fmt("%s%d,%d;", e.r.stn.c_str(), e.r.idtp, e.live); state(key + (ro ? "r" : "w"));
  bool ok = audit(m, "at the end", true); if (ok) { op_close(); for (auto &e : m.v) e.handle = 0; int lived = 0; for (auto &e : m.v) lived += e.live; ok = op_open("READ", lived, "last reopening") && audit(m, "after reopening", true); } op_close();
  if (ok && depth) for (size_t k = 0; k < OPS.size() && !failed_in_case; k++) { auto g = h; g.push_back(k); explore(g, depth - 1); } }
int main(int argc, char **argv) { init(argc, argv); string dir = fmt("/tmp/vh_burpf_%d", getpid()); mkdir(dir.c_str(), 0777); path = dir + "/f";
  for (int k = 0; k < 4; k++) OPS.push_back({0, k, 0}); for (int k = 0; k < 3; k++) for (int q : {0, 1}) OPS.push_back({1, k, k == 2 ? 3 - q : q}); for (int k = 0; k < 3; k++) OPS.push_back({2, k, 0}); OPS.push_back({3, 0, 0}); OPS.push_back({3, 1, 0}); int n = OPS.size();
  for (int i = -1; i < n; i++) for (int j = -1; j < n; j++) { if (i < 0 && j >= 0) continue; if (!begin("%s; %s", i < 0 ? "nothing" : ostr(OPS[i]).c_str(), j < 0 ? "" : ostr(OPS[j]).c_str())) continue; if (i < 0) explore({}, 0); else if (j < 0) explore({i}, 0); else explore({i, j}, thorough ? 3 : 2); }
  // a file whose directory has several pages
  // letters of either case at each of the nine places of the station, as put and as searched
  if (begin("station letters")) { M m; vector<int> none; bool ok = replay(none, m); const char *A = "ABCDEFGHZ", *B = "abcdefghz";
    for (int k = 0; ok && k < 18; k++) { R r = KINDS[0]; string s = k & 1 ? B : A; s[k / 2] = k & 1 ? 'Y' : 'y'; r.stn = s; auto b = build(r, ++m.serial); ok = c_mrfput(iun, 0, b.data()) == 0; r.stn = string(A); r.stn[k / 2] = 'Y'; m.v.push_back({r, m.serial, 0, true}); m.nbig = std::max(m.nbig, reclen(r)); }
    if (!ok) fail("put refused"); else if (audit(m, "letters of either case", false))
      for (int k = 0; ok && k < 9; k++) for (int mix = 0; ok && mix < 4; mix++) { string q = mix == 3 ? "*********" : mix & 1 ? B : A; q[k] = mix & 2 ? 'y' : 'Y'; int want = -1, want2 = -1; for (auto &e : m.v) if (e.r.stn[k] == 'Y') { if (want < 0) want = e.handle; else if (want2 < 0) want2 = e.handle; }
        eval(2); int g = loc(0, q.c_str(), -1, -1, -1, -1, -1), g2 = g > 0 ? loc(g, q.c_str(), -1, -1, -1, -1, -1) : g; if (g != want || g2 != want2) { fail("mrfloc('%s') finds %d then %d, should be %d then %d", q.c_str(), g, g2, want, want2); ok = false; } }
    op_close(); }
  if (begin("many reports")) { M m; vector<int> none; if (replay(none, m)) { bool ok = true; for (int i = 0; ok && i < 600; i++) { int sr = ++m.serial; R r = KINDS[i % 4]; r.lat = i; auto b = build(r, sr); ok = c_mrfput(iun, 0, b.data()) == 0; m.v.push_back({r, sr, 0, true}); m.nbig = std::max(m.nbig, reclen(r)); } if (!ok) fail("put refused"); else if (audit(m, "600 reports", false)) { for (int i = 0; i < 600; i += 3) { c_mrfdel(m.v[i].handle); m.v[i].live = false; } if (audit(m, "a third deleted", false)) { op_close(); for (auto &e : m.v) e.handle = 0; if (op_open("APPEND", 400, "reopen")) audit(m, "reopened", false); } } } op_close(); }
  op_close(); unlink(path.c_str()); rmdir(dir.c_str()); return done(); }
