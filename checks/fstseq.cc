// F05: sequential standard files; every history of operations against a list of items and a position
#include "fst.hh"
using namespace vh; using namespace fst; using std::vector; using std::string;
static const int DATE = 405318490; static const char *F = "s1.fst";
static int iun = -1;
struct It { int mark, id, kind, ni; bool gone; };      // mark > 0: logical end of file of that level
struct M { vector<It> v; size_t pos = 0; int eof = -1; int cur = -1, curh = 0; int target = -9; };   // eof: -1 unknown; cur: record last found (its handle)
static bool KF; // the case at hand is the known finding: a mark in a sequential file beyond 32 MB
#define fail(...) (KF ? fail_sig("mark-beyond-32MB", fmt(__VA_ARGS__)) : (fail)(__VA_ARGS__))
static M m; static int serial; static vector<std::pair<int,int>> HND; // id -> handle, in the order found
static const char *NV[] = {"TT", "UU", "PX"};
static void data(vector<float> &d, int id, int ni) { d.resize(ni); for (int i = 0; i < ni; i++) d[i] = (id * 37 + i * 11) % 4093; }
static int SIZES[] = {3, 40, 1};
struct Op { const char *n; int t, a; };
enum { WR, WEO, RWD, APP, SKP, INF, SUI, EOFQ, LUK, CLO, ERA, INL, INFX, INF0, LIR, PRM, CLR };
static vector<Op> OPS = {{"write TT(3)", WR, 0}, {"write UU(40)", WR, 1}, {"mark level 1", WEO, 1}, {"mark level 15", WEO, 15}, {"rewind", RWD, 0}, {"append", APP, 0}, {"skip 1", SKP, 1}, {"skip -1", SKP, -1},
  {"find any", INF, -1}, {"find UU", INF, 1}, {"find next", SUI, 0}, {"read found", LUK, 0}, {"close, reopen", CLO, 0}, {"erase found", ERA, 0}, {"list", INL, 0}, {"find after first found", INFX, 0}, {"find from start TT", INF0, 0}, {"read next TT", LIR, 0}, {"skip 3", SKP, 3}, {"skip -2", SKP, -2}, {"close, reopen for reading", CLR, 0}, {"mark level 14", WEO, 14}};
static bool ro;
static bool opn_(bool r) { ro = r; iun = opn(F, r ? "STD+SEQ+R/O" : "STD+SEQ+R/W", r ? "SEQ+R/O" : "SEQ"); if (iun < 0) { fail("open: %d", iun); return false; } m.pos = 0; m.eof = -1; m.cur = -1; m.target = -9; HND.clear(); return true; }
static bool match(const It &i, int t) { return !i.mark && !i.gone && (t < 0 || i.kind == t); }
// what a search from the position does; returns index or -1
static int msearch(int t) {
  m.cur = -1;
  while (m.pos < m.v.size()) {
    It &i = m.v[m.pos];
    if (i.mark) { m.eof = i.mark; m.pos++; return -1; }
    if (match(i, t)) { m.eof = 0; return m.pos++; }
    m.pos++;
  }
  m.eof = 15; return -1;
}
static bool found(const char *w, int h, int want, int ni) {
  eval();
  if (want < 0) { if (h >= 0) { fail("%s finds record at handle %d, nothing should match", w, h); return false; } outcome("not found"); }
  else {
    if (h < 0) { fail("%s finds nothing (%d), record %d should match", w, h, m.v[want].id); return false; }
    if (ni != m.v[want].ni) { fail("%s: length %d of the record found, should be %d", w, ni, m.v[want].ni); return false; }
    Meta x; if (prm(h, x) < 0) { fail("%s: descriptors of the record found are refused", w); return false; }
    const It &i = m.v[want];
    if (x.ip1 != i.id || x.nomvar != NV[i.kind] || x.ni != i.ni || x.nj != 1 || x.nk != 1 || x.dateo != DATE || x.etiket != "SEQUENTIAL" || x.datyp != 5 || x.nbits != 32) { fail("%s: found %s, should be record %d", w, str(x).c_str(), i.id); return false; }
    m.cur = want; m.curh = h; HND.push_back({i.id, h}); outcome("found");
  }
  int e = c_fsteof(iun); if (e != m.eof) { fail("%s: end of file level is %d, should be %d", w, e, m.eof); return false; }
  return true;
}
static bool readcur(const char *w) {
  const It &i = m.v[m.cur]; vector<float> b(i.ni + 1, -7.f), d; int ni, nj, nk; data(d, i.id, i.ni); int r = c_fstluk(b.data(), m.curh, &ni, &nj, &nk); eval();
  if (r < 0 || ni != i.ni || memcmp(b.data(), d.data(), 4 * i.ni) || b[i.ni] != -7.f) { fail("%s: record %d is not read as written (%d)", w, i.id, r); return false; } return true;
}
static const int BIG = 60;
static bool apply(const Op &o) {
  trans(); int ni = -1, nj, nk; const char *w = o.n;
  switch (o.t) {
    case WR: { It i{0, ++serial, o.a, SIZES[o.a], false}; vector<float> d; data(d, i.id, i.ni); int r = c_fstecr(d.data(), nullptr, -32, iun, DATE, 0, 0, i.ni, 1, 1, i.id, 6, 7, "P", NV[i.kind], "SEQUENTIAL", "X", 1, 2, 3, 4, 5, 0);
      if (ro) { if (r >= 0) { fail("%s is accepted by a file open for reading", w); return false; } return true; }
      if (r < 0) { fail("%s: %d", w, r); return false; } m.v.resize(m.pos); m.v.push_back(i); m.pos++; m.cur = -1; m.eof = -1; return true; }
    case WEO: { int r = c_fstweo(iun, o.a); if (ro) { if (r >= 0) { fail("%s is accepted by a file open for reading", w); return false; } return true; } if (r < 0) { fail("%s: %d", w, r); return false; } m.v.resize(m.pos); if (o.a < 15) { m.v.push_back({o.a, 0, 0, 0, false}); m.pos++; } m.cur = -1; m.eof = -1; return true; }
    case RWD: if (c_fstrwd(iun) < 0) { fail("rewind refused"); return false; } m.pos = 0; m.cur = -1; m.eof = -1; return true;
    case APP: if (c_fstapp(iun, "") < 0) { fail("append refused"); return false; } m.cur = -1; while (m.pos < m.v.size() && !m.v[m.pos].mark) m.pos++; m.eof = m.pos < m.v.size() ? m.v[m.pos].mark : 15; if (c_fsteof(iun) != m.eof) { fail("after append: end of file level %d, should be %d", c_fsteof(iun), m.eof); return false; } return true;
    case SKP: { int r = c_fstskp(iun, o.a); bool mk = false; m.cur = -1; m.eof = -1;
      if (o.a > 0) for (int k = 0; k < o.a && m.pos < m.v.size() && !m.v[m.pos].mark; k++) m.pos++;
      else for (int k = 0; k < -o.a && m.pos > 0; k++) { if (m.v[m.pos - 1].mark) { mk = true; break; } m.pos--; }
      if (r < 0 && !mk) { fail("%s: %d", w, r); return false; } return true; }
    case INF: { m.target = o.a; int k = msearch(o.a); int h = c_fstinf(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", o.a < 0 ? " " : NV[o.a]); return found(w, h, k, ni); }
    case INF0: { m.target = o.a; m.pos = 0; int k = msearch(o.a); int h = c_fstinfx(0, iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", NV[o.a]); return found(w, h, k, ni); }
    case INFX: { if (HND.empty()) return true; int id = HND[0].first; size_t p = 0; for (; p < m.v.size(); p++) if (!m.v[p].mark && m.v[p].id == id) break; if (p == m.v.size()) return true;
      m.target = -1; m.pos = p + 1; int k = msearch(-1); int h = c_fstinfx(HND[0].second, iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " "); return found(w, h, k, ni); }
    case SUI: { if (m.target == -9) return true; int k = msearch(m.target); int h = c_fstsui(iun, &ni, &nj, &nk); return found(w, h, k, ni); }
    case LUK: if (m.cur < 0) return true; return readcur(w);
    case LIR: { m.target = o.a; int k = msearch(o.a); vector<float> b(BIG, -7.f), d; int h = c_fstlir(b.data(), iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", NV[o.a]); if (!found(w, h, k, ni)) return false;
      if (k >= 0) { data(d, m.v[k].id, m.v[k].ni); if (memcmp(b.data(), d.data(), 4 * d.size()) || b[d.size()] != -7.f) { fail("%s: record %d is not read as written", w, m.v[k].id); return false; } } return true; }
    case INL: { m.target = -1; vector<int> want; int k; while ((k = msearch(-1)) >= 0) want.push_back(m.v[k].id); int n = -1; static int L[64]; int r = c_fstinl(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " ", L, &n, 64); eval();
      m.cur = -1; if (r < 0 || n != (int)want.size()) { fail("%s finds %d records (%d), should be %zu", w, n, r, want.size()); return false; } return true; }
    case ERA: { if (m.cur < 0) return true; int r = c_fsteff(m.curh); if (ro) { if (r >= 0) { fail("%s is accepted by a file open for reading", w); return false; } return true; } if (r < 0) { fail("%s: %d", w, r); return false; } m.v[m.cur].gone = true; m.cur = -1; return true; }
    case CLO: case CLR: { int r = cls(iun); iun = -1; if (r < 0) { fail("close: %d", r); return false; } return opn_(o.t == CLR); }
  }
  return true;
}
// everything from the start, and after closing
static bool audit(const char *w) {
  if (c_fstrwd(iun) < 0) { fail("%s: rewind", w); return false; } m.pos = 0; m.target = -1; size_t marks = 0; for (auto &i : m.v) marks += i.mark > 0; int ni, nj, nk;
  for (size_t n = 0; n <= marks; n++) for (;;) { int k = msearch(-1); int h = c_fstinf(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " "); if (!found(w, h, k, ni)) return false; if (k < 0) break; if (!readcur(w)) return false; }
  int h = c_fstinf(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " "); if (h >= 0) { fail("%s: a record is found after the end of the file", w); return false; }
  return true;
}
static bool play(const vector<int> &pre, const vector<int> &q) {
  string d; for (int k : pre) d += string(d.empty() ? "" : ", ") + OPS[k].n; if (!pre.empty()) d += " | "; bool first = true; for (int k : q) { d += string(first ? "" : ", ") + OPS[k].n; first = false; } describe(d);
  unlink(F); m = M(); serial = 0; if (!opn_(false)) return false;
  bool ok = true; for (int k : pre) if (ok) ok = apply(OPS[k]); for (int k : q) if (ok) ok = apply(OPS[k]);
  string s; for (auto &i : m.v) s += i.mark ? fmt("m%d", i.mark) : fmt("%d%c", i.kind, i.gone ? 'x' : ' '); state(hash(s + fmt("/%zu/%d/%d", m.pos, m.cur, m.target)));
  ok = ok && audit("from the start");
  if (iun > 0) { int r = cls(iun); iun = -1; if (ok && r < 0) { fail("close: %d", r); ok = false; } }
  if (ok && opn_(true)) { ok = audit("after closing"); cls(iun); iun = -1; }
  return ok;
}
static bool rec(const vector<int> &pre, vector<int> &q, int depth, int nops) {
  if ((int)q.size() == depth) return play(pre, q);
  for (int k = 0; k < nops; k++) { q.push_back(k); if (!rec(pre, q, depth, nops)) return false; q.pop_back(); }
  return true;
}
int main(int c, char **v) {
  init(c, v); if (!getenv("VH_KEEP_ERR")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn); }
  int NO = OPS.size();
  struct P { const char *n; vector<int> p; int dq, dt; } ps[] = {{"new file", {}, 4, 5}, {"three records", {0, 1, 0, 4}, 4, 5}, {"three records, reopened", {0, 1, 0, 12}, 3, 4}, {"records and marks", {0, 1, 2, 0, 21, 1, 4}, 4, 5}, {"marks first", {2, 2, 0, 2, 4}, 3, 4}, {"erased", {0, 1, 0, 4, 8, 13, 8, 4}, 3, 4}};
  for (auto &p : ps) for (int i = 0; i < NO; i++) for (int j = 0; j < NO; j++) {
    if (!begin("%s, histories starting with %s, %s", p.n, OPS[i].n, OPS[j].n)) continue;
    isolated([&] { vector<int> q{i, j}; rec(p.p, q, thorough ? p.dt : p.dq, NO); });
  }
  // a random-access file opened as a sequential one
  for (int n : {0, 1, 2, 3, 5, 255, 256, 257, 300}) for (int er = 0; er < 8; er++) {
    if (n > 5 && er > 3) continue;
    if (!begin("random-access file of %d records, erasures %d, read sequentially", n, er)) continue;
    isolated([&] { unlink(F); m = M(); serial = 0; iun = opn(F, "STD+RND+R/W", "RND"); vector<It> rs; int ni, nj, nk;
      for (int k = 0; k < n; k++) { It i{0, ++serial, k % 3, 1 + k % 7, false}; vector<float> d; data(d, i.id, i.ni); if (c_fstecr(d.data(), nullptr, -32, iun, DATE, 0, 0, i.ni, 1, 1, i.id, 6, 7, "P", NV[i.kind], "SEQUENTIAL", "X", 1, 2, 3, 4, 5, 0) < 0) { fail("write"); return; } rs.push_back(i); }
      for (int k = 0; k < n; k++) if ((er >> (k % 3)) & 1) { int h = c_fstinf(iun, &ni, &nj, &nk, -1, " ", rs[k].id, -1, -1, " ", " "); if (h < 0 || c_fsteff(h) < 0) { fail("erase"); return; } rs[k].gone = true; }
      cls(iun); for (int pass = 0; pass < 2; pass++) { if (pass == 0) { if (!opn_(true)) return; } else if (c_fstrwd(iun) < 0) { fail("rewind"); return; } m.v = rs; m.pos = 0; trans();
        for (;;) { int k = msearch(-1); int h = c_fstinf(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " "); if (k < 0) { eval(); if (h >= 0) { fail("a record too many is found"); return; } break; } if (!found("search", h, k, ni) || !readcur("search")) return; } }
      cls(iun); });
  }
  // records on both sides of the sizes where the granularity of addresses changes
  struct { int mb; bool quick; } bg[] = {{32, true}, {128, false}, {512, false}};
  for (auto &b : bg) for (int off = -12; off <= 12; off += thorough ? 1 : 3) for (int mk = 0; mk < 2; mk++) {
    if (!thorough && !b.quick) continue; if (b.mb == 512 && off % 4) continue;
    if (!begin("first records end %d words from %d megabytes%s", off, b.mb, mk ? ", with marks" : "")) continue;
    isolated([&] { KF = mk; unlink(F); m = M(); serial = 0; if (!opn_(false)) return; long words = (long)b.mb << 18; vector<float> big; long at = 32; int kk = 0;
      auto w = [&](int ni) { It i{0, ++serial, kk++ % 3, ni, false}; vector<float> d; data(d, i.id, i.ni); int r = c_fstecr(d.data(), nullptr, -32, iun, DATE, 0, 0, i.ni, 1, 1, i.id, 6, 7, "P", NV[i.kind], "SEQUENTIAL", "X", 1, 2, 3, 4, 5, 0); trans(); if (r < 0) { fail("write of %d points: %d", ni, r); return false; } m.v.push_back(i); m.pos++; return true; };
      while (words - at > (6 << 18)) { if (!w(5 << 18)) return; at += (5 << 18) + 40; } // the writer keeps a record on its stack
      if (!w(words - at + off - 200)) return;
      for (int k = 0; k < 14; k++) { if (!w(1 + (k * 5) % 9)) return; if (mk && k % 4 == 1) { if (c_fstweo(iun, 1 + k % 3) < 0) { fail("mark"); return; } m.v.push_back({1 + k % 3, 0, 0, 0, false}); m.pos++; } }
      if (!audit("from the start")) return; vector<std::pair<int,int>> H = HND; int ni, nj, nk;
      for (auto &p : H) { m.cur = -1; size_t k = 0; while (m.v[k].mark || m.v[k].id != p.first) k++; m.pos = k + 1; int x = msearch(-1); int h = c_fstinfx(p.second, iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " "); if (!found("search after a handle", h, x, ni)) return; }
      int r = cls(iun); if (r < 0) { fail("close: %d", r); return; } if (opn_(true)) { audit("after closing"); cls(iun); } unlink(F); });
  }
  return done();
}
