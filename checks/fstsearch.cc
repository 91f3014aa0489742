// F02: searches. All wildcard/value patterns over a file holding every combination of two
// values per key; single-bit and single-character distinctness; masks; histories of
// interleaved searches on two files; linked files.
#include "fst.hh"
using namespace vh; using namespace fst; using std::vector;
extern "C" { int fstlnk_(int *, int *); int fstunl_(); int c_ip1_all(float, int); int c_ip2_all(float, int); int c_ip3_all(float, int); void c_fstreset_ip_flags(void); int c_ip1_val(float, int); }
struct K { int date; string et; int ip1, ip2, ip3; string tv, nv; };
struct R : K { int id, erased; };
static const int D0 = 405318490; // multiple of 10: hour-resolution stamp
static int put(int iun, const K &k, int id, int ni = 2, const char *gt = "Z", int ig = 0) {
  int b[8]; for (int i = 0; i < 8; i++) b[i] = id * 31 + i;
  return c_fstecr(b, nullptr, -32, iun, k.date, 0, 0, ni, 1, 1, k.ip1, k.ip2, k.ip3, k.tv.c_str(), k.nv.c_str(), k.et.c_str(), gt, ig, ig, ig, id, 4, 0);
}
static string ks(const K &k) { return fmt("date=%d et='%s' ip=%d,%d,%d tv='%s' nv='%s'", k.date, k.et.c_str(), k.ip1, k.ip2, k.ip3, k.tv.c_str(), k.nv.c_str()); }
static int datekey(int d) { unsigned u = d; return (8 * (u / 10) + u % 10) >> 3; }
static bool match(const K &q, const K &r) {
  if (q.date != -1 && datekey(q.date) != datekey(r.date)) return false;
  if (q.ip1 != -1 && q.ip1 != r.ip1) return false;
  if (q.ip2 != -1 && q.ip2 != r.ip2) return false;
  if (q.ip3 != -1 && q.ip3 != r.ip3) return false;
  if (rtrim(q.et) != "" && rtrim(q.et) != rtrim(r.et)) return false;
  if (rtrim(q.tv) != "" && rtrim(q.tv) != rtrim(r.tv)) return false;
  if (rtrim(q.nv) != "" && rtrim(q.nv) != rtrim(r.nv)) return false;
  return true;
}
static int idof(int h) { Meta m; if (prm(h, m) < 0) return -1; return m.ig4; }
static int inf(int iun, const K &q) { int a, b, c; return c_fstinf(iun, &a, &b, &c, q.date, q.et.c_str(), q.ip1, q.ip2, q.ip3, q.tv.c_str(), q.nv.c_str()); }
static int infx(int h, int iun, const K &q) { int a, b, c; return c_fstinfx(h, iun, &a, &b, &c, q.date, q.et.c_str(), q.ip1, q.ip2, q.ip3, q.tv.c_str(), q.nv.c_str()); }
static int sui(int iun) { int a, b, c; return c_fstsui(iun, &a, &b, &c); }
static bool readok(int h, int id) { int b[8] = {0}, a, c, d; int r = c_fstluk(b, h, &a, &c, &d); return r >= 0 && b[0] == id * 31 && b[1] == id * 31 + 1; }
// All ways of enumerating the matches of q give exactly `want` (ids in file order)
static bool enumerate(int iun, const K &q, const vector<int> &want, bool deep) {
  vector<int> got, H; eval();
  for (int h = inf(iun, q); h >= 0; h = sui(iun)) { got.push_back(idof(h)); H.push_back(h); if (got.size() > want.size() + 2) break; }
  auto sh = [&](const vector<int> &x) { string s; for (int i : x) s += fmt("%d ", i); return s; };
  if (got != want) { fail("search %s finds records %s, the matching records are %s", ks(q).c_str(), sh(got).c_str(), sh(want).c_str()); return false; }
  if (sui(iun) >= 0) { fail("search %s continues after reporting the end", ks(q).c_str()); return false; }
  if (!deep) return true;
  vector<int> L(want.size() + 4, -7); int a = 0, b = 0, c = 0, n = -1;
  c_fstinl(iun, &a, &b, &c, q.date, q.et.c_str(), q.ip1, q.ip2, q.ip3, q.tv.c_str(), q.nv.c_str(), L.data(), &n, want.size() + 1);
  if (n != (int)H.size() || !std::equal(H.begin(), H.end(), L.begin()) || L[n] != -7) { fail("list search %s returns %d handles, not the %zu of the step search", ks(q).c_str(), n, H.size()); return false; }
  if (want.size() > 1) {
    std::fill(L.begin(), L.end(), -7); int r = c_fstinl(iun, &a, &b, &c, q.date, q.et.c_str(), q.ip1, q.ip2, q.ip3, q.tv.c_str(), q.nv.c_str(), L.data(), &n, want.size() - 1);
    if (r != -(int)want.size() || L[want.size() - 1] != -7) { fail("list search %s with room for one too few: rc %d for %zu matches, slot after the list %d", ks(q).c_str(), r, want.size(), L[want.size() - 1]); return false; }
  }
  for (size_t i = 0; i + 1 < H.size() + 1; i++) { // from each handle the next one follows
    int h = infx(i == 0 ? 0 : H[i - 1], iun, q); if (h != H[i]) { fail("search %s from handle %zu gives record %d, expected %d", ks(q).c_str(), i, h < 0 ? h : idof(h), want[i]); return false; }
  }
  if (!H.empty()) { int h = infx(H.back(), iun, q); if (h >= 0) { fail("search %s from the last match finds record %d", ks(q).c_str(), idof(h)); return false; } }
  int buf[8] = {0};
  int h = c_fstlir(buf, iun, &a, &b, &c, q.date, q.et.c_str(), q.ip1, q.ip2, q.ip3, q.tv.c_str(), q.nv.c_str());
  for (size_t i = 0; i < want.size(); i++) {
    if (h != H[i] || buf[0] != want[i] * 31 || a != 2 || b != 1 || c != 1) { fail("reading match %zu of %s gives handle %d data %d", i, ks(q).c_str(), h, buf[0] / 31); return false; }
    buf[0] = -1; h = c_fstlis(buf, iun, &a, &b, &c);
  }
  if (h >= 0) { fail("reading past the last match of %s succeeds", ks(q).c_str()); return false; }
  for (size_t i = 0; i < want.size(); i++) { buf[0] = -1; h = c_fstlirx(buf, i ? H[i - 1] : 0, iun, &a, &b, &c, q.date, q.et.c_str(), q.ip1, q.ip2, q.ip3, q.tv.c_str(), q.nv.c_str()); if (h != H[i] || buf[0] != want[i] * 31) { fail("read from handle: match %zu of %s gives %d", i, ks(q).c_str(), h); return false; } }
  return true;
}
static const K V0{D0, "LABELA", 100, 200, 300, "P", "AA"}, V1{D0 + 10, "LABELB", 101, 201, 301, "A", "AB"};
static K mix(int m) { K k = V0; if (m & 1) k.date = V1.date; if (m & 2) k.et = V1.et; if (m & 4) k.ip1 = V1.ip1; if (m & 8) k.ip2 = V1.ip2; if (m & 16) k.ip3 = V1.ip3; if (m & 32) k.tv = V1.tv; if (m & 64) k.nv = V1.nv; return k; }
static int iun;
static void combos() {
  bool first = true;
  for (int code = 0; code < 16384; code++) {
    K q; int v[7]; for (int i = 0, c = code; i < 7; i++, c >>= 2) v[i] = c & 3;
    if (!begin("file with all 128 key combinations, pattern %d%d%d%d%d%d%d", v[0], v[1], v[2], v[3], v[4], v[5], v[6])) continue;
    if (first) { unlink("f2.fst"); int u = opn("f2.fst", "STD+RND", "RND"); for (int m = 0; m < 128; m++) put(u, mix(m), m);
      // every third record is erased again
      for (int m = 0; m < 128; m += 3) { K k = mix(m); int h = inf(u, k); c_fsteff(h); } cls(u); first = false; }
    iun = opn("f2.fst", "STD+RND+R/O", "RND+R/O"); if (iun < 0) { fail("open %d", iun); continue; }
    auto I = [&](int i, int a, int b) { return v[i] == 0 ? -1 : v[i] == 1 ? a : v[i] == 2 ? b : 77; };
    auto S = [&](int i, const string &a, const string &b) { return v[i] == 0 ? string(code & 1 ? "" : "    ") : v[i] == 1 ? a : v[i] == 2 ? b : string("QQ"); };
    q.date = v[0] == 3 ? D0 + 990 : I(0, V0.date, V1.date); q.et = S(1, V0.et, V1.et); q.ip1 = I(2, 100, 101); q.ip2 = I(3, 200, 201); q.ip3 = I(4, 300, 301); q.tv = S(5, V0.tv, V1.tv); q.nv = S(6, V0.nv, V1.nv);
    vector<int> want; for (int m = 0; m < 128; m++) if (m % 3 && match(q, mix(m))) want.push_back(m);
    trans(); enumerate(iun, q, want, true); cls(iun); outcome(fmt("%zu matches", want.size())); state(fmt("c%d", code));
  }
}
// two records that differ in one bit/character of one key are told apart, with every other key wild
static void distinct() {
  auto one = [&](const string &what, const K &a, const K &b, const K &q1, const K &q2) {
    if (!begin_s("distinct " + what)) return;
    unlink("f2.fst"); iun = opn("f2.fst", "STD+RND", "RND"); put(iun, a, 1); put(iun, b, 2); trans(2);
    if (enumerate(iun, q1, {1}, true)) enumerate(iun, q2, {2}, true);
    cls(iun); state(what);
  };
  const K W{-1, "", -1, -1, -1, "", ""};
  for (int f = 0; f < 3; f++) for (int bit = 0; bit < 28; bit++) for (int base : {0, 0x5555555, 0xfffffff}) {
    K a = V0, b = V0, q1 = W, q2 = W; int K::*p = f == 0 ? &K::ip1 : f == 1 ? &K::ip2 : &K::ip3;
    a.*p = q1.*p = base; b.*p = q2.*p = base ^ (1 << bit); one(fmt("ip%d base %x bit %d", f + 1, base, bit), a, b, q1, q2);
  }
  for (int pos = 0; pos < 12; pos++) for (int c = 33; c < 96; c++) { K a = V0, b = V0, q1 = W, q2 = W; string base = "ABCDEFGHIJKL"; a.et = base; base[pos] = c; b.et = base; if (a.et == b.et) continue; q1.et = a.et; q2.et = b.et; one(fmt("etiket pos %d char %c", pos, c), a, b, q1, q2);
    if (c > 64) { a.et = string(12, ' '); a.et = "A"; b.et = string(pos, ' ') + (char)c; if (pos == 0) continue; q1.et = a.et; q2.et = b.et; one(fmt("etiket only pos %d char %c", pos, c), a, b, q1, q2); } }
  for (int pos = 0; pos < 4; pos++) for (int c = 33; c < 96; c++) { K a = V0, b = V0, q1 = W, q2 = W; string base = "ABCD"; a.nv = base; base[pos] = c; b.nv = base; if (a.nv == b.nv) continue; q1.nv = a.nv; q2.nv = b.nv; one(fmt("nomvar pos %d char %c", pos, c), a, b, q1, q2); }
  for (int pos = 0; pos < 2; pos++) for (int c = 33; c < 96; c++) { K a = V0, b = V0, q1 = W, q2 = W; string base = "AB"; a.tv = base; base[pos] = c; b.tv = base; if (a.tv == b.tv) continue; q1.tv = a.tv; q2.tv = b.tv; one(fmt("typvar pos %d char %c", pos, c), a, b, q1, q2); }
  for (int bit = 0; bit < 27; bit++) { K a = V0, b = V0, q1 = W, q2 = W; a.date = q1.date = D0; b.date = q2.date = 10 * ((D0 / 10) ^ (1 << bit)); if (b.date < 0) continue; one(fmt("date bit %d", bit), a, b, q1, q2); }
}
// user masks
static void masks() {
  vector<K> recs; for (int i = 0; i < 16; i++) { K k = V0; k.ip1 = i; k.ip2 = i << 12; k.ip3 = i << 24; k.et = fmt("%s%sMID%sEND%s", i & 1 ? "X" : "Y", i & 2 ? "1" : "2", i & 4 ? "P" : "Q", i & 8 ? "R" : "S"); recs.push_back(k); }
  for (int f = 0; f < 3; f++) for (int mask = 0; mask < 16; mask++) for (int q = 0; q < 16; q++) {
    if (!begin("mask ip%d %x query %x", f + 1, mask, q)) continue;
    unlink("f2.fst"); iun = opn("f2.fst", "STD+RND", "RND"); for (int i = 0; i < 16; i++) put(iun, recs[i], i);
    int m[3] = {0, 0, 0}, shf = f == 0 ? 0 : f == 1 ? 12 : 24; m[f] = mask << shf; char e[16] = "            ";
    c_fstmsq(iun, &m[0], &m[1], &m[2], e, 0);
    K k{-1, "", -1, -1, -1, "", ""}; (f == 0 ? k.ip1 : f == 1 ? k.ip2 : k.ip3) = q << shf;
    vector<int> want; for (int i = 0; i < 16; i++) if (((i ^ q) & ~mask & 15) == 0) want.push_back(i);
    int g[3] = {-5, -5, -5}; char ge[16]; trans();
    if (enumerate(iun, k, want, true)) { c_fstmsq(iun, &g[0], &g[1], &g[2], ge, 1); if (g[0] != m[0] || g[1] != m[1] || g[2] != m[2] || strcmp(ge, e)) fail("mask %x,%x,%x reads back %x,%x,%x '%s'", m[0], m[1], m[2], g[0], g[1], g[2], ge);
      else { m[f] = 0; c_fstmsq(iun, &m[0], &m[1], &m[2], e, 0); enumerate(iun, k, {q}, true); } }
    cls(iun); state(fmt("m%d,%d,%d", f, mask, q));
  }
  for (int pm = 0; pm < 4096; pm++) {
    if (!thorough && __builtin_popcount(pm) > 3 && __builtin_popcount(pm) < 11) continue;
    if (!begin("etiket mask %03x", pm)) continue;
    unlink("f2.fst"); iun = opn("f2.fst", "STD+RND", "RND"); for (int i = 0; i < 16; i++) { K k = recs[i]; put(iun, k, i); }
    int z = 0, z2 = 0, z3 = 0; char e[16] = "            "; for (int i = 0; i < 12; i++) if (pm >> i & 1) e[i] = '*';
    c_fstmsq(iun, &z, &z2, &z3, e, 0); trans();
    for (int q : {0, 5, 15}) { K k{-1, "", -1, -1, -1, "", ""}; k.et = recs[q].et; vector<int> want;
      for (int i = 0; i < 16; i++) { bool ok = true; string a = recs[i].et, b = k.et; a.resize(12, ' '); b.resize(12, ' '); for (int p = 0; p < 12; p++) if (!(pm >> p & 1) && a[p] != b[p]) ok = false; if (ok) want.push_back(i); }
      if (!enumerate(iun, k, want, false)) break; }
    char ge[16]; c_fstmsq(iun, &z, &z2, &z3, ge, 1); if (strcmp(ge, e)) fail("label mask '%s' reads back '%s'", e, ge);
    cls(iun); state(fmt("e%d", pm));
  }
}
// histories of interleaved searches on two files
struct Cur { vector<R> r; int iun, pos; K target; vector<int> h; int last; }; // pos = next candidate, -1: none
static Cur C[2];
static int refnext(Cur &c) { if (c.pos < 0) return -1; for (int i = c.pos; i < (int)c.r.size(); i++) if (!c.r[i].erased && match(c.target, c.r[i])) { c.pos = i + 1; return i; } c.pos = -1; return -1; }
static void histories() {
  const K A{-1, "", -1, -1, -1, "", "AA"}, B{-1, "", 100, -1, -1, "", ""}, N{-1, "", -1, -1, -1, "", "NONE"};
  const K *Q[3] = {&A, &B, &N};
  // ops: 0-2 inf(q) f0; 3 sui f0; 4 lis f0; 5 infx(last,q A); 6 infx(-1,B); 7 erase last; 8 luk of first handle; 9 inf A f1; 10 sui f1; 11 inl A f0; 12 lir B; 13 write AA record f0
  const int NOPS = 14; int depth = thorough ? 5 : 4; long tot = 1; for (int i = 0; i < depth; i++) tot *= NOPS;
  static const char *nm[NOPS] = {"infA", "infB", "infNone", "sui", "lis", "infx(last,A)", "infx(-1,B)", "erase", "read1", "inf2A", "sui2", "inlA", "lirB", "writeAA"};
  auto build = [&](int f) {
    vector<R> r; for (int i = 0; i < 7; i++) { R x; (K &)x = mix((i & 1 ? 64 : 0) | (i & 2 ? 4 : 0) | (i == 5 ? 1 : 0)); x.id = i + 1 + 50 * f; x.erased = i == 4; r.push_back(x); } return r; };
  bool first = true; string blob[2];
  for (long code = 0; code < tot; code++) {
    long c = code; vector<int> ops; string d = "history"; for (int i = 0; i < depth; i++) { ops.push_back(c % NOPS); c /= NOPS; d += string(" ") + nm[ops[i]]; }
    if (!begin_s(d)) continue;
    if (first) for (int f = 0; f < 2; f++) { unlink("g.fst"); int u = opn("g.fst", "STD+RND", "RND"); auto r = build(f); for (auto &x : r) put(u, x, x.id); Meta m; for (int h = inf(u, K{-1, "", -1, -1, -1, "", ""}); h >= 0; h = sui(u)) if (idof(h) == 5 + 50 * f) { c_fsteff(h); break; } cls(u); blob[f] = slurp("g.fst"); }
    first = false;
    bool ok = true;
    for (int f = 0; f < 2; f++) { string nmf = fmt("h%d.fst", f); unlink(nmf.c_str()); spit(nmf.c_str(), blob[f]); C[f].r = build(f); C[f].iun = opn(nmf.c_str(), "STD+RND", "RND"); C[f].pos = -1; C[f].last = -1; C[f].h.assign(7, -1); if (C[f].iun < 0) { fail("open"); ok = false; } }
    int lasth = -1; bool afterwrite = false;
    for (size_t s = 0; ok && s < ops.size(); s++) {
      int o = ops[s]; Cur &u = C[o == 9 || o == 10]; int h = -99, e = -99, data = 0; int a, b, cc; int buf[8] = {0}; trans();
      if (o <= 2) { u.target = *Q[o]; u.pos = 0; e = refnext(u); h = inf(u.iun, *Q[o]); }
      else if (o == 3 || o == 10) { e = refnext(u); h = sui(u.iun); }
      else if (o == 4) { e = refnext(u); h = c_fstlis(buf, u.iun, &a, &b, &cc); data = 1; }
      else if (o == 5) { if (u.last < 0) continue; u.target = A; u.pos = u.last + 1; e = refnext(u); h = infx(lasth, u.iun, A); }
      else if (o == 6) { if (u.pos < 0) { continue; } u.target = B; e = refnext(u); h = infx(-1, u.iun, B); }
      else if (o == 7) { if (u.last < 0) continue; int r = c_fsteff(lasth); if ((r >= 0) != !u.r[u.last].erased) { fail("step %zu: erasing record %d returns %d", s, u.r[u.last].id, r); ok = false; } u.r[u.last].erased = 1; continue; }
      else if (o == 8) { if (u.last < 0) continue; bool g = readok(lasth, u.r[u.last].id); if (g == (bool)u.r[u.last].erased) { fail("step %zu: reading record %d by handle %s", s, u.r[u.last].id, g ? "works though it is erased" : "fails"); ok = false; } continue; }
      else if (o == 9) { u.target = A; u.pos = 0; e = refnext(u); h = inf(u.iun, A); }
      else if (o == 11) { int L[20], n = -1; c_fstinl(u.iun, &a, &b, &cc, -1, "", -1, -1, -1, "", "AA", L, &n, 20); int w = 0; for (auto &x : u.r) if (!x.erased && match(A, x)) { if (w < n && idof(L[w]) != x.id) { fail("step %zu: list entry %d is record %d, expected %d", s, w, idof(L[w]), x.id); ok = false; break; } w++; } if (ok && w != n) { fail("step %zu: list search finds %d, expected %d", s, n, w); ok = false; } u.target = A; u.pos = -1; continue; }
      else if (o == 12) { u.target = B; u.pos = 0; e = refnext(u); h = c_fstlir(buf, u.iun, &a, &b, &cc, -1, "", 100, -1, -1, "", ""); data = 1; }
      else if (o == 13) { R x; (K &)x = V0; x.id = 100 + s; x.erased = 0; if (put(u.iun, x, x.id) < 0) { fail("write"); ok = false; } u.r.push_back(x); u.pos = -1; continue; }
      if ((h >= 0) != (e >= 0)) { fail("step %zu (%s): handle %d, expected %s", s, nm[o], h, e < 0 ? "no match" : fmt("record %d", u.r[e].id).c_str()); ok = false; break; }
      if (h >= 0) { int id = idof(h); if (id != u.r[e].id || (data && buf[0] != id * 31)) { fail("step %zu (%s): gives record %d (data of %d), expected record %d", s, nm[o], id, buf[0] / 31, u.r[e].id); ok = false; break; }
        if (&u == &C[0]) { u.last = e; lasth = h; } }
    }
    string st; for (auto &x : C[0].r) st += fmt("%d%d,", x.id, x.erased); st += fmt("p%d,%d q%d", C[0].pos, C[1].pos, C[0].last); state(st);
    for (int f = 0; f < 2; f++) if (C[f].iun >= 0) cls(C[f].iun);
  }
}
// linked files searched as one
static void links() {
  int sz[] = {0, 1, 2, 256, 257, 600};
  for (int nf = 2; nf <= 4; nf++) { long tot = 1; for (int i = 0; i < nf; i++) tot *= 6;
    for (long code = 0; code < tot; code++) {
      int n[4]; long c = code; int big = 0; string d = "linked files with"; for (int i = 0; i < nf; i++) { n[i] = sz[c % 6]; c /= 6; d += fmt(" %d", n[i]); big += n[i] > 2; }
      if (!thorough && nf == 4 && big > 1) continue;
      if (!begin_s(d + " records")) continue;
      int u[4]; bool ok = true; int id = 1; vector<int> wantA, wantAll; vector<int> firstfile;
      for (int i = 0; i < nf; i++) { string nm = fmt("l%d.fst", i); unlink(nm.c_str()); int w = opn(nm.c_str(), "STD+RND", "RND");
        for (int k = 0; k < n[i]; k++, id++) { bool isA = n[i] < 10 || k % 100 == 0 || k == 255 || k == 256; K x = isA ? V0 : V1; put(w, x, id); if (isA) wantA.push_back(id); wantAll.push_back(id); if (i == 0 && isA) firstfile.push_back(id); }
        cls(w); u[i] = opn(nm.c_str(), "STD+RND+R/O+OLD", "RND+R/O"); if (u[i] < 0) { fail("open file %d: %d", i, u[i]); ok = false; } }
      trans();
      if (ok) {
        if (fstlnk_(u, &nf) < 0) fail("link fails");
        else {
          K A{-1, "", -1, -1, -1, "", "AA"}, W{-1, "", -1, -1, -1, "", ""};
          if (enumerate(u[0], A, wantA, true) && enumerate(u[0], W, wantAll, wantAll.size() < 20)) {
            int nv = c_fstnbrv(u[0]); (void)nv; fstunl_();
            enumerate(u[0], A, firstfile, true);
          }
        }
      }
      for (int i = 0; i < nf; i++) if (u[i] >= 0) cls(u[i]);
      state(d); outcome(fmt("linked %d files", nf));
    } }
}
// searches by physical level: either coding of the level is found, in all three ip fields
extern "C" { void convip_plus_(int *, float *, int *, int *, char *, int *, size_t); }
static void allips() {
  struct L { float v; int kind; }; L lv[] = {{500, 2}, {850, 2}, {1000, 2}, {0.5f, 1}, {100, 0}};
  auto code = [](float v, int k, int mode) { int ip; char s[32]; int F = 0; convip_plus_(&ip, &v, &k, &mode, s, &F, 30); return ip; };
  for (int fl = 1; fl < 8; fl++) for (int want = 0; want < 4; want++) for (int ord = 0; ord < 2; ord++) {
    if (!begin("search by level: ip fields %d, level %d, order %d", fl, want, ord)) continue;
    unlink("f2.fst"); iun = opn("f2.fst", "STD+RND", "RND");
    // records: every assignment of (level index, coding) for the 3 ips over two levels and the two codings
    vector<K> recs; for (int m = 0; m < 64; m++) { K k = V0; auto sel = [&](int b) { int l = (m >> b & 1) ? want : (want + 1) % 4; return code(lv[l].v, lv[l].kind, (m >> (b + 3) & 1) ? 3 : 2); }; k.ip1 = sel(0); k.ip2 = sel(1); k.ip3 = sel(2); recs.push_back(k); }
    if (ord) std::reverse(recs.begin(), recs.end());
    for (size_t i = 0; i < recs.size(); i++) put(iun, recs[i], i + 1);
    K q{-1, "", -1, -1, -1, "", ""}; float v = lv[want].v; int kd = lv[want].kind; trans();
    int cn = code(v, kd, 2), co = code(v, kd, 3);
    auto has = [&](const K &k) { return (!(fl & 1) || k.ip1 == cn || k.ip1 == co) && (!(fl & 2) || k.ip2 == cn || k.ip2 == co) && (!(fl & 4) || k.ip3 == cn || k.ip3 == co); };
    c_fstreset_ip_flags();
    auto setq = [&] { if (fl & 1) q.ip1 = c_ip1_all(v, kd); if (fl & 2) q.ip2 = c_ip2_all(v, kd); if (fl & 4) q.ip3 = c_ip3_all(v, kd); };
    int e = -1; for (size_t i = 0; i < recs.size() && e < 0; i++) if (has(recs[i])) e = i;
    bool ok = true; int prev = 0; 
    // step through all matches with a fresh physical query each time
    for (int step = 0; ok; step++) {
      setq(); int h = infx(prev, iun, q); int got = h < 0 ? -1 : idof(h) - 1; eval();
      if (got != e) { fail("match %d: record %d found, expected %d (codes %d %d)", step, got, e, cn, co); ok = false; break; }
      if (e < 0) break;
      prev = h; int x = e; e = -1; for (size_t i = x + 1; i < recs.size() && e < 0; i++) if (has(recs[i])) e = i;
    }
    // the flags of a finished search do not leak into the next one
    if (ok) { K z{-1, "", recs[5].ip1, recs[5].ip2, recs[5].ip3, "", ""}; vector<int> w; for (size_t i = 0; i < recs.size(); i++) if (match(z, recs[i])) w.push_back(i + 1); enumerate(iun, z, w, false); }
    cls(iun); state(fmt("ip%d,%d", fl, want));
  }
}
// matching grid descriptors are required by the checked read
static void checked() {
  for (int bad = 0; bad < 9; bad++) {
    if (!begin("checked read, field %d differs", bad)) continue;
    unlink("f2.fst"); iun = opn("f2.fst", "STD+RND", "RND"); K k = V0; put(iun, k, 9, 2, "G", 4);
    int a[7] = {2, 1, 1, 4, 4, 4, 9}; const char *g = "G"; if (bad >= 1 && bad <= 7) a[bad - 1]++; if (bad == 8) g = "L"; int buf[16] = {0};
    int r = c_fstlic(buf, iun, a[0], a[1], a[2], -1, "", -1, -1, -1, "", "AA", a[3], a[4], a[5], a[6], g); trans();
    if (bad == 0 ? (r < 0 || buf[0] != 9 * 31) : (r >= 0 || buf[0] != 0)) fail("checked read returns %d, data %d", r, buf[0]);
    cls(iun); state(fmt("lic%d", bad)); outcome(bad ? "checked read refused" : "checked read accepted");
  }
}
// a handle that designates no record is refused by every operation and changes nothing
static void badhandles() {
  for (int n : {1, 2, 255, 256, 257, 512}) for (int rw = 0; rw < 2; rw++) for (int what = 0; what < 8; what++) {
    if (!begin("invalid handle kind %d, file of %d records, %s", what, n, rw ? "open for writing" : "read only")) continue;
    unlink("f2.fst"); iun = opn("f2.fst", "STD+RND", "RND"); for (int i = 0; i < n; i++) { K k = V0; k.ip1 = i; put(iun, k, i + 1); }
    if (!rw) { cls(iun); iun = opn("f2.fst", "STD+RND+R/O", "RND+R/O"); }
    vector<int> H; K W{-1, "", -1, -1, -1, "", ""}; for (int h = inf(iun, W); h >= 0; h = sui(iun)) H.push_back(h);
    if ((int)H.size() != n) { fail("%zu records found of %d", H.size(), n); cls(iun); continue; }
    int h; 
    int rs = n > 1 ? H[1] - H[0] : 0; // difference between neighbouring handles
    if (what == 0) { if (!rs) { cls(iun); continue; } h = H[n - 1] + rs; if (n == 512) h = H[n - 1] + rs; }
    else if (what == 1) { if (n < 257) { cls(iun); continue; } h = H[255] + rs; if (h == H[256]) { cls(iun); continue; } }
    else if (what == 2) h = -1; else if (what == 3) h = -2; else if (what == 4) h = 1023; else if (what == 5) h = 77; else if (what == 6) h = 0x7fffffff;
    else { if (n < 257) h = 0x3ffffc00 | (H[0] & 1023); else h = H[256] + (H[256] - H[0]) * (n > 257 ? 2 : 1); if (n == 512) h = H[256] + (H[256] - H[0]); }
    if (std::find(H.begin(), H.end(), h) != H.end()) { cls(iun); continue; }
    Meta m; int a, b, cc; static int buf[1000]; buf[0] = -3; trans(4); eval();
    int p = prm(h, m), l = c_fstluk(buf, h, &a, &b, &cc), e = c_fsteff(h), d = c_fst_edit_dir(h, -1, -1, -1, -1, -1, -1, 7, -1, -1, " ", "ZZ", " ", " ", -1, -1, -1, -1, -1);
    outcome(p < 0 && l < 0 && e < 0 && d < 0 ? "refused" : "accepted");
    if (p >= 0 || l >= 0 || e >= 0 || d >= 0 || buf[0] != -3) { fail("handle %x designates no record, yet descriptors %d, read %d, erase %d, edit %d (0 or more means success)", h, p, l, e, d); cls(iun); continue; }
    vector<int> ids; for (int i = 1; i <= n; i++) ids.push_back(i);
    enumerate(iun, W, ids, false); cls(iun);
    iun = opn("f2.fst", "STD+RND+R/O", "RND+R/O"); if (iun < 0) { fail("reopen: %d", iun); continue; } enumerate(iun, W, ids, false); cls(iun); state(fmt("b%d,%d,%d", n, rw, what));
  }
}
int main(int c, char **v) { init(c, v); badhandles(); combos(); distinct(); masks(); histories(); links(); allips(); checked(); return done(); }
