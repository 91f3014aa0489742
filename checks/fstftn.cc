// F06: the Fortran entry points of standard files against the C ones, the listing of a file, the
// options, the level sets of a search, and the refusal of units and handles in the wrong state.
#include "fst.hh"
#include <sys/stat.h>
#include <sstream>
using namespace vh; using namespace fst; using std::vector; using std::string;
extern "C" {
typedef size_t L; typedef int I;
I fstecr_(void *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, const char *, const char *, const char *, const char *, I *, I *, I *, I *, I *, I *, L, L, L, L);
I fstecr_s_(void *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, const char *, const char *, const char *, const char *, I *, I *, I *, I *, I *, I *, L, L, L, L, L);
I fstecr_h_(void *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, const char *, const char *, const char *, const char *, I *, I *, I *, I *, I *, I *, L, L, L, L);
I fstecr_b_(void *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, const char *, const char *, const char *, const char *, I *, I *, I *, I *, I *, I *, L, L, L, L);
I fst_edit_dir_(I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, const char *, const char *, const char *, const char *, I *, I *, I *, I *, I *, L, L, L, L);
I fst_edit_dir_plus_(I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, const char *, const char *, const char *, const char *, I *, I *, I *, I *, I *, L, L, L, L);
I fsteff_(I *); I fsteof_(I *); I fstfrm_(I *); I fstapp_(I *, const char *, L); I fstckp_(I *); I fstrwd_(I *); I fstskp_(I *, I *); I fstweo_(I *, I *); I fstnbr_(I *); I fstnbrv_(I *); I fst_version_(); I fst_data_length_(I *);
I fstinf_(I *, I *, I *, I *, I *, const char *, I *, I *, I *, const char *, const char *, L, L, L);
I fstinfx_(I *, I *, I *, I *, I *, I *, const char *, I *, I *, I *, const char *, const char *, L, L, L);
I fstinl_(I *, I *, I *, I *, I *, const char *, I *, I *, I *, const char *, const char *, I *, I *, I *, L, L, L);
I fstlic_(void *, I *, I *, I *, I *, I *, const char *, I *, I *, I *, const char *, const char *, I *, I *, I *, I *, const char *, L, L, L, L);
I fstlir_(void *, I *, I *, I *, I *, I *, const char *, I *, I *, I *, const char *, const char *, L, L, L);
I fstlir_h_(void *, I *, I *, I *, I *, I *, const char *, I *, I *, I *, const char *, const char *, L, L, L);
I fstlir_b_(void *, I *, I *, I *, I *, I *, const char *, I *, I *, I *, const char *, const char *, L, L, L);
I fstlir_s_(void *, I *, I *, I *, I *, I *, const char *, I *, I *, I *, const char *, const char *, L, L, L, L);
I fstlirx_(void *, I *, I *, I *, I *, I *, I *, const char *, I *, I *, I *, const char *, const char *, L, L, L);
I fstlis_(void *, I *, I *, I *, I *); I fstluk_(void *, I *, I *, I *, I *); I fstsui_(I *, I *, I *, I *); I fstlnk_(I *, I *); I fstunl_(); I fstvoi_(I *, const char *, L); I fstouv_(I *, const char *, L); I fstcheck_(const char *, L);
I fstmsq_(I *, I *, I *, I *, char *, I *, L); I fstopc_(const char *, const char *, I *, L, L); I fstopi_(const char *, I *, I *, L); I fstopl_(const char *, I *, I *, L); I fstopr_(const char *, float *, I *, L);
I fstprm_(I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, char *, char *, char *, char *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, I *, L, L, L, L);
void fstreset_ip_flags_(); I ip1_all_(float *, I *); I ip2_all_(float *, I *); I ip3_all_(float *, I *); I ip1_val_(float *, I *); I ip2_val_(float *, I *); I ip3_val_(float *, I *);
I c_ip1_all(float, I); I c_ip2_all(float, I); I c_ip3_all(float, I);
void ConvertIp(I *, float *, I *, I);
I c_waopen(I); I c_waclos(I); I c_mrfopn(I, const char *); I c_mrfcls(I); I c_fstopr(const char *, float, I); I c_fst_version();
}
static const int DATE = 405318490; static const char *F = "f6.fst", *G = "f6b.fst"; static int iun;
// A Fortran string: exactly n characters, nothing after them
struct FS { char *p; L n; FS(const string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } FS(L k, char c) : FS(string(k, c)) {} ~FS() { free(p); } string s() const { return string(p, n); } };
static string cut(const string &s, size_t n) { return rtrim(s.substr(0, n)); }
template <class F> static int onecase(F f) { isolated(f); return 0; }
static I wr(int u, int ip1, const char *nv, const char *tv, const char *et, int dt = 4, int nb = 32, int ni = 2) { static int x[64]; for (int i = 0; i < 64; i++) x[i] = ip1 + i; return c_fstecr(x, nullptr, -nb, u, DATE, 900, 4, ni, 1, 1, ip1, 20, 30, tv, nv, et, "X", 11, 22, 33, 44, dt, 0); }

// ---- strings of every length going in and coming out
static void strings() {
  const string T = "PQ@R ", N = "UVWXYZ  ", E = "LABEL0123456789  ", G = "ZYX";
  for (int lt = 0; lt <= 4; lt++) for (int ln = 0; ln <= 6; ln++) for (int le = 0; le <= 15; le++) for (int lg = 0; lg <= 3; lg++) for (int pad = 0; pad < 2; pad++) {
    if (!thorough && (lt > 3 || (le > 2 && le < 11 && (lt + ln + lg) % 3))) continue;
    if (!begin("strings of %d, %d, %d and %d characters%s", lt, ln, le, lg, pad ? " ending with a blank" : "")) continue;
    auto mk = [&](const string &s, int l) { string r = s.substr(0, l); if (pad && l > 1) r[l - 1] = ' '; return r; };
    FS t(mk(T, lt)), n(mk(N, ln)), e(mk(E, le)), g(mk(G, lg));
    string wt = cut(t.s(), 2), wn = cut(n.s(), 4), we = cut(e.s(), 12), wg = lg ? g.s().substr(0, 1) : " ";
    unlink(F); I u = 0; if (c_fnom(&u, F, "STD+RND", 0) < 0) { fail("fnom"); continue; } { FS o("RND"); if (fstouv_(&u, o.p, o.n) < 0) { fail("the open is refused"); continue; } }
    I x[2] = {5, 6}, np = -32, d = DATE, deet = 900, npas = 4, a2 = 2, one = 1, i1 = 101, i2 = 20, i3 = 30, g1 = 11, g2 = 22, g3 = 33, g4 = 44, dt = 4, rw = 0, z = 0, mi = -1, ni, nj, nk;
    trans(); I r = fstecr_(x, nullptr, &np, &u, &d, &deet, &npas, &a2, &one, &one, &i1, &i2, &i3, t.p, n.p, e.p, g.p, &g1, &g2, &g3, &g4, &dt, &rw, t.n, n.n, e.n, g.n);
    i1 = 100; { FS b(1, 'B'); fstecr_(x, nullptr, &np, &u, &d, &deet, &npas, &a2, &one, &one, &i1, &i2, &i3, b.p, b.p, b.p, b.p, &g1, &g2, &g3, &g4, &dt, &rw, 1, 1, 1, 1); } i1 = 101;
    Meta m; eval();
    auto go = [&]() {
      if (r < 0) { fail("the write is refused: %d", r); return; }
      I h = c_fstinf(u, &ni, &nj, &nk, -1, " ", 101, -1, -1, " ", " "); if (h < 0 || prm(h, m) < 0) { fail("the record is not found"); return; }
      if (m.typvar != wt || m.nomvar != wn || m.etiket != we || m.grtyp != wg) { fail("the record bears '%s' '%s' '%s' '%s'", m.typvar.c_str(), m.nomvar.c_str(), m.etiket.c_str(), m.grtyp.c_str()); return; }
      // search by the same strings (a blank one is a wild card; the other record has ip1 100)
      ni = nj = nk = -5; I f = fstinf_(&u, &ni, &nj, &nk, &mi, e.p, &i1, &mi, &mi, t.p, n.p, e.n, t.n, n.n); if (f != h || ni != 2 || nj != 1 || nk != 1) { fail("fstinf gives %d (%d x %d x %d), the record is %d", f, ni, nj, nk, h); return; }
      I hz = -2; f = fstinfx_(&hz, &u, &ni, &nj, &nk, &mi, e.p, &i1, &mi, &mi, t.p, n.p, e.n, t.n, n.n); if (f != h) { fail("fstinfx gives %d, the record is %d", f, h); return; }
      I l[4], c = -1, mx = 4; f = fstinl_(&u, &ni, &nj, &nk, &mi, e.p, &i1, &mi, &mi, t.p, n.p, l, &c, &mx, e.n, t.n, n.n); if (f < 0 || c != 1 || l[0] != h) { fail("fstinl gives %d records", c); return; }
      I y[3] = {-1, -1, -7}; f = fstlir_(y, &u, &ni, &nj, &nk, &mi, e.p, &i1, &mi, &mi, t.p, n.p, e.n, t.n, n.n); if (f != h || y[0] != 5 || y[1] != 6 || y[2] != -7) { fail("fstlir gives %d: %d %d", f, y[0], y[1]); return; }
      y[0] = y[1] = -1; f = fstlirx_(y, &hz, &u, &ni, &nj, &nk, &mi, e.p, &i1, &mi, &mi, t.p, n.p, e.n, t.n, n.n); if (f != h || y[0] != 5 || y[1] != 6) { fail("fstlirx gives %d: %d %d", f, y[0], y[1]); return; }
      y[0] = y[1] = -1; I w2 = 2; f = fstlic_(y, &u, &w2, &one, &one, &mi, e.p, &i1, &mi, &mi, t.p, n.p, &g1, &g2, &g3, &g4, g.p, e.n, t.n, n.n, g.n); if ((f < 0 || y[0] != 5 || y[1] != 6)) { fail("fstlic gives %d: %d %d", f, y[0], y[1]); return; }
      // descriptors into strings of the same lengths
      FS ot(lt, '#'), on(ln, '#'), oe(le, '#'), og(lg, '#'); I dd, de, na, oni, onj, onk, nb, ty, p1, p2, p3, q1, q2, q3, q4, sw, lg_, df, ub, x1, x2, x3;
      f = fstprm_(&h, &dd, &de, &na, &oni, &onj, &onk, &nb, &ty, &p1, &p2, &p3, ot.p, on.p, oe.p, og.p, &q1, &q2, &q3, &q4, &sw, &lg_, &df, &ub, &x1, &x2, &x3, ot.n, on.n, oe.n, og.n);
      auto chk = [&](const char *what, const string &got, const string &want, size_t max) { for (size_t i = 0; i < got.size(); i++) { char c = i < want.size() ? want[i] : ' '; if (got[i] != c && !(i >= max && got[i] == '#')) { fail("fstprm gives %s '%s' for '%s'", what, got.c_str(), want.c_str()); return false; } } return true; };
      if (f < 0 || !chk("typvar", ot.s(), wt, 2) || !chk("nomvar", on.s(), wn, 4) || !chk("etiket", oe.s(), we, 12) || !chk("grtyp", og.s(), wg, 1)) { if (f < 0) fail("fstprm is refused"); return; }
      if (dd != m.dateo || de != 900 || na != 4 || oni != 2 || onj != 1 || onk != 1 || nb != 32 || ty != 4 || p1 != 101 || p2 != 20 || p3 != 30 || q1 != 11 || q2 != 22 || q3 != 33 || q4 != 44 || sw != m.swa || lg_ != m.lng || df != m.dltf || ub != m.ubc || x1 != m.datev) { fail("fstprm and c_fstprm disagree"); return; }
      // edit the other record to bear the strings
      I h2 = c_fstinf(u, &ni, &nj, &nk, -1, " ", 100, -1, -1, " ", " "); f = (pad ? fst_edit_dir_ : fst_edit_dir_plus_)(&h2, &mi, &mi, &mi, &mi, &mi, &mi, &mi, &mi, &mi, t.p, n.p, e.p, g.p, &mi, &mi, &mi, &mi, &mi, t.n, n.n, e.n, g.n); Meta k;
      if (f < 0 || prm(h2, k) < 0) { fail("the directory edit is refused: %d", f); return; }
      auto or_ = [](const string &s, const char *d) { return rtrim(s).empty() ? string(d) : s; };
      if (k.typvar != or_(wt, "B") || k.nomvar != or_(wn, "B") || k.etiket != or_(we, "B") || (!pad && k.grtyp != or_(wg, "B"))) { fail("the edited record bears '%s' '%s' '%s' '%s'", k.typvar.c_str(), k.nomvar.c_str(), k.etiket.c_str(), k.grtyp.c_str()); return; }
    };
    go(); fstfrm_(&u); c_fclos(u); state(fmt("str %s|%s|%s|%s", wt.c_str(), wn.c_str(), we.c_str(), wg.c_str()));
  }
  // file name with trailing blanks, and masks of etiket
  for (int blanks = 0; blanks < 4; blanks++) for (int kind = 0; kind < 4; kind++) { if (!begin("file check, %d trailing blanks, kind %d", blanks, kind)) continue;
    unlink(F); if (kind == 0) { int u = opn(F, "STD+RND", "RND"); wr(u, 1, "AA", "P", "L"); cls(u); } else if (kind == 1) spit(F, string(4000, 'x')); else if (kind == 2) spit(F, "");
    FS f(string(F) + string(blanks, ' ')); eval(); trans(); I r = fstcheck_(f.p, f.n), c = c_fstcheck(F); if ((kind < 2 && (r < 0) != (kind != 0)) || r != c) fail("fstcheck answers %d, c_fstcheck %d", r, c); }
  for (int l = 0; l <= 15; l++) { if (!begin("label mask of %d characters", l)) continue; unlink(F); int u = opn(F, "STD+RND", "RND"); string mk = string("*?**?*??*??*?**").substr(0, l); FS s(mk); I a = 0xf, b = 0xf0, c = 0xf00, set = 0, get = 1; I r = fstmsq_(&u, &a, &b, &c, s.p, &set, s.n); FS o(l, '#'); I x = 0, y = 0, z = 0; eval(); trans(2);
    if (r < 0 || fstmsq_(&u, &x, &y, &z, o.p, &get, o.n) < 0 || x != a || y != b || z != c) fail("masks read back as %x %x %x", x, y, z); else { char e[13] = "            "; int p, q, w; c_fstmsq(u, &p, &q, &w, e, 1); if (o.s().substr(0, std::min(l, 12)) != string(e).substr(0, std::min(l, 12)) || p != a) fail("label mask reads back '%s', from C '%s'", o.s().c_str(), e); } cls(u); }
}
// ---- 16-bit and 8-bit integers, characters
template <class T> static void narrow(const char *nm, int maxbits, decltype(&fstecr_h_) ecr, decltype(&fstlir_h_) lir) {
  for (int dt : {2, 4, 130}) for (int nb = 1; nb <= maxbits; nb++) for (int ni : {1, 2, 3, 4, 5, 7, 8, 16, 17, 33}) for (int nj : {1, 3}) for (int pat = 0; pat < 3; pat++) {
    if (dt == 130 && nb > 16) continue; if (!begin("%s arrays, type %d, %d bits, %dx%d, pattern %d", nm, dt, nb, ni, nj, pat)) continue;
    int n = ni * nj; T *x = (T *)malloc(n * sizeof(T)), *y = (T *)malloc(n * sizeof(T)); std::make_unsigned_t<T> mx = (std::make_unsigned_t<T>)((1u << nb) - 1);
    for (int i = 0; i < n; i++) { if (dt == 4) { int lo = -(1 << (nb - 1)), hi = (1 << (nb - 1)) - 1; x[i] = pat == 0 ? (i & 1 ? lo : hi) : pat == 1 ? lo + (int)((unsigned)(i * 7919) % (unsigned)(hi - lo + 1)) : hi; } else x[i] = pat == 0 ? (i & 1 ? mx : 0) : pat == 1 ? (unsigned)(i * 7919) % (mx + 1u) : mx; }
    memset(y, 0x55, n * sizeof(T)); unlink(F); int u = opn(F, "STD+RND", "RND"); I np = -nb, d = DATE, z = 0, one = 1, mi = -1, a = ni, b = nj, c = 0, e = 0, f = 0, ty = dt; FS s(1, 'P'), nv("AA"), et("L"), g("X"); eval(); trans(2);
    I r = ecr(x, nullptr, &np, &u, &d, &z, &z, &a, &b, &one, &z, &z, &z, s.p, nv.p, et.p, g.p, &z, &z, &z, &z, &ty, &z, s.n, nv.n, et.n, g.n);
    I q = r < 0 ? r : lir(y, &u, &c, &e, &f, &mi, et.p, &mi, &mi, &mi, s.p, nv.p, et.n, s.n, nv.n);
    if (r < 0) fail("the write is refused: %d", r); else if (q < 0 || c != ni || e != nj || f != 1) fail("the read gives %d, %dx%dx%d", q, c, e, f); else for (int i = 0; i < n; i++) if (x[i] != y[i]) { fail("element %d reads %lld, %lld was written", i, (long long)y[i], (long long)x[i]); break; }
    cls(u); free(x); free(y); state(fmt("%s %d %d %d %d", nm, dt, nb, n, pat));
  }
}
static void chars() {
  for (int dt : {7}) for (int ls = 1; ls <= 12; ls++) for (int nj = 1; nj <= 3; nj++) for (int ni = 1; ni <= 13; ni++) { if (!begin("character arrays, length %d, %d strings, written as %d", ls, nj, ni)) continue;
    unlink(F); int u = opn(F, "STD+RND", "RND"); FS x(ls * nj, ' '), y(ls * nj, '#'); for (L i = 0; i < x.n; i++) x.p[i] = 33 + (i * 5) % 90; I np = -8, d = DATE, z = 0, one = 1, mi = -1, a = ni, b = nj, c = 0, e = 0, f = 0, ty = dt; FS s(1, 'P'), nv("AA"), et("L"), g("X"); eval(); trans(2);
    I r = fstecr_s_(x.p, nullptr, &np, &u, &d, &z, &z, &a, &b, &one, &z, &z, &z, s.p, nv.p, et.p, g.p, &z, &z, &z, &z, &ty, &z, ls, s.n, nv.n, et.n, g.n);
    if ((r < 0) != (ni * nj > ls * nj)) fail("writing %d characters of %d answers %d", ni * nj, ls * nj, r);
    else if (r >= 0) { I q = fstlir_s_(y.p, &u, &c, &e, &f, &mi, et.p, &mi, &mi, &mi, s.p, nv.p, ls * nj, et.n, s.n, nv.n); string w = x.s().substr(0, ni * nj) + string(ls * nj - ni * nj, ' '); if (q < 0 || y.s() != w || c != ni || e != nj) fail("reads back '%s' (%d), '%s' was written", y.s().c_str(), q, w.c_str()); }
    cls(u); state(fmt("chr %d %d %d", ls, nj, ni)); }
}
// ---- walking a file through the Fortran interface
static void walk() {
  for (int n = 0; n <= 4; n++) for (int pat = 0; pat < (1 << n); pat++) for (int nv = 0; nv < 2; nv++) { if (!begin("walking a file of %d records, kinds %d, searching %d", n, pat, nv)) continue;
    unlink(F); int u = opn(F, "STD+RND", "RND"); vector<int> want; for (int i = 0; i < n; i++) { wr(u, 10 + i, pat >> i & 1 ? "BB" : "AA", "P", "L"); if ((pat >> i & 1) == nv) want.push_back(10 + i); }
    FS name(nv ? "BB " : "AA"), bl(1, ' '); I mi = -1, ni, nj, nk, h; size_t k = 0; eval();
    for (h = fstinf_(&u, &ni, &nj, &nk, &mi, bl.p, &mi, &mi, &mi, bl.p, name.p, 1, 1, name.n); h >= 0; h = fstsui_(&u, &ni, &nj, &nk), k++) { trans(); I y[3] = {0, 0, -9}, a, b, c; if (k >= want.size() || fstluk_(y, &h, &a, &b, &c) < 0 || a != 2 || b != 1 || c != 1 || ni != 2 || y[0] != want[k] || y[1] != want[k] + 1 || y[2] != -9) { fail("step %zu: wrong record (%d)", k, y[0]); break; } }
    if (h < 0 && k != want.size()) fail("%zu records are walked, %zu should be", k, want.size());
    I nb = fstnbr_(&u), nbv = fstnbrv_(&u); if (nb != n || nbv != n) fail("record counts %d and %d", nb, nbv);
    // find then read-next
    k = 0; h = fstinf_(&u, &ni, &nj, &nk, &mi, bl.p, &mi, &mi, &mi, bl.p, name.p, 1, 1, name.n); if (h >= 0) { k = 1; I y[2], a, b, c; while (fstlis_(y, &u, &a, &b, &c) >= 0) { if (k >= want.size() || y[0] != want[k]) { fail("read-next %zu gives %d", k, y[0]); break; } k++; } if (k != want.size()) fail("%zu records are read, %zu should be", k, want.size()); }
    // erase the first match
    h = fstinf_(&u, &ni, &nj, &nk, &mi, bl.p, &mi, &mi, &mi, bl.p, name.p, 1, 1, name.n); if (h >= 0) { if (fsteff_(&h) < 0) fail("erase refused"); if (fstckp_(&u) < 0) fail("checkpoint refused"); h = fstinf_(&u, &ni, &nj, &nk, &mi, bl.p, &mi, &mi, &mi, bl.p, name.p, 1, 1, name.n); Meta m; if ((h >= 0) != (want.size() > 1) || (h >= 0 && (prm(h, m) < 0 || m.ip1 != want[1]))) fail("after the erasure the search gives %d", h); if (fstnbrv_(&u) != n - 1) fail("%d valid records after the erasure", fstnbrv_(&u)); }
    cls(u); I uu = 0; c_fnom(&uu, F, "STD+RND+R/O", 0); I live = n - (want.size() > 0); nb = fstnbr_(&uu); I nc = c_fstnbr(uu); nbv = fstnbrv_(&uu); if (nbv != live || nb != nc || c_fstnbrv(uu) != live) fail("on the closed file the counts are %d (%d) and %d", nb, nc, nbv); c_fclos(uu); state(fmt("walk %d %d %d", n, pat, nv)); }
  // sequential
  for (int n = 0; n <= 3; n++) { if (!begin("sequential file of %d records through the Fortran interface", n)) continue;
    unlink(F); I u = 0; c_fnom(&u, F, "STD+SEQ+R/W", 0); FS o("SEQ"), bl(1, ' '); if (fstouv_(&u, o.p, o.n) < 0) { fail("open"); continue; } for (int i = 0; i < n; i++) wr(u, 10 + i, "AA", "P", "L"); I lv = 3, ni, nj, nk, mi = -1, one = 1; eval(); trans();
    if (fstweo_(&u, &lv) < 0 || wr(u, 99, "BB", "P", "L") < 0 || fstrwd_(&u) < 0) { fail("mark, write, rewind refused"); cls(u); continue; }
    int k = 0; I h; for (h = fstinf_(&u, &ni, &nj, &nk, &mi, bl.p, &mi, &mi, &mi, bl.p, bl.p, 1, 1, 1); h >= 0; h = fstsui_(&u, &ni, &nj, &nk)) { Meta m; if (prm(h, m) < 0 || m.ip1 != 10 + k) { fail("record %d is %d", k, m.ip1); break; } k++; } if (k != n) fail("%d records before the mark, %d were written", k, n);
    I ev = fsteof_(&u); if (ev != 3) fail("mark of level %d, 3 was written", ev); h = fstinf_(&u, &ni, &nj, &nk, &mi, bl.p, &mi, &mi, &mi, bl.p, bl.p, 1, 1, 1); Meta m; if (h < 0 || prm(h, m) < 0 || m.ip1 != 99) fail("the record after the mark is not found");
    if (fstrwd_(&u) < 0 || (n && fstskp_(&u, &one) < 0)) fail("skip"); if (n > 1) { h = fstinf_(&u, &ni, &nj, &nk, &mi, bl.p, &mi, &mi, &mi, bl.p, bl.p, 1, 1, 1); if (h < 0 || prm(h, m) < 0 || m.ip1 != 11) fail("after skipping one the record is %d", m.ip1); }
    if (fstapp_(&u, bl.p, 1) < 0) fail("append"); fstfrm_(&u); c_fclos(u); state(fmt("seq %d", n)); }
  // linking
  for (int n = 1; n <= 3; n++) for (int each = 1; each <= 2; each++) { if (!begin("%d linked files of %d records", n, each)) continue; vector<I> us; for (int i = 0; i < n; i++) { string f = fmt("l%d.fst", i); unlink(f.c_str()); us.push_back(opn(f.c_str(), "STD+RND", "RND")); for (int j = 0; j < each; j++) wr(us[i], 10 * i + j, "AA", "P", "L"); }
    I c = n; eval(); if (fstlnk_(us.data(), &c) < 0) fail("link refused"); auto cnt = [&]() { I ni, nj, nk, mi = -1, l[20], k = -1, mx = 20; FS bl(1, ' '); fstinl_(&us[0], &ni, &nj, &nk, &mi, bl.p, &mi, &mi, &mi, bl.p, bl.p, l, &k, &mx, 1, 1, 1); for (int i = 0; i < k; i++) { Meta m; if (prm(l[i], m) < 0 || m.ip1 != 10 * (i / each) + i % each) fail("record %d of the linked files is wrong", i); } return k; };
    trans(2); if (cnt() != n * each) fail("linked: %d records, should be %d", cnt(), n * each); if (fstunl_() < 0) fail("unlink refused"); if (cnt() != each) fail("unlinked: %d records, should be %d", cnt(), each); for (int v : us) cls(v); }
  if (begin("linking lists of impossible length")) isolated([&] { unlink(F); int u = opn(F, "STD+RND", "RND"); for (int n : {0, -1, -100, 1025, 5000, 1000000}) { vector<I> l(std::max(n, 1), u); I c = n; eval(); trans(); if (fstlnk_(l.data(), &c) >= 0) fail("a list of %d files is linked", n); if (fstunl_() < 0 && 0) fail("unlink"); } cls(u); });
}
// ---- options
static void options() {
  struct O { const char *n; char t; vector<int> v; }; vector<O> os = {{"TURBOCOMP", 'i', {0, 1}}, {"IMAGE", 'l', {0, 1}}, {"REDUCTION32", 'l', {0, 1}}};
  for (auto &o : os) for (int v : o.v) for (int cf = 0; cf < 4; cf++) for (int pad = 0; pad < 9; pad++) { if (!begin("option %s set to %d (%s), read (%s), %d blanks", o.n, v, cf & 1 ? "Fortran" : "C", cf & 2 ? "Fortran" : "C", pad)) continue;
    isolated([&] { FS s(string(o.n) + string(pad, ' ')); I z = 0, two = 2, w = !v, d = 0; eval(); trans();
      auto set = [&](int f, int x) { I y = x; if (o.t == 'i') { if (f) fstopi_(s.p, &y, &z, s.n); else c_fstopi(o.n, x, 0); } else { if (f) fstopl_(s.p, &y, &z, s.n); else c_fstopl(o.n, x, 0); } };
      auto get = [&](int f) { return o.t == 'i' ? (f ? fstopi_(s.p, &d, &two, s.n) : c_fstopi(o.n, 0, 2)) : (f ? fstopl_(s.p, &d, &two, s.n) : c_fstopl(o.n, 0, 2)); };
      set(0, w); if (get(0) != w) { fail("set from C to %d, reads %d", w, get(0)); return; } set(cf & 1, v); int g = get(cf >> 1 & 1); if (g != v) fail("reads %d", g); if (get(0) != v) fail("reads %d from C", get(0)); }); }
  for (int v = 0; v < 2; v++) for (int cf = 0; cf < 4; cf++) for (int pad = 0; pad < 6; pad++) { if (!begin("compression level by name %d %d, %d blanks", v, cf, pad)) continue; isolated([&] { const char *nm[] = {"FAST", "BEST"}; FS s("TURBOCOMP" + string(pad, ' ')), val(nm[v] + string(pad, ' ')), e(4, ' '); I z = 0, two = 2; c_fstopc("TURBOCOMP", nm[!v], 0); if (cf & 1) fstopc_(s.p, val.p, &z, s.n, val.n); else c_fstopc("TURBOCOMP", nm[v], 0); I g = cf & 2 ? fstopc_(s.p, e.p, &two, s.n, e.n) : c_fstopc("TURBOCOMP", "", 2); eval(); trans(); if (g != v) fail("reads %d", g); }); }
  if (begin("versions and lengths")) { eval(); if (fst_version_() != c_fst_version()) fail("the versions differ"); }
}
// ---- searches by level, in either encoding
static void levels() {
  struct V { float l; int k; }; vector<V> vs = {{0, 0}, {500, 0}, {1500, 0}, {0.5f, 1}, {1, 1}, {0, 1}, {500, 2}, {1000, 2}, {850, 2}, {10, 2}, {0.1f, 2}, {3, 3}, {1200, 3}, {10, 4}, {1.5f, 4}, {0.995f, 5}, {300, 6}};
  vector<int> enc; for (auto &v : vs) { float l = v.l; int k = v.k, a = 0, b = 0; ConvertIp(&a, &l, &k, 2); enc.push_back(a); if (v.k < 4) { l = v.l; k = v.k; ConvertIp(&b, &l, &k, 3); if (b >= 0) enc.push_back(b); } }
  for (int which = 1; which <= 3; which++) for (size_t q = 0; q < vs.size(); q++) for (int ftn = 0; ftn < 2; ftn++) for (int only = 0; only < 2; only++) for (int have = 1; have < 4; have++) { if (!begin("ip%d of level %g kind %d (%s%s), present in styles %d", which, vs[q].l, vs[q].k, ftn ? "Fortran" : "C", only ? ", new style only" : "", have)) continue; if (only && !ftn) continue; if (vs[q].k >= 4 && have > 1) continue;
    isolated([&] { unlink(F); int u = opn(F, "STD+RND", "RND"); float l = vs[q].l; int k = vs[q].k, nw = 0, od = 0; ConvertIp(&nw, &l, &k, 2); l = vs[q].l; k = vs[q].k; if (k < 4) ConvertIp(&od, &l, &k, 3); else od = -1; if (od < 0 && have > 1) return;
      vector<int> w; for (int e : enc) { if (e == nw && !(have & 1)) continue; if (e == od && !(have & 2) && e != nw) continue; w.push_back(e); } int x[2] = {0, 0}; for (size_t i = 0; i < w.size(); i++) { x[0] = i; int ip[3] = {7, 7, 7}; ip[which - 1] = w[i]; if (c_fstecr(x, nullptr, -32, u, DATE, 0, 0, 2, 1, 1, ip[0], ip[1], ip[2], "P", "AA", "L", "X", 0, 0, 0, 0, 4, 0) < 0) { fail("write"); return; } }
      int want = -1; for (size_t i = 0; i < w.size() && want < 0; i++) if (w[i] == nw || (!only && w[i] == od)) want = i;
      float fl = vs[q].l; I kk = vs[q].k; trans(); I v = which == 1 ? (only ? ip1_val_(&fl, &kk) : ftn ? ip1_all_(&fl, &kk) : c_ip1_all(fl, kk)) : which == 2 ? (only ? ip2_val_(&fl, &kk) : ftn ? ip2_all_(&fl, &kk) : c_ip2_all(fl, kk)) : (only ? ip3_val_(&fl, &kk) : ftn ? ip3_all_(&fl, &kk) : c_ip3_all(fl, kk));
      if (v != nw) { fail("the level set answers %d, the code is %d", v, nw); return; } int ni, nj, nk, ip[3] = {-1, -1, -1}; ip[which - 1] = v; int h = c_fstinf(u, &ni, &nj, &nk, -1, " ", ip[0], ip[1], ip[2], " ", " "); Meta m; eval();
      if ((h >= 0) != (want >= 0)) { fail("the search answers %d, record %d bears the level", h, want); return; } if (h >= 0) { int y[2] = {-1}; if (c_fstluk(y, h, &ni, &nj, &nk) < 0 || y[0] != want) { fail("the search finds record %d, the first that bears the level is %d", y[0], want); return; } }
      // a later search is not affected
      for (size_t i = 0; i < w.size(); i += 5) { int ip2[3] = {-1, -1, -1}; ip2[which - 1] = w[i]; size_t first = 0; while (w[first] != w[i]) first++; h = c_fstinf(u, &ni, &nj, &nk, -1, " ", ip2[0], ip2[1], ip2[2], " ", " "); int y[2] = {-1}; if (h < 0 || c_fstluk(y, h, &ni, &nj, &nk) < 0 || y[0] != (int)first) { fail("a later search by code finds %d, should find record %zu", h < 0 ? h : y[0], first); return; } }
      cls(u); }); }
}
// ---- the listing
static vector<string> toks(const string &s) { vector<string> v; std::istringstream i(s); string t; while (i >> t) v.push_back(t); return v; }
template <class F> static string captured(F f) { fflush(stdout); int o = dup(1), n = open("out.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(n, 1); close(n); f(); fflush(stdout); dup2(o, 1); close(o); return slurp("out.txt"); }
struct LR { int ip1, ip2, ip3, ni, nj, nk, deet, npas, dt, nb, ig1, ig2, ig3, ig4; const char *nv, *tv, *et, *g, *lev, *ipall, *dty; };
static vector<LR> LRS = {
  {500, 12, 0, 2, 1, 1, 0, 0, 4, 32, 11, 22, 33, 44, "TT", "P", "LABEL", "X", "500 mb", "500mb 12 H 0", "S 32"}, {12500, 0, 0, 3, 4, 5, 900, 7, 2, 16, 100, 200, 300, 400, "UVWX", "A@", "ABCDEFGHIJKL", "L", "2495 m", "2495 m 0 H 0", "I 16"},
  {60268832, 12, 268435455, 2, 1, 1, 3600, 24, 2, 8, 16777215, 16777214, 16777213, 16777212, ">>", "P", "GRID", "Z", "-----", "[ 60268832] [ 12] [ 268435455]", "I 8"}, {0, 0, 0, 16777, 2, 1, 0, 0, 5, 32, 0, 0, 0, 0, "HY", "X", "E", "Y", "0 mb", "0mb 0 H 0", "E 32"},
  {850, 6, 0, 20, 20, 1, 300, 72, 134, 12, 99999, 1234567, 7, 8, "GZ", "P", "Q", "#", "850 mb", "850mb 6 H 0", "f 12"}, {75597472, 0, 0, 9, 1, 1, 0, 0, 1, 16, 1, 2, 3, 4, "P0", "P", "Q", "X", "10 M", "10 M 0 H 0", "R 16"}};
static const char *OPTS[] = {"NONOMV", "NOTYPV", "NOETIQ", "NINJNK", "DATEO", "DATESTAMPO", "DATEV", "LEVEL", "IPALL", "IP1", "NOIP23", "NODEET", "NONPAS", "NODTY", "IG1234"};
extern "C" { void newdate_(I *, I *, I *, I *); void incdatr_(I *, I *, double *); }
static string expect(const LR &r, int o) { string s; auto has = [&](int k) { return o >> k & 1; }; auto add = [&](const string &t) { s += t + " "; }; int hrs = r.deet * r.npas; int v = DATE; double h = hrs / 3600.; int d0 = DATE; if (hrs) incdatr_(&v, &d0, &h);
  auto day = [&](int st) { int a = st, d, t, m = -3; newdate_(&a, &d, &t, &m); return fmt("%08d %06d", d, t / 100); };
  if (!has(0)) add(r.nv); if (!has(1)) add(r.tv); if (!has(2)) add(r.et); if (has(3)) add(fmt("%d %d %d", r.ni, r.nj, r.nk)); if (has(4)) add(day(DATE)); if (has(5)) add(fmt("%09d", DATE)); if (has(6)) add(day(v) + fmt(" %09d", v)); if (has(7)) add(r.lev); if (has(8)) add(r.ipall); if (has(9)) add(fmt("%d", r.ip1)); if (!has(10)) add(fmt("%d %d", r.ip2, r.ip3)); if (!has(11)) add(fmt("%d", r.deet)); if (!has(12)) add(fmt("%d", r.npas)); if (!has(13)) add(r.dty); if (has(14)) add(fmt("%s %d %d %d %d", r.g, r.ig1, r.ig2, r.ig3, r.ig4)); return s; }
static void listing() {
  static vector<float> big(70000); auto put = [&](int u, const LR &r) { return c_fstecr(big.data(), nullptr, -r.nb, u, DATE, r.deet, r.npas, r.ni, r.nj, r.nk, r.ip1, r.ip2, r.ip3, r.tv, r.nv, r.et, r.g, r.ig1, r.ig2, r.ig3, r.ig4, r.dt, 0); };
  // a listing of records in `ord`, against the records
  auto check = [&](const string &out, const vector<int> &ord, int o, const char *what, bool seq) {
    vector<string> lines; size_t p = 0, k = 0; while (p < out.size()) { size_t e = out.find('\n', p); if (e == string::npos) e = out.size(); lines.push_back(out.substr(p, e - p)); p = e + 1; }
    for (auto &l : lines) { int n, off = -1; if (sscanf(l.c_str(), "%d-%n", &n, &off) == 1 && off == 6) { eval(); if (n != (int)k || k >= ord.size()) { fail("%s: line '%s' where record %zu of %zu is due", what, l.c_str(), k, ord.size()); return false; } auto a = toks(l.substr(6)), b = toks(expect(LRS[ord[k]], o)); if (a != b) { string x; for (auto &t : b) x += t + " "; fail("%s: record %zu is listed as '%s', should be '%s'", what, k, l.substr(6).c_str(), x.c_str()); return false; } k++; } }
    if (k != ord.size()) { fail("%s: %zu records are listed of %zu", what, k, ord.size()); return false; }
    string want = seq ? fmt("%zu records in sequential RPN standard file", ord.size()) : fmt("%zu records in random RPN standard file", ord.size()); if (out.find("\n" + want) == string::npos) { fail("%s: the listing does not say '%s'", what, want.c_str()); return false; } return true; };
  for (int o = 0; o < (1 << 15); o += thorough ? 1 : 1) { if (!thorough && __builtin_popcount(o) > 3 && __builtin_popcount(o) < 12) continue; if (!begin("listing with options %x", o)) continue;
    unlink(F); int u = opn(F, "STD+RND", "RND"); vector<int> ord; bool ok = true; for (size_t i = 0; i < LRS.size() && ok; i++) { ok = put(u, LRS[i]) >= 0; ord.push_back(i); } if (!ok) { fail("write"); cls(u); continue; } string os; for (int k = 0; k < 15; k++) if (o >> k & 1) os += string(os.empty() ? "" : o & 1 ? "+" : " ") + OPTS[k];
    trans(2); string c = captured([&] { c_fstvoi(u, os.c_str()); }); FS f(os); string g = captured([&] { fstvoi_(&u, f.p, f.n); }); if (check(c, ord, o, "from C", false)) check(g, ord, o, "from Fortran", false); cls(u); state(fmt("voi %x", o)); }
  // how many records, which are erased, either kind of file
  for (int n : {0, 1, 2, 69, 70, 71, 140, 141, 255, 256, 257}) for (int er = 0; er < 3; er++) for (int seq = 0; seq < 2; seq++) { if (!begin("listing of %d records, erased %d, %s", n, er, seq ? "sequential" : "random")) continue;
    unlink(F); int u = seq ? opn(F, "STD+SEQ+R/W", "SEQ") : opn(F, "STD+RND", "RND"); vector<int> ord, hs; bool ok = true; int gone = 0; for (int i = 0; i < n && ok; i++) { ok = put(u, LRS[i % LRS.size()]) >= 0; ord.push_back(i % LRS.size()); } if (!ok) { fail("write"); cls(u); continue; }
    if (er && !seq) { int ni, nj, nk, c, l[300]; c_fstinl(u, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " ", l, &c, 300); vector<int> o2; for (int i = 0; i < n; i++) { if (er == 1 ? i == 0 : i % 3 == 1) { c_fsteff(l[i]); gone++; } else o2.push_back(ord[i]); } ord = o2; }
    for (int re = 0; re < 2; re++) { if (seq) c_fstrwd(u); trans(); string c = captured([&] { c_fstvoi(u, "NINJNK+LEVEL"); }); if (!check(c, ord, 1 << 3 | 1 << 7, re ? "reopened" : "same session", seq)) break; if (!seq) { if (c.find(fmt("Number of erasures          \t %d\n", gone)) == string::npos || c.find(fmt("Number of directory entries \t %d\n", n - gone)) == string::npos) { outcome("counts differ"); } string d; for (size_t p = 0; (p = c.find("NOMV", p)) != string::npos; p++) d += "h"; if ((int)d.size() != ((int)ord.size() + 69) / 70) { fail("%zu headings for %zu records", d.size(), ord.size()); break; } } cls(u); u = seq ? opn(F, "STD+SEQ+R/O", "SEQ+R/O") : opn(F, "STD+RND+R/O", "RND+R/O"); if (u < 0) { fail("reopen"); break; } }
    if (u > 0) cls(u); state(fmt("voin %d %d %d", n, er, seq)); }
  // decoded grid descriptors
  struct GD { const char *g; int i1, i2, i3, i4; const char *want; }; GD gd[] = {{"N", 2005, 1005, 300, 400, "N 100.5 200.5 40.0Km 3.000"}, {"S", 2005, 1005, 300, 400, "S 100.5 200.5 40.0Km 3.000"}, {"A", 1, 1, 0, 0, "A 1 1 0 0"}, {"G", 2, 1, 0, 0, "G 2 1 0 0"}, {"B", 0, 1, 0, 0, "B 0 1 0 0"}, {"Z", 123456, 99999, 1, 2, "Z 123456 99999 1 2"}, {"Y", 123456, 99999, 1, 2, "Y 123456 99999 1 2"}, {"X", 1, 2, 3, 4, "X 1 2 3 4"}, {"L", 100, 200, 300, 400, "L 100 200 300 400"}};
  for (auto &g : gd) { if (!begin("listing of the grid %s", g.want)) continue; unlink(F); int u = opn(F, "STD+RND", "RND"); int x[2] = {0}; c_fstecr(x, nullptr, -32, u, DATE, 0, 0, 2, 1, 1, 0, 0, 0, "P", "AA", "L", g.g, g.i1, g.i2, g.i3, g.i4, 4, 0); trans(); eval(); string c = captured([&] { c_fstvoi(u, "GRIDINFO NONOMV NOTYPV NOETIQ NOIP23 NODEET NONPAS NODTY"); }); size_t p = c.find("0-"); string l = p == string::npos ? "" : c.substr(p + 2, c.find('\n', p) - p - 2); string got; for (auto &t : toks(l)) got += (got.empty() ? "" : " ") + t; if (got != g.want) fail("listed as '%s'", got.c_str()); cls(u); state(fmt("grid %s", g.g)); }
}
// ---- units and handles in the wrong state
enum { UNK, NEG, ZERO, HUGE_, ASSOC, RELEASED, CLOSED, WA, BURP, SEQRO, RNDRO, RNDOK, SEQOK, NST };
static const char *SN[] = {"never associated", "negative", "zero", "huge", "associated, not opened", "released", "closed", "a word-addressable file", "a BURP file", "sequential, read only", "random, read only", "random", "sequential"};
struct Fn { const char *n; int (*f)(int); };
static int yy[4096]; static I I_(int x) { static I v[64]; static int k; v[k & 63] = x; return v[k++ & 63]; }
static FS *B1; static I mi = -1, one = 1, two = 2, zero = 0;
static vector<Fn> FN = {
  {"write", [](int u) { return wr(u, 77, "NEW", "P", "NEWREC"); }},
  {"fstecr", [](int u) { I np = -32, d = DATE, dt = 4; return fstecr_(yy, nullptr, &np, &u, &d, &zero, &zero, &two, &one, &one, &zero, &zero, &zero, B1->p, B1->p, B1->p, B1->p, &zero, &zero, &zero, &zero, &dt, &zero, 1, 1, 1, 1); }},
  {"find", [](int u) { int a, b, c; return c_fstinf(u, &a, &b, &c, -1, " ", -1, -1, -1, " ", " "); }},
  {"fstinf", [](int u) { I a, b, c; return fstinf_(&u, &a, &b, &c, &mi, B1->p, &mi, &mi, &mi, B1->p, B1->p, 1, 1, 1); }},
  {"find from 0", [](int u) { int a, b, c; return c_fstinfx(0, u, &a, &b, &c, -1, " ", -1, -1, -1, " ", " "); }},
  {"list", [](int u) { int a, b, c, l[10], n; return c_fstinl(u, &a, &b, &c, -1, " ", -1, -1, -1, " ", " ", l, &n, 10) < 0 || n <= 0 ? -1 : n; }},
  {"find and read", [](int u) { int a, b, c; return c_fstlir(yy, u, &a, &b, &c, -1, " ", -1, -1, -1, " ", " "); }},
  {"find and read from 0", [](int u) { int a, b, c; return c_fstlirx(yy, 0, u, &a, &b, &c, -1, " ", -1, -1, -1, " ", " "); }},
  {"read with dimensions", [](int u) { return c_fstlic(yy, u, 2, 1, 1, -1, " ", -1, -1, -1, " ", " ", 11, 22, 33, 44, "X"); }},
  {"read next", [](int u) { int a, b, c; return c_fstlis(yy, u, &a, &b, &c); }},
  {"find next", [](int u) { int a, b, c; return c_fstsui(u, &a, &b, &c); }},
  {"set mask", [](int u) { int a = 0, b = 0, c = 0; char e[13] = "************"; return c_fstmsq(u, &a, &b, &c, e, 0); }},
  {"get mask", [](int u) { int a, b, c; char e[13] = "            "; return c_fstmsq(u, &a, &b, &c, e, 1); }},
  {"count", [](int u) { return c_fstnbr(u); }}, {"count valid", [](int u) { return c_fstnbrv(u); }},
  {"link", [](int u) { int l[1] = {u}; return c_xdflnk(l, 1); }}, {"unlink", [](int u) { int l[1] = {u}; return ((int (*)(int *, int))c_xdfunl)(l, 1); }},
  {"listing", [](int u) { int r = 0; captured([&] { r = c_fstvoi(u, "NINJNK"); }); return r; }},
  {"append", [](int u) { return c_fstapp(u, " "); }}, {"skip", [](int u) { return c_fstskp(u, 1); }}, {"skip back", [](int u) { return c_fstskp(u, -1); }}, {"mark", [](int u) { return c_fstweo(u, 1); }}, {"level", [](int u) { return c_fsteof(u); }}, {"rewind", [](int u) { return c_fstrwd(u); }}, {"checkpoint", [](int u) { return c_fstckp(u); }}, {"close", [](int u) { return c_fstfrm(u); }}};
static string fileset() { string s; for (const char *f : {"u_rnd.fst", "u_seq.fst", "u_wa", "u_burp"}) s += fmt("%016lx ", (unsigned long)hash(slurp(f))); return s; }
// which answers are due: -1 a refusal, 1 a success, 0 either
static int due(const string &n, int st) {
  if (st != BURP && (n == "count" || n == "count valid")) return st == ASSOC || st == CLOSED || st >= SEQRO ? 1 : -1;
  bool seqonly = n == "append" || n == "skip" || n == "skip back" || n == "mark" || n == "level" || n == "rewind", writes = n == "write" || n == "fstecr" || n == "mark";
  if (st == BURP && (n == "close" || n == "checkpoint" || n == "level" || n == "link" || n == "unlink" || n.find("count") == 0)) return 0;  // common to every indexed file
  if (st <= BURP) return -1;
  if (n == "skip" || n == "skip back" || n == "level" || n == "append" || n == "checkpoint" || n == "link" || n == "unlink" || n == "read next" || n == "find next") return seqonly && n != "level" && (st == RNDRO || st == RNDOK) ? -1 : 0;
  if (seqonly && (st == RNDRO || st == RNDOK)) return -1;
  if (writes && (st == SEQRO || st == RNDRO)) return -1;
  return 1;
}
static void units() {
  B1 = new FS(1, ' ');
  for (int st = 0; st < NST; st++) for (size_t a = 0; a < FN.size(); a++) for (int b = -1; b < (int)FN.size(); b++) {
    if (b >= 0 && (!thorough || st == RNDOK || st == SEQOK || string(FN[b].n) == "close" || due(FN[b].n, st) == 1 && (string(FN[b].n).find("count") == string::npos))) continue;
    if (!begin("unit %s: %s%s%s", SN[st], b >= 0 ? FN[b].n : "", b >= 0 ? ", " : "", FN[a].n)) continue;
    isolated([&] {
      for (const char *f : {"u_rnd.fst", "u_seq.fst", "u_wa", "u_burp"}) unlink(f);
      int r = opn("u_rnd.fst", "STD+RND", "RND"); for (int i = 0; i < 3; i++) wr(r, i, "AA", "P", "L"); cls(r); int s = opn("u_seq.fst", "STD+SEQ+R/W", "SEQ"); for (int i = 0; i < 3; i++) wr(s, i, "AA", "P", "L"); cls(s); spit("u_wa", string(8192, 'w'));
      { int u = 0; c_fnom(&u, "u_burp", "RND+R/W", 0); c_mrfopn(u, "CREATE"); c_mrfcls(u); c_fclos(u); }
      // another file is open all along and must not notice
      unlink(G); int other = opn(G, "STD+RND", "RND"); for (int i = 0; i < 3; i++) wr(other, 50 + i, "OO", "P", "L"); int ni, nj, nk; int oh = c_fstinf(other, &ni, &nj, &nk, -1, " ", 51, -1, -1, " ", " ");
      int u = 0; switch (st) { case UNK: u = 77; break; case NEG: u = -5; break; case ZERO: u = 0; break; case HUGE_: u = 1 << 30; break; case ASSOC: c_fnom(&u, "u_rnd.fst", "STD+RND+OLD", 0); break; case RELEASED: u = opn("u_rnd.fst", "STD+RND+OLD", "RND"); cls(u); break; case CLOSED: u = opn("u_rnd.fst", "STD+RND+OLD", "RND"); c_fstfrm(u); break; case WA: c_fnom(&u, "u_wa", "RND+OLD", 0); c_waopen(u); break; case BURP: c_fnom(&u, "u_burp", "RND+OLD+R/W", 0); if (c_mrfopn(u, "APPEND") < 0) { fail("opening the BURP file"); return; } break; case SEQRO: u = opn("u_seq.fst", "STD+SEQ+R/O", "SEQ+R/O"); break; case RNDRO: u = opn("u_rnd.fst", "STD+RND+R/O", "RND+R/O"); break; case RNDOK: u = opn("u_rnd.fst", "STD+RND+OLD", "RND"); break; default: u = opn("u_seq.fst", "STD+SEQ+R/W", "SEQ"); }
      if (st >= SEQRO && u <= 0) { fail("setting up: %d", u); return; }
      string before = fileset();
      if (b >= 0) { trans(); FN[b].f(u); } trans(); eval(); int x = FN[a].f(u), d = due(FN[a].n, st); if (b >= 0 && d > 0 && st == SEQRO && due(FN[b].n, st) == 0) d = 0;  /* the first operation moved in the file */
      if (d < 0 && x >= 0) { fail("the operation answers %d, it should be refused", x); return; } if (d > 0 && x < 0) { fail("the operation is refused: %d", x); return; }
      if ((FN[a].n[0] == 'c' && string(FN[a].n).find("count") == 0) && d > 0 && x != 3 && !(string(FN[a].n) == "count" && x >= 0)) { fail("%s answers %d, the file holds 3 records", FN[a].n, x); return; }
      outcome(x < 0 ? "refused" : "done");
      bool common = st == BURP && (d == 0 || (b >= 0 && !due(FN[b].n, st))); if (st < RNDOK && !common) { if (fileset() != before) { fail("the operation changes a file"); return; } }
      Meta m; int y[2]; int h2 = c_fstinf(other, &ni, &nj, &nk, -1, " ", 51, -1, -1, " ", " "); if (h2 != oh || prm(oh, m) < 0 || m.ip1 != 51 || c_fstluk(y, oh, &ni, &nj, &nk) < 0 || y[0] != 51 || c_fstnbrv(other) != 3) { fail("another open file is disturbed"); return; }
      if (wr(other, 90, "OO", "P", "L") < 0 || cls(other) < 0 || c_fstcheck(G) < 0) { fail("the other file cannot be finished"); return; } if (st == WA) { c_waclos(u); if (slurp("u_wa") != string(8192, 'w')) fail("the word-addressable file is changed"); } if (st == BURP && !common) { if (c_mrfcls(u) < 0) fail("the BURP file cannot be closed"); }
    });
    state(fmt("unit %d %zu %d", st, a, b)); }
}
static void handles() {
  struct HF { const char *n; int (*f)(int, int); }; HF hf[] = {{"descriptors", [](int h, int) { Meta m; return prm(h, m); }}, {"read", [](int h, int) { int a, b, c; return c_fstluk(yy, h, &a, &b, &c); }}, {"erase", [](int h, int) { return c_fsteff(h); }}, {"edit", [](int h, int) { return c_fst_edit_dir(h, -1, -1, -1, -1, -1, -1, 999, -1, -1, " ", " ", " ", " ", -1, -1, -1, -1, -1); }}, {"edit plus", [](int h, int) { return c_fst_edit_dir_plus(h, -1, -1, -1, -1, -1, -1, 999, -1, -1, " ", " ", " ", " ", -1, -1, -1, -1, -1); }}, {"find from", [](int h, int u) { int a, b, c; return c_fstinfx(h, u, &a, &b, &c, -1, " ", -1, -1, -1, " ", " "); }}, {"read from", [](int h, int u) { int a, b, c; return c_fstlirx(yy, h, u, &a, &b, &c, -1, " ", -1, -1, -1, " ", " "); }}};
  vector<string> hs = {"-1", "-2147483648", "2147483647", "erased", "closed file"}; for (int i = 0; i < 31; i++) hs.push_back(fmt("bit %d", i)); for (int i : {1, 2, 3, 255, 256, 511}) hs.push_back(fmt("record %d", i)); for (int i : {1, 2, 3, 1023, 4095}) hs.push_back(fmt("page %d", i)); for (int i = 0; i < 1024; i += thorough ? 1 : 41) hs.push_back(fmt("file %d", i));
  for (auto &s : hs) for (auto &f : hf) { if (!begin("handle '%s': %s", s.c_str(), f.n)) continue;
    isolated([&] { unlink(F); unlink(G); int u = opn(F, "STD+RND", "RND"); for (int i = 0; i < 4; i++) wr(u, i, "AA", "P", "L"); int ni, nj, nk, l[8], c, k[8], kc; int b = opn(G, "STD+RND", "RND"); for (int i = 0; i < 3; i++) wr(b, 50 + i, "BB", "P", "L"); c_fstinl(u, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " ", l, &c, 8); c_fstinl(b, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " ", k, &kc, 8); if (c != 4 || kc != 3) { fail("setting up"); return; }
      c_fsteff(l[3]); int h = l[1], n; if (s == "erased") h = l[3]; else if (s == "closed file") { h = k[1]; cls(b); b = -1; } else if (sscanf(s.c_str(), "bit %d", &n) == 1) h ^= 1 << n; else if (sscanf(s.c_str(), "record %d", &n) == 1) h = l[0] + (n << 10); else if (sscanf(s.c_str(), "page %d", &n) == 1) h = l[0] + (n << 19); else if (sscanf(s.c_str(), "file %d", &n) == 1) h = (l[0] & ~1023) + n; else h = atoi(s.c_str());
      bool mine = h == l[0] || h == l[1] || h == l[2], his = b >= 0 && (h == k[0] || h == k[1] || h == k[2]); bool from = !strncmp(f.n + strlen(f.n) - 4, "from", 4); trans(); eval(); int r = f.f(h, u); outcome(r < 0 ? "refused" : "done");
      if (!from && !mine && !his && r >= 0 && !(h == l[3] && (f.n[0] == 'd' || f.n[1] == 'd'))) { fail("the handle names no record, the operation answers %d", r); return; } if (!from && (mine || his) && r < 0) { fail("the handle names a record, the operation answers %d", r); return; }
      if (from && r >= 0 && r != l[0] && r != l[1] && r != l[2]) { fail("the search gives %d, which is no record of the file", r); return; }
      int gone = !strcmp(f.n, "erase"), ed = !strncmp(f.n, "edit", 4); if (c_fstnbrv(u) != 3 - (gone && mine) || (b >= 0 && c_fstnbrv(b) != 3 - (gone && his))) { fail("%d and %d records are left", c_fstnbrv(u), b >= 0 ? c_fstnbrv(b) : -1); return; }
      Meta m; for (int i = 0; i < 3; i++) { if (!(gone && h == l[i]) && (prm(l[i], m) < 0 || m.ip1 != (ed && h == l[i] ? 999 : i))) { fail("record %d is changed", i); return; } if (b >= 0 && !(gone && h == k[i]) && (prm(k[i], m) < 0 || m.ip1 != (ed && h == k[i] ? 999 : 50 + i))) { fail("record %d of the other file is changed", i); return; } }
      cls(u); if (b >= 0) cls(b); });
    state("h " + s + f.n); }
}
int main(int argc, char **argv) {
  init(argc, argv); handles();
  strings(); narrow<short>("16-bit", 16, fstecr_h_, fstlir_h_); narrow<signed char>("8-bit", 8, fstecr_b_, fstlir_b_); chars(); walk(); options(); levels(); listing(); units();
  return done();
}
