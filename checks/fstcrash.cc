// F03: a program that writes a random-access standard file is stopped after every write (and in the
// middle of it); what is left on disk is opened and compared with what had been closed.
#include <sys/syscall.h>
#include "fst.hh"
using namespace vh; using namespace fst; using std::vector; using std::map; using std::set;
extern "C" int c_qdfrstr(int, int);
// --- the log of the writes
struct Wr { long off; string d; int op; };
static vector<Wr> LOG; static bool armed; static int curop;
extern "C" ssize_t write(int fd, const void *p, size_t n) {
  if (armed && fd > 2) LOG.push_back({(long)lseek(fd, 0, SEEK_CUR), string((const char *)p, n), curop});
  return syscall(SYS_write, fd, p, n);
}
static const char *F = "c1.fst", *G = "c2.fst", *H = "c3.fst";
static const int DATE = 405318490;
struct R { int id, ver, ni; string et; int dv; bool operator==(const R &o) const { return id == o.id && ver == o.ver && ni == o.ni && et == o.et; } };
typedef vector<R> List;
static void data(int *d, const R &r) { for (int i = 0; i < r.ni; i++) d[i] = (r.id * 1000003 + r.ver * 7919 + i * 31) ^ (i << 20); }
static List M; static int iun, nextid, nextver;
static bool wr(const R &r, bool rewrit) {
  static int b[4096]; data(b, r);
  int rc = c_fstecr(b, nullptr, -32, iun, DATE, 0, 0, r.ni, 1, 1, r.id, 6, 7, "P", "TT", r.et.c_str(), "X", r.ver, 0, 0, 0, 4, rewrit);
  if (rc < 0) { armed = false; fail("write refused: %d", rc); return false; }
  return true;
}
// what a reader sees; 0 refused, 1 read, -1 failed
static int look(const char *f, List &L, string *why) {
  int u = 0; L.clear();
  if (c_fnom(&u, f, "STD+RND+R/O+OLD", 0) < 0) return 0;
  int r = c_fstouv(u, "RND+R/O"); if (r < 0) { c_fclos(u); return 0; }
  int ni, nj, nk, n = -1; static vector<int> K(1200); c_fstinl(u, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " ", K.data(), &n, 1200);
  static int b[8192], e[8192]; int res = 1;
  for (int i = 0; i < n && res == 1; i++) {
    Meta m; if (prm(K[i], m) < 0) { *why = fmt("record %d of %d has no descriptors", i, n); res = -1; break; }
    R x{m.ip1, m.ig1, m.ni, m.etiket};
    if (m.nomvar != "TT" || m.ip2 != 6 || m.ip3 != 7 || m.nj != 1 || m.nk != 1 || m.ni < 1 || m.ni > 4000 || m.datyp != 4 || m.nbits != 32 || m.dateo != DATE) { *why = fmt("record %d of %d reads as %s", i, n, str(m).c_str()); res = -1; break; }
    memset(b, 0x55, sizeof(int) * (m.ni + 2)); int rc = c_fstluk(b, K[i], &ni, &nj, &nk); data(e, x); eval();
    x.dv = x.ver;
    if (rc >= 0 && memcmp(b, e, 4 * m.ni)) for (int v = nextver; v > 0; v--) { R y = x; y.ver = v; data(e, y); if (!memcmp(b, e, 4 * m.ni)) { x.dv = v; break; } } // a record rewritten in place
    if (rc < 0 || memcmp(b, e, 4 * m.ni)) { *why = fmt("record %d of %d (id %d version %d): its data are not what was written (rc %d)", i, n, x.id, x.ver, rc); res = -1; break; }
    L.push_back(x);
  }
  c_fstfrm(u); c_fclos(u); return res;
}
struct Op { char t; int k, ni; };
// W new record, S rewrite of the k-th last in place, G rewrite with another length, E erase k-th, D directory edit, K checkpoint, C close and reopen
static const vector<Op> OPS = {{'W', 0, 4}, {'W', 0, 300}, {'S', 0, 0}, {'G', 0, 0}, {'E', 0, 0}, {'E', 1, 0}, {'D', 0, 0}, {'K', 0, 0}, {'C', 0, 0}};
static string show(const Op &o) { switch (o.t) { case 'W': return fmt("write(%d)", o.ni); case 'S': return "rewrite in place"; case 'G': return "rewrite longer"; case 'E': return o.k ? "erase last" : "erase first"; case 'D': return "edit label"; case 'K': return "checkpoint"; } return "close+reopen"; }
static int handle_of(int i) { int ni, nj, nk; return c_fstinf(iun, &ni, &nj, &nk, -1, " ", M[i].id, 6, 7, " ", "TT"); }
static bool openrw() { iun = opn(F, "STD+RND+R/W", "RND"); if (iun < 0) { armed = false; fail("open for writing: %d", iun); return false; } return true; }
// versions of each record that a reader may meet, for a crash during or after operation number op
static bool apply(const Op &o) {
  trans();
  switch (o.t) {
    case 'W': { R r{++nextid, ++nextver, o.ni, "LABEL"}; if (!wr(r, false)) return false; M.push_back(r); return true; }
    case 'S': case 'G': { if (M.empty()) return true; size_t i = M.size() > 1 ? M.size() - 2 : 0; R r = M[i]; r.ver = ++nextver; if (o.t == 'G') r.ni += 10; if (!wr(r, true)) return false; if (o.t == 'S') M[i] = r; else { M.erase(M.begin() + i); M.push_back(r); } return true; }
    case 'E': { if (M.empty()) return true; size_t i = o.k ? M.size() - 1 : 0; int h = handle_of(i); if (h < 0 || c_fsteff(h) < 0) { armed = false; fail("erase: handle %d", h); return false; } M.erase(M.begin() + i); return true; }
    case 'D': { if (M.empty()) return true; int h = handle_of(0); string l = fmt("ED%d", ++nextver); if (h < 0 || c_fst_edit_dir(h, -1, -1, -1, -1, -1, -1, -1, -1, -1, " ", " ", l.c_str(), " ", -1, -1, -1, -1, -1) < 0) { armed = false; fail("edit: handle %d", h); return false; } M[0].et = l; return true; }
    case 'K': if (c_fstckp(iun) < 0) { armed = false; fail("checkpoint"); return false; } return true;
    case 'C': { int r = cls(iun); if (r < 0) { armed = false; iun = -1; fail("close: %d", r); return false; } return openrw(); }
  }
  return true;
}
static string lst(const List &l) { string s; int n = 0; for (auto &r : l) { if (++n > 12) { s += "..."; break; } s += fmt("%s%d.%d", s.empty() ? "" : " ", r.id, r.ver); } return "[" + s + "]"; }
static long nimg;
static bool judge(const string &img, const string &where, const List &base, bool ever, const vector<List> &since, bool torn_data, int torn_id, bool deep) {
  nimg++; spit(G, img); List L; string why; int r = look(G, L, &why);
  if (r < 0) { fail("%s: %s", where.c_str(), why.c_str()); return false; }
  if (r == 0) { if (ever) { fail("%s: the file is refused for reading, though it held %zu records when last closed or checkpointed", where.c_str(), base.size()); return false; } outcome("refused, never closed"); return true; }
  // every record is a version that existed since then, once
  set<int> ids;
  for (auto &x : L) {
    if (!ids.insert(x.id).second) { fail("%s: record %d is found twice in %s", where.c_str(), x.id, lst(L).c_str()); return false; }
    bool ok = false; for (auto &b : base) if (b == x) ok = true;
    for (auto &s : since) for (auto &b : s) if (b == x) ok = true;
    if (ok && x.dv != x.ver) { // descriptors of one version, data of another: only when both occupy the same place
      ok = false; for (auto &s : since) for (auto &b : s) if (b.id == x.id && b.ver == x.dv && b.ni == x.ni) ok = true;
      if (!ok) { fail("%s: record %d has the descriptors of version %d and the data of version %d", where.c_str(), x.id, x.ver, x.dv); return false; } outcome("rewritten in place, descriptors not yet");
    }
    if (!ok) { fail("%s: record %d version %d label %s never existed", where.c_str(), x.id, x.ver, x.et.c_str()); return false; }
  }
  // every record untouched since then is found, in order
  size_t p = 0;
  for (auto &b : base) {
    bool touched = false; for (auto &s : since) { bool same = false; for (auto &x : s) if (x == b) same = true; if (!same) touched = true; }
    if (touched) continue;
    while (p < L.size() && !(L[p] == b)) p++;
    if (p == L.size()) { fail("%s: record %d, closed and not touched since, is not found (in order) in %s", where.c_str(), b.id, lst(L).c_str()); return false; }
  }
  outcome(ever ? "read" : "read, never closed");
  if (!deep) return true;
  // writing: refused, or the records seen are kept and new ones are added
  spit(H, img); int u = 0; if (c_fnom(&u, H, "STD+RND+R/W", 0) < 0) { fail("%s: fnom for writing", where.c_str()); return false; }
  r = c_fstouv(u, "RND"); 
  if (r < 0) {
    c_fclos(u); outcome("refused for writing"); if (slurp(H) != img) { fail("%s: a file refused for writing is changed", where.c_str()); return false; }
    // the restoring tool gives a file that is accepted, with the same records
    int a = 0, b = 0; unlink("c4.fst"); if (c_fnom(&a, H, "STD+RND+R/O", 0) < 0 || c_fnom(&b, "c4.fst", "STD+RND+R/W", 0) < 0) { fail("%s: fnom", where.c_str()); return false; }
    int q = c_qdfrstr(a, b); c_fclos(a); c_fclos(b); if (q < 0) { fail("%s: restoring fails: %d", where.c_str(), q); return false; }
    List L2; if (look("c4.fst", L2, &why) != 1 || L2 != L) { fail("%s: the restored file holds %s instead of %s %s", where.c_str(), lst(L2).c_str(), lst(L).c_str(), why.c_str()); return false; }
    u = 0; if (c_fnom(&u, "c4.fst", "STD+RND+R/W", 0) < 0 || c_fstouv(u, "RND") < 0) { fail("%s: the restored file is refused for writing", where.c_str()); return false; }
  } else outcome("accepted for writing");
  int keep = iun; iun = u; R x{900000, 5, 20, "AFTER"}; bool w = wr(x, false); iun = keep; if (!w) return false;
  if (c_fstfrm(u) < 0 || c_fclos(u) < 0) { fail("%s: closing after adding a record", where.c_str()); return false; }
  List L3, want = L; want.push_back(x); int q = look(r < 0 ? "c4.fst" : H, L3, &why);
  if (q != 1 || L3 != want) { fail("%s: after adding a record to what was left, the file holds %s instead of %s %s", where.c_str(), lst(L3).c_str(), lst(want).c_str(), why.c_str()); return false; }
  return true;
}
static string BASEIMG; static List BASE; static int BID;
static void make_base(int n) {
  unlink(F); BASEIMG.clear(); BASE.clear(); M.clear(); nextid = nextver = 0;
  if (n >= 0) { if (!openrw()) return; for (int i = 0; i < n; i++) { R r{++nextid, ++nextver, 4 + i % 3, "LABEL"}; if (!wr(r, false)) return; M.push_back(r); } cls(iun); BASEIMG = slurp(F); BASE = M; }
  BID = nextid;
}
static bool play(int n, const vector<int> &seq) {
  string d = n < 0 ? "new file" : fmt("file of %d records", n); for (int k : seq) d += ", " + show(OPS[k]); describe(d + ", close");
  unlink(F); if (n >= 0) spit(F, BASEIMG); M = BASE; nextid = nextver = BID; LOG.clear();
  vector<List> states; vector<size_t> mark; vector<char> commit;         // after each step: the model, the length of the log, whether everything is on disk
  curop = 0; armed = true; bool ok = openrw(); states.push_back(M); mark.push_back(LOG.size()); commit.push_back(0);
  for (size_t i = 0; ok && i < seq.size(); i++) { curop = i + 1; ok = apply(OPS[seq[i]]); states.push_back(M); mark.push_back(LOG.size()); commit.push_back(OPS[seq[i]].t == 'K' || OPS[seq[i]].t == 'C'); }
  curop = seq.size() + 1; if (ok) { int r = cls(iun); if (r < 0) { armed = false; fail("close: %d", r); ok = false; } } else if (iun > 0) cls(iun);
  armed = false; if (!ok) return false;
  states.push_back(M); mark.push_back(LOG.size()); commit.push_back(1);
  // replay the log
  string img = BASEIMG; int op = 0; List base = BASE; bool ever = n >= 0; vector<List> since{base};
  for (size_t k = 0; k <= LOG.size(); k++) {
    while (op < (int)mark.size() && mark[op] <= k && (k == LOG.size() || LOG[k].op > op)) { // step op is complete
      if (commit[op]) { base = states[op]; ever = true; since.clear(); } since.push_back(states[op]); op++; }
    vector<List> s = since; if (op < (int)states.size()) s.push_back(states[op]);
    // the file closed at the end of 'close+reopen' is complete before the reopening
    bool deep = n <= 3 || thorough || k + 3 >= LOG.size();
    if (!judge(img, fmt("stopped after %zu writes of %zu (in step %d)", k, LOG.size(), op), base, ever, s, false, 0, deep)) return false;
    if (k == LOG.size()) break;
    const Wr &w = LOG[k]; state(hash(img));
    // the write cut in the middle: appended data only (a write that overwrites something is one page or record: see the notes)
    size_t cuts[] = {1, 4, 8, w.d.size() / 2, w.d.size() - 4, w.d.size() - 1};
    bool appended = w.off >= (long)img.size();
    if (appended) for (size_t c : cuts) if (c > 0 && c < w.d.size()) {
      string t = img; if (t.size() < w.off + c) t.resize(w.off + c, 0); memcpy(&t[w.off], w.d.data(), c);
      if (!judge(t, fmt("stopped in write %zu of %zu, after %zu of its %zu bytes", k + 1, LOG.size(), c, w.d.size()), base, ever, s, true, 0, false)) return false;
    }
    if (img.size() < w.off + w.d.size()) img.resize(w.off + w.d.size(), 0); memcpy(&img[w.off], w.d.data(), w.d.size());
  }
  if (img != slurp(F)) { fail("the writes recorded do not make up the file (machinery)"); return false; }
  count("crash images", nimg); nimg = 0; return true;
}
static bool rec(int n, vector<int> &q, int depth) {
  if (!play(n, q)) return false; if ((int)q.size() == depth) return true;
  for (size_t k = 0; k < OPS.size(); k++) { q.push_back(k); if (!rec(n, q, depth)) return false; q.pop_back(); }
  return true;
}
int main(int c, char **v) {
  init(c, v); if (!getenv("VH_KEEP_ERR")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn); }
  struct B { int n, dq, dt; } bs[] = {{-1, 4, 5}, {0, 4, 5}, {3, 4, 5}, {254, 2, 3}, {255, 2, 3}, {256, 2, 3}, {257, 2, 3}, {511, 1, 2}, {512, 1, 2}};
  for (auto &b : bs) for (int i = -1; i < (int)OPS.size(); i++) for (int j = -1; j < (int)OPS.size(); j++) {
    if (i < 0 && j >= 0) continue;
    if (!begin("%s, histories starting with %s, %s", b.n < 0 ? "new file" : fmt("file of %d records", b.n).c_str(), i < 0 ? "closing" : show(OPS[i]).c_str(), j < 0 ? "closing" : show(OPS[j]).c_str())) continue;
    isolated([&] { make_base(b.n); vector<int> q; if (i >= 0) q.push_back(i); if (j >= 0) q.push_back(j); int dep = thorough ? b.dt : b.dq; if ((int)q.size() > dep) return; if (i < 0 || j < 0) play(b.n, q); else rec(b.n, q, dep); });
  }
  return done();
}
