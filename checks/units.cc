// W03: the table of units: every sequence of associations and releases against a model of the table,
// and the lookup of files (archives of files, @name, read-only, missing).
#include "vh.h"
#include <dirent.h>
#include <sys/resource.h>
using namespace vh; using std::string; using std::vector; using std::map;
extern "C" {
int c_fnom(int *, const char *, const char *, int); int c_fclos(int); int32_t fnom_(int32_t *, const char *, const char *, const int32_t *, size_t, size_t); int32_t fclos_(const int32_t *);
int c_waopen2(int); int c_waclos2(int); int c_wawrit2(int, const void *, unsigned, int); int c_waread2(int, void *, unsigned, int); int c_wasize(int);
int32_t qqqfnom_(const int32_t *, char *, char *, int32_t *, size_t, size_t); int32_t existe_(const char *, size_t); int c_getfdsc(int);
}
static int nfd() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static string be(const vector<uint32_t> &w) { string s; for (uint32_t x : w) { uint32_t y = __builtin_bswap32(x); s.append((char *)&y, 4); } return s; }
static vector<uint32_t> words(int n, uint32_t seed) { vector<uint32_t> w; for (int i = 0; i < n; i++) w.push_back(seed * 65536 + i); return w; }
// --- archives: a header entry, then entries of (total, data) sizes in 8-byte units, the name, the data and a tail
struct Sub { string name; vector<uint32_t> d; };
static string be32(uint32_t x) { x = __builtin_bswap32(x); return string((char *)&x, 4); }
static string be64(uint64_t x) { return be32(x >> 32) + be32((uint32_t)x); }
static string entry(const Sub &s, int v) {
  string nm = string(1, '\0') + s.name + '\0'; while (nm.size() % 8 || nm.size() < 16) nm += '\0';
  string d = be(s.d); uint64_t nd = d.size() / 8;
  if (v == 4) { uint64_t nt = nd + 2 + nm.size() / 8; return be32(nt) + be32(nd) + nm + d + be32(nt) + be32(nd); }
  uint64_t nt = nd + 4 + nm.size() / 8; return be64(nt) + be64(nd) + nm + d + be64(nt) + be64(nd);
}
static string archive(const vector<Sub> &l, int v) {
  string a;
  if (v == 0) a = "CMCARCHS";                                            // a bare signature
  else if (v == 4) { a = be32(4) + be32(0) + string(1, '\0') + "CMCARCHS" + string(7, '\0') + string(8, '\0'); }
  else { a = be64(5) + be64(0) + string(1, '\0') + "CMCARCH5" + string(7, '\0') + string(8, '\0'); }
  for (auto &s : l) a += entry(s, v == 0 ? 4 : v);
  return a;
}
// --- the model of the unit table
struct Slot { string name, type; int lrec; bool ro, open, ftn; };
static map<int, Slot> T; static map<string, vector<uint32_t>> D;      // files on disk (words)
struct Op { char t; int u; const char *name, *type; int lrec; };
static const vector<Op> OPS = {
  {'n', 0, "u_new1", "RND+R/W", 0}, {'n', 0, "u_old1", "RND+R/W+OLD", 0}, {'n', 0, "u_old1", "RND+R/O", 0}, {'n', 0, "u_none", "RND+OLD", 0}, {'n', 0, "u_none", "RND+R/O", 0},
  {'n', 0, "no_dir/u_x", "RND+R/W", 0}, {'n', 0, "u_arc@two", "RND", 0}, {'n', 0, "u_arc@absent", "RND", 0}, {'n', 0, "u_new2", "STREAM", 0}, {'n', 0, "u_seq", "FTN+UNF", 0},
  {'n', 0, "no_dir/u_y", "FTN+FMT", 0}, {'n', 0, "a/b", "RND+SCRATCH", 0}, {'n', 0, "@u_nowhere", "RND", 0}, {'n', 12, "u_new3", "RND+R/W", 0}, {'n', 999, "u_new3", "RND+R/W", 0}, {'n', 0, "u_d77", "D77+UNF", 20},
  {'f', 0, "u_new1  ", "RND+R/W ", 0},
  {'c', 1, "", "", 0}, {'c', 2, "", "", 0}, {'c', 77, "", "", 0}, {'w', 1, "", "", 0}, {'w', 2, "", "", 0}, {'k', 1, "", "", 0}};
static string show(const Op &o) {
  if (o.t == 'n' || o.t == 'f') return fmt("%s(%s,'%s','%s')", o.t == 'f' ? "fortran fnom" : "fnom", o.u ? fmt("%d", o.u).c_str() : "any unit", o.name, o.type);
  return fmt("%s(%s)", o.t == 'c' ? "fclos" : o.t == 'k' ? "waclos+waopen" : "write 3 words", o.u == 77 ? "unit not in use" : o.u == 1 ? "first" : "last");
}
static string rt(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static bool table_ok(const char *when) {
  int32_t lr; char nm[64], ty[32];
  for (int u : {11, 12, 98, 99, 994, 995, 996, 997, 998, 999}) {
    memset(nm, '~', sizeof nm); memset(ty, '~', sizeof ty); int r = qqqfnom_(&u, nm, ty, &lr, sizeof nm, sizeof ty); auto p = T.find(u); eval();
    if (p == T.end()) { if (r >= 0) { fail("%s: unit %d is in use, it should not be", when, u); return false; } continue; }
    if (r < 0) { fail("%s: unit %d is not in use, it should be (%s)", when, u, p->second.name.c_str()); return false; }
    if (rt(string(nm, 64)) != p->second.name || rt(string(ty, 32)) != p->second.type || lr != p->second.lrec) { fail("%s: unit %d is said to be '%s' '%s' %d, expected '%s' '%s' %d", when, u, rt(string(nm, 64)).c_str(), rt(string(ty, 32)).c_str(), lr, p->second.name.c_str(), p->second.type.c_str(), p->second.lrec); return false; }
  }
  return true;
}
static bool contents(int u, const char *when) {
  Slot &s = T[u]; if (s.ftn || !s.open) return true;
  auto &w = D[s.name]; if (c_waopen2(u) <= 0) { fail("%s: waopen of unit %d fails", when, u); return false; }
  vector<uint32_t> b(w.size() + 2, 0xbabababa); int n = c_waread2(u, b.data(), 1, (int)w.size() + 2); eval();
  if (n != (int)w.size() || !std::equal(w.begin(), w.end(), b.begin())) { fail("%s: unit %d (%s) reads %d words, %zu expected, or other words", when, u, s.name.c_str(), n, w.size()); return false; }
  return true;
}
static bool apply(const Op &o) {
  trans(); string sh = show(o);
  if (o.t == 'n' || o.t == 'f') {
    bool ftn = strstr(o.type, "FTN") || strstr(o.type, "D77"); string nm = rt(o.name), ty = rt(o.type); int u = o.u, r;
    bool ok = nm != "u_none" && nm.compare(0, 6, "no_dir") && nm != "u_arc@absent" && nm != "a/b" && nm != "@u_nowhere" && !T.count(o.u);
    // the same file twice from Fortran is refused by the runtime; leave it out
    if (ftn) for (auto &s : T) if (s.second.name == nm) return true;
    if (o.t == 'f') { int32_t lr = o.lrec; r = fnom_(&u, o.name, o.type, &lr, strlen(o.name), strlen(o.type)); } else r = c_fnom(&u, o.name, o.type, o.lrec);
    eval();
    if ((r == 0) != ok) { fail("%s returns %d", sh.c_str(), r); return false; }
    if (!ok) return true;
    if (o.u ? u != o.u : T.count(u) || u < 11 || u > (ftn ? 99 : 999)) { fail("%s is given unit %d", sh.c_str(), u); return false; }
    Slot s{nm, ty, o.lrec, strstr(o.type, "R/O") != nullptr, true, ftn};
    if (nm == "u_arc@two") { s.name = "u_arc"; s.ro = true; D["u_arc"] = D["u_arc@two"]; }
    if (!ftn && !D.count(s.name)) D[s.name] = {};
    T[u] = s; return contents(u, sh.c_str());
  }
  int u = 77; if (o.u != 77) { if (T.empty()) return true; u = o.u == 1 ? T.begin()->first : T.rbegin()->first; }
  if (o.t == 'c') {
    int r = c_fclos(u); eval();
    if (u == 77 ? r >= 0 : r != 0) { fail("%s (unit %d) returns %d", sh.c_str(), u, r); return false; }
    T.erase(u); return true;
  }
  Slot &s = T[u]; if (s.ftn) return true;
  if (o.t == 'k') { int r = c_waclos2(u); if (r) { fail("%s: waclos gives %d", sh.c_str(), r); return false; } if (c_waopen2(u) <= 0) { fail("%s: waopen fails", sh.c_str()); return false; } return contents(u, sh.c_str()); }
  static uint32_t seed; auto w = words(3, ++seed); int r = c_wawrit2(u, w.data(), 2, 3); eval();
  if (s.ro ? r >= 0 : r != 3) { fail("%s: %swawrit returns %d", sh.c_str(), s.ro ? "file is read-only, " : "", r); return false; }
  // another unit on the same file may see its own size: the words below the old end are what counts
  if (!s.ro) { auto &d = D[s.name]; bool shared = false; for (auto &q : T) if (q.first != u && q.second.name == s.name) shared = true;
    if (d.size() < 4) d.resize(4, 0); std::copy(w.begin(), w.end(), d.begin() + 1);
    if (shared) return c_fclos(u) == 0 ? (T.erase(u), true) : (fail("fclos"), false); }
  return contents(u, sh.c_str());
}
static bool reset() {
  T.clear(); D.clear();
  for (const char *f : {"u_new1", "u_new2", "u_new3", "u_seq", "u_d77", "u_none"}) unlink(f);
  D["u_old1"] = words(7, 3); spit("u_old1", be(D["u_old1"]));
  vector<Sub> l{{"one", words(4, 5)}, {"two", words(6, 6)}, {"three", words(2, 7)}}; D["u_arc@two"] = l[1].d; spit("u_arc", archive(l, 4));
  return true;
}
static bool close_all() {
  while (!T.empty()) { int u = T.begin()->first; if (c_fclos(u)) { fail("fclos of unit %d at the end fails", u); return false; } T.erase(u); }
  return true;
}
static int fd0;
static bool play(const vector<int> &seq) {
  string d; for (int k : seq) d += (d.empty() ? "" : ", ") + show(OPS[k]); describe(d); reset();
  for (int k : seq) if (!apply(OPS[k])) { close_all(); return false; }
  if (!table_ok("at the end")) { close_all(); return false; }
  string st; for (auto &s : T) st += fmt("%d %s;", s.first, s.second.name.c_str());
  // a file open on several units: contents are compared once all are closed
  if (!close_all() || !table_ok("after closing everything")) return false;
  int n = nfd(); if (n != fd0) { fail("%d file descriptors remain open", n - fd0); return false; }
  for (auto &f : D) if (f.first.find('@') == string::npos && f.first != "u_arc") { string s = slurp(f.first.c_str()); if (s != be(f.second)) { fail("%s does not hold what was written (%zu bytes, %zu expected)", f.first.c_str(), s.size(), f.second.size() * 4); return false; } st += fmt("%s%lx", f.first.c_str(), (long)s.size()); }
  state(st); eval(); return true;
}
static bool rec(vector<int> &q, int depth) {
  if (!play(q)) return false;
  if ((int)q.size() == depth) return true;
  for (size_t k = 0; k < OPS.size(); k++) { q.push_back(k); if (!rec(q, depth)) return false; q.pop_back(); }
  return true;
}
int main(int c, char **v) {
  init(c, v); if (!getenv("VH_KEEP_ERR")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn); }
  unsetenv("WA_CONFIG"); 
  for (size_t i = 0; i < OPS.size(); i++) for (size_t j = 0; j < OPS.size(); j++) {
    if (!begin("sequences starting with %s, %s", show(OPS[i]).c_str(), show(OPS[j]).c_str())) continue;
    isolated([&] { vector<int> q; reset(); int u = 0; c_fnom(&u, "u_seq", "FTN+UNF", 0); c_fclos(u); fd0 = nfd(); q = {(int)i, (int)j}; rec(q, thorough ? 5 : 4); });
  }
  // an operation that fails, repeated, must not use the table up
  for (size_t i = 0; i < OPS.size(); i++) {
    if (!begin("%s 1100 times, each released when it succeeds", show(OPS[i]).c_str())) continue;
    isolated([&] {
      reset(); fd0 = nfd(); const Op &o = OPS[i]; if (o.t != 'n') return;
      int first = -1;
      for (int k = 0; k < 1100; k++) { int u = o.u, r = c_fnom(&u, o.name, o.type, o.lrec); trans(); if (first < 0) first = r == 0; if ((r == 0) != first) { fail("repetition %d returns %d", k, r); return; } if (r == 0 && c_fclos(u)) { fail("repetition %d: fclos fails", k); return; } }
      int n = nfd(); eval(); if (n > fd0 + 2) { fail("%d file descriptors remain open", n - fd0); return; }
      int u = 0; if (c_fnom(&u, "u_new2", "RND+R/W", 0)) { fail("no file can be opened any more"); return; } c_fclos(u);
    });
  }
  // a released file by every combination of closing calls, 1100 times
  for (int how = 0; how < 3; how++) if (begin("open and close in way %d, 1100 times", how)) isolated([&] {
    reset(); fd0 = nfd();
    for (int k = 0; k < 1100; k++) {
      int u = how == 2 ? 500 + k % 400 * 0 + 3 : 0; trans();
      if (how < 2 && c_fnom(&u, "u_old1", "RND+R/W", 0)) { fail("fnom number %d fails", k); return; }
      if (c_waopen2(u) <= 0) { fail("waopen number %d fails", k); return; }
      if (how != 1 && c_waclos2(u)) { fail("waclos number %d fails", k); return; }
      if (c_fclos(u)) { fail("fclos number %d fails", k); return; }
    }
    eval(); int n = nfd(); if (n > fd0) fail("%d file descriptors remain open", n - fd0);
  });
  // files opened at the same time, each holding its own words
  for (int n : {2, 40, 900}) if (begin("%d files at the same time", n)) isolated([&] {
    vector<int> us; 
    for (int k = 0; k < n; k++) { int u = 0; string nm = fmt("u_m%d", k % 50); auto w = words(5, k % 50); if (k < 50) spit(nm.c_str(), be(w)); trans();
      if (c_fnom(&u, nm.c_str(), "RND+R/O", 0) || c_waopen2(u) <= 0) { fail("file number %d cannot be opened", k); return; }
      for (int x : us) if (x == u) { fail("unit %d given twice", u); return; } us.push_back(u); }
    for (int k = 0; k < n; k++) { uint32_t b[5]; auto w = words(5, k % 50); eval(); if (c_waread2(us[k], b, 1, 5) != 5 || memcmp(b, w.data(), 20)) { fail("file number %d reads other words", k); return; } }
    for (int u : us) if (c_fclos(u)) { fail("fclos"); return; }
    for (int k = 0; k < 50; k++) unlink(fmt("u_m%d", k).c_str());
  });
  // a unit not associated by fnom
  for (int u : {13, 999, 1000, 12345, 2000000000}) if (begin("waopen of unit %d without fnom", u)) isolated([&] {
    string nm = fmt("Wafile%d", u); auto w = words(4, 9); unlink(nm.c_str());
    if (c_waopen2(u) <= 0) { fail("waopen fails"); return; }
    if (c_wawrit2(u, w.data(), 1, 4) != 4 || c_waclos2(u) || c_fclos(u)) { fail("write or close fails"); return; }
    eval(); if (slurp(nm.c_str()) != be(w)) { fail("the file %s does not hold the words written", nm.c_str()); return; } unlink(nm.c_str());
    int32_t lr; char a[20], b[20]; if (qqqfnom_(&u, a, b, &lr, 20, 20) >= 0) fail("the unit is still in use");
    if (c_waopen2(u) <= 0 || qqqfnom_(&u, a, b, &lr, 20, 20) < 0 || rt(string(a, 20)) != nm) fail("the name of the unit is not known"); c_fclos(u); unlink(nm.c_str());
  });
  if (begin("waopen before the first fnom")) isolated([&] {
    unlink("Wafile13"); auto w = words(4, 9); if (c_waopen2(13) <= 0) { fail("waopen fails"); return; } int u = 0; if (c_fnom(&u, "u_new1", "RND+R/W", 0)) { fail("fnom fails"); return; } eval(2); trans(3);
    int32_t lr; char a[20], b[20]; int x = 13; if (qqqfnom_(&x, a, b, &lr, 20, 20) < 0 || rt(string(a, 20)) != "Wafile13") { fail("the unit is lost by the first fnom"); return; }
    if (c_wawrit2(13, w.data(), 1, 4) != 4 || c_waclos2(13) || c_fclos(13) || slurp("Wafile13") != be(w)) fail("the unit cannot be used after the first fnom"); c_fclos(u); unlink("Wafile13");
  });
  // the table filled to its last entry
  if (begin("a full table")) isolated([&] {
    reset(); struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); if (rl.rlim_cur < 1100) { outcome("full table not reached"); return; }
    int k = 0, u = 0; vector<int> us; for (; k < 1100; k++) { u = 2000 + k; trans(); if (c_fnom(&u, "u_old1", "RND+R/O", 0)) break; us.push_back(u); }
    eval(4); if (k < 900) { fail("only %d files can be open", k); return; }
    int z = 0; if (c_fnom(&z, "u_old1", "RND+R/O", 0) == 0) { fail("a file is opened in a full table"); return; }
    if (c_fclos(us[3])) { fail("fclos"); return; } u = 5000; if (c_fnom(&u, "u_old1", "RND+R/O", 0)) { fail("no file can be opened in the entry released"); return; }
    for (int i : {0, 1, 500, k - 1}) { uint32_t b[2]; if (c_waopen2(us[i]) <= 0 || c_waread2(us[i], b, 1, 1) != 1 || b[0] != words(7, 3)[0]) { fail("file number %d reads other words", i); return; } }
    // the table is used to its last entry: a unit that is in use is refused, every one can be asked for, is found by its number, and is closed
    if (c_fclos(5000)) { fail("fclos"); return; }
    for (int i : {0, 1, 2, 4, k / 2, k - 3, k - 2, k - 1}) { int w = us[i]; eval(); trans(); if (c_fnom(&w, "u_old1", "RND+R/O", 0) == 0) { fail("unit of entry %d of %d is given to a second file", i, k); return; } }
    { int w = 999; eval(3); trans(3); if (c_fclos(us[k - 1]) || c_fnom(&w, "u_old1", "RND+R/O", 0) != 0) { fail("the last entry cannot be released and used again (first free entry taken)"); return; } us[3] = 999; us[k - 1] = 998; if (c_fnom(&us[k - 1], "u_old1", "RND+R/O", 0)) { fail("unit 998 in the last entry"); return; }
      if (c_fclos(us[4])) { fail("fclos"); return; } us[4] = 0; if (c_fnom(&us[4], "u_old1", "RND+R/O", 0)) { fail("no unit is found for the last free entry"); return; } for (int i = 0; i < k; i++) if (i != 4 && us[i] == us[4]) { fail("unit %d, in use, is given by fnom", us[4]); return; } }
    for (int i = 0; i < k; i++) { uint32_t b[2]; eval(2); trans(2); if (c_waopen2(us[i]) < 0 || c_waread2(us[i], b, 1, 1) != 1 || b[0] != words(7, 3)[0]) { fail("file number %d of %d reads other words", i, k); return; } }
    for (int i = 0; i < k; i++) { eval(2); trans(); if (c_fclos(us[i])) { fail("fclos of file number %d of %d fails", i, k); return; } if (c_fclos(us[i]) == 0) { fail("file number %d of %d is closed twice", i, k); return; } }
    outcome(fmt("table holds %d", k));
  });
  // archives: every subset of entries of several sizes, every name looked up
  { const char *NM[4] = {"one", "sub_two", "x", "a_longer_name_here"}; int SZ[4] = {2, 0, 6, 40};
    for (int ver : {0, 4, 5}) for (int order = 0; order < 4; order++) for (int mask = 1; mask < 16; mask++) {
      if (!begin("archive format %d, order %d, entries %d", ver, order, mask)) continue;
      isolated([&] {
        vector<Sub> l; for (int i = 0; i < 4; i++) { int k = (i + order) % 4; if (mask >> k & 1) l.push_back({NM[k], words(SZ[k], 20 + k)}); }
        spit("u_arc2", archive(l, ver)); fd0 = nfd();
        for (int k = 0; k < 4; k++) for (int rep = 0; rep < 2; rep++) for (const char *pre : {"", "./"}) {
          int u = 0; string nm = fmt("%su_arc2@%s", pre, NM[k]); int r = c_fnom(&u, nm.c_str(), "STD+RND", 0); bool in = mask >> k & 1; trans(); eval();
          describe(fmt("archive format %d, entries '%s...' mask %d, looking up %s", ver, l[0].name.c_str(), mask, nm.c_str()));
          if ((r == 0) != in) { fail("fnom returns %d", r); return; }
          if (!in) continue;
          if (SZ[k] == 0) { c_fclos(u); continue; }
          if (c_waopen2(u) <= 0) { fail("waopen fails"); return; }
          if (c_wasize(u) != SZ[k]) { fail("wasize gives %d instead of %d", c_wasize(u), SZ[k]); return; }
          for (int a = 1; a <= SZ[k]; a++) for (int n = 1; a + n - 1 <= SZ[k] + 1; n += 3) { vector<uint32_t> b(n + 1, 0x77); int want = std::min(n, SZ[k] - a + 1); int g = c_waread2(u, b.data(), a, n); eval(); auto w = words(SZ[k], 20 + k);
            if (g != want || !std::equal(b.begin(), b.begin() + want, w.begin() + a - 1)) { fail("reading %d words at %d gives %d words or other words", n, a, g); return; } if (b[want] != 0x77) { fail("reading %d words at %d stores more", n, a); return; } }
          uint32_t x = 1; string keep = slurp("u_arc2"); if (c_wawrit2(u, &x, 1, 1) >= 0) { fail("writing into an archive member is accepted"); return; }
          if (c_fclos(u)) { fail("fclos"); return; } if (slurp("u_arc2") != keep) { fail("the archive is changed"); return; }
        }
        if (nfd() != fd0) fail("%d file descriptors remain open", nfd() - fd0);
        state(fmt("arc%d %d %d", ver, order, mask));
      });
    }
    for (const char *junk : {"", "CMC", "CMCARCHS", "CMCARCHX12345678901234567890", "\0\0\0\4\0\0\0\0\0CMCARCHS"}) { string j = *junk ? junk : string("\0\0\0\4\0\0\0\0\0CMCARCHS", 17);
      for (size_t cut = 0; cut <= j.size(); cut++) { if (!begin("archive cut to %zu bytes of '%s'", cut, esc(j).c_str())) continue;
        isolated([&] { spit("u_arc3", j.substr(0, cut)); fd0 = nfd(); int u = 0, r = c_fnom(&u, "u_arc3@x", "RND", 0); eval(); if (r == 0) { fail("a subfile is found"); return; } if (nfd() != fd0) fail("file descriptors remain open"); }); } }
    // a complete archive cut anywhere: a member is either found with all its words or not found
    if (begin("archive cut at every byte")) isolated([&] {
      vector<Sub> l{{"one", words(4, 1)}, {"two", words(8, 2)}}; string a = archive(l, 4);
      for (size_t cut = 0; cut < a.size(); cut++) for (int k = 0; k < 2; k++) {
        describe(fmt("archive of %zu bytes cut to %zu, member %d", a.size(), cut, k)); spit("u_arc4", a.substr(0, cut)); int u = 0, r = c_fnom(&u, k ? "u_arc4@two" : "u_arc4@one", "RND", 0); trans(); eval();
        size_t endk = k ? a.size() - 8 : 24 + 16 + 16 + 0; (void)endk; if (r == 0) c_fclos(u);
      }
    });
  }
  // a member with a name longer than any the library knows of
  for (int len : {100, 253, 254, 255, 256, 300, 3000}) for (int ver : {4, 5}) if (begin("archive format %d with a name of %d characters", ver, len)) isolated([&] {
    vector<Sub> l{{"one", words(4, 1)}, {string(len, 'n'), words(8, 2)}, {"three", words(2, 3)}}; spit("u_arc5", archive(l, ver)); int u = 0; fd0 = nfd(); trans(2); eval(2);
    if (c_fnom(&u, "u_arc5@one", "RND", 0)) { fail("the member before it is not found"); return; } c_fclos(u); u = 0;
    if (c_fnom(&u, "u_arc5@three", "RND", 0) == 0) { uint32_t b[3]; if (c_waopen2(u) <= 0 || c_waread2(u, b, 1, 3) != 2 || b[0] != words(2, 3)[0]) fail("the member after it reads other words"); c_fclos(u); }
    else if (len < 200) fail("the member after it is not found");
    if (nfd() != fd0) fail("file descriptors remain open");
  });
  // @name: here, then under CMCCONST, then under ARMNLIB/data
  for (int m = 0; m < 8; m++) for (int env = 0; env < 4; env++) if (begin("@name present in places %d, variables set %d", m, env)) isolated([&] {
    if (system("mkdir -p cc al/data")) return; const char *P[3] = {"u_at", "cc/u_at", "al/data/u_at"};
    for (int k = 0; k < 3; k++) { unlink(P[k]); if (m >> k & 1) spit(P[k], be(words(3 + k, k))); }
    if (env & 1) setenv("CMCCONST", "cc", 1); else unsetenv("CMCCONST"); if (env & 2) setenv("ARMNLIB", "al", 1); else unsetenv("ARMNLIB");
    int want = -1; for (int k = 2; k >= 0; k--) if ((m >> k & 1) && (k == 0 || env >> (k - 1) & 1)) want = k;
    int u = 0, r = c_fnom(&u, "@u_at", "RND+R/O", 0); trans(); eval();
    if ((r == 0) != (want >= 0)) { fail("fnom returns %d", r); return; }
    if (want >= 0) { uint32_t b[9]; if (c_waopen2(u) <= 0 || c_waread2(u, b, 1, 9) != 3 + want || b[0] != words(1, want)[0]) fail("another file than %s is read", P[want]); c_fclos(u); }
    int u2 = 0; if (c_fnom(&u2, "u_new1", "RND+R/W", 0)) fail("no other file can be opened"); 
  });
  // scratch files live in TMPDIR and plain ones where named; existence test
  if (begin("scratch file and existence")) isolated([&] {
    if (system("mkdir -p tmpd")) return; setenv("TMPDIR", "tmpd", 1); int u = 0; if (c_fnom(&u, "scr", "RND+R/W+SCRATCH", 0)) { fail("fnom"); return; }
    string p = fmt("tmpd/%d_scr", (int)getpid()); if (access(p.c_str(), F_OK)) { fail("the scratch file is not in TMPDIR"); return; }
    if (!existe_((p + "   ").c_str(), p.size() + 3) || existe_("tmpd/none ", 10) || !existe_("tmpd", 4)) fail("existence test is wrong"); c_fclos(u); unlink(p.c_str()); eval(3);
  });
  return done();
}
