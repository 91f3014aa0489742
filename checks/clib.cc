// X05: the operating system seen from Fortran (clib_interface)
#include "vh.h"
#include <dirent.h>
#include <errno.h>
#include <limits.h>
#include <ctype.h>
#include <glob.h>
using namespace vh; using std::string; using std::vector;
typedef size_t F;
extern "C" {
 int clib_getenv_schhide_(char *, char *, F, F); int clib_putenv_schhide_(char *, F); int clib_realpath_schhide_(char *, char *, F, F); int clib_readlink_schhide_(char *, char *, F, F); int clib_remove_schhide_(char *, F); int clib_rename_schhide_(char *, char *, F, F); int clib_fileexist_schhide_(char *, F); int clib_isreadok_schhide_(char *, F); int clib_iswriteok_schhide_(char *, F); int clib_isexecok_schhide_(char *, F); int clib_chdir_schhide_(char *, F); int clib_getcwd_schhide_(char *, F); int clib_getuid_schhide_(int *); int clib_rmdir_schhide_(char *, F); int clib_symlink_schhide_(char *, char *, F, F); int clib_unlink_schhide_(char *, F); int clib_mkdir_schhide_(char *, F); int clib_isdir_schhide_(char *, F); int clib_islink_schhide_(char *, F); int clib_isfifo_schhide_(char *, F); int clib_isfile_schhide_(char *, F); int64_t clib_size_schhide_(char *, F); int clib_mtime_schhide_(char *, F); int clib_stat_schhide_(char *, int64_t *, F); int clib_basename_schhide_(char *, char *, F, F); int clib_dirname_schhide_(char *, char *, F, F); int clib_glob_schhide_(char *, int *, char *, int *, F, F); int clib_tolower_schhide_(char *, F); int clib_toupper_schhide_(char *, F); int clib_mkdir_r_schhide_(char *, F);
 int clib_isalnum_schhide_(char *, F); int clib_isalpha_schhide_(char *, F); int clib_isblank_schhide_(char *, F); int clib_isdigit_schhide_(char *, F); int clib_islower_schhide_(char *, F); int clib_ispunct_schhide_(char *, F); int clib_isspace_schhide_(char *, F); int clib_isupper_schhide_(char *, F); int clib_isxdigit_schhide_(char *, F);
 int ftn2c_string_copy(unsigned char *, unsigned char *, int, int, unsigned char); int ftn2c_cstra_fstra(unsigned char **, unsigned char *, int, int, int, unsigned char); int ftn2c_fstra_cstra(unsigned char *, unsigned char **, int, int, int, unsigned char); }
// a Fortran string: exactly its characters, nothing after
struct FS { char *p; size_t n; FS(const string &s) : p((char *)malloc(std::max<size_t>(s.size(), 1))), n(s.size()) { memcpy(p, s.data(), n); } FS(size_t k, char c) : FS(string(k, c)) {} ~FS() { free(p); } string str() const { return string(p, n); } FS(const FS &) = delete; };
static string trim(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static string pad(string s, size_t n) { s.resize(n, ' '); return s; }
static int one(int (*f)(char *, F), const string &s) { FS a(s); int r = f(a.p, a.n); if (a.str() != s) fail("the argument '%s' is changed", s.c_str()); trans(); return r; }
static int two(int (*f)(char *, char *, F, F), const string &s, const string &t) { FS a(s), b(t); trans(); return f(a.p, b.p, a.n, b.n); }
static int ok(bool b) { return b ? 1 : -1; }

// ---- trees: the same operation in two directories, through the library and directly
static int fdL, fdR;
static void tree(const string &at, string &r) { vector<string> v; DIR *d = opendir(at.c_str()); if (!d) { r += "?"; return; } while (auto e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(d); std::sort(v.begin(), v.end()); for (auto &x : v) { string p = at + "/" + x; struct stat s; lstat(p.c_str(), &s); r += p + fmt(":%o:", s.st_mode); if (S_ISLNK(s.st_mode)) { char b[300]; ssize_t n = readlink(p.c_str(), b, 299); r += string(b, std::max<ssize_t>(n, 0)); } if (S_ISREG(s.st_mode)) r += fmt("%ld", (long)s.st_size); r += ";"; if (S_ISDIR(s.st_mode)) tree(p, r); } }
static string tree(int fd) { if (fchdir(fd)) return "!"; string r; tree(".", r); return r; }
static void wipe(const string &at) { DIR *d = opendir(at.c_str()); if (!d) return; vector<string> v; while (auto e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(at + "/" + e->d_name); closedir(d); for (auto &p : v) { struct stat s; if (!lstat(p.c_str(), &s)) { if (S_ISDIR(s.st_mode)) { wipe(p); rmdir(p.c_str()); } else unlink(p.c_str()); } } }
struct Op { int k; string a, b; string str() const { static const char *N[] = {"mkdir", "mkdir_r", "unlink", "remove", "rmdir", "rename", "symlink", "create", "fifo"}; return string(N[k]) + " " + a + (b.empty() ? "" : " " + b); } };
static bool isdir(const string &p) { struct stat s; return !stat(p.c_str(), &s) && S_ISDIR(s.st_mode); }
static bool mkp(const string &p) { for (size_t k = 1; k <= p.size(); k++) if (k == p.size() || p[k] == '/') { string q = p.substr(0, k); if (mkdir(q.c_str(), 0755) && !isdir(q)) return false; } return !p.empty(); }
static int direct(const Op &o) { switch (o.k) { case 0: return ok(!mkdir(o.a.c_str(), 0755)); case 1: return ok(mkp(o.a)); case 2: return ok(!unlink(o.a.c_str())); case 3: return ok(!remove(o.a.c_str())); case 4: return ok(!rmdir(o.a.c_str())); case 5: return ok(!rename(o.a.c_str(), o.b.c_str())); case 6: return ok(!symlink(o.a.c_str(), o.b.c_str())); case 7: { int f = open(o.a.c_str(), O_WRONLY | O_CREAT | O_EXCL, o.b == "x" ? 0755 : 0640); if (f >= 0) { if (write(f, "0123456789", 5 + o.a.size()) < 0) {} close(f); } return 0; } default: mkfifo(o.a.c_str(), 0600); return 0; } }
static int throughlib(const Op &o, int blanks) { string a = o.a + string(blanks, ' '), b = o.b + string(blanks * 3, ' '); switch (o.k) { case 0: return one(clib_mkdir_schhide_, a); case 1: return one(clib_mkdir_r_schhide_, a); case 2: return one(clib_unlink_schhide_, a); case 3: return one(clib_remove_schhide_, a); case 4: return one(clib_rmdir_schhide_, a); case 5: return two(clib_rename_schhide_, a, b); case 6: return two(clib_symlink_schhide_, a, b); default: return direct(o); } }
static const vector<string> PATHS = {"a", "b", "d", "d/x", "d/e", "d/e/f", "l", "l/x", "d x", "nothing"};
static bool queries(const string &h) {
  for (size_t k = 0; k < PATHS.size(); k++) { const string &p = PATHS[k]; string q = p + string(k % 3, ' '); struct stat s, t; if (fchdir(fdL)) return false; bool e = !stat(p.c_str(), &s), l = !lstat(p.c_str(), &t); int w;
#define ASK(f, want) w = one(clib_##f##_schhide_, q); eval(); if (w != ok(want)) { fail("%s: " #f " of '%s' is %d, should be %d", h.c_str(), p.c_str(), w, ok(want)); return false; }
    ASK(fileexist, e) ASK(isreadok, !access(p.c_str(), R_OK)) ASK(iswriteok, !access(p.c_str(), W_OK)) ASK(isexecok, !access(p.c_str(), X_OK)) ASK(isdir, e && S_ISDIR(s.st_mode)) ASK(islink, l && S_ISLNK(t.st_mode)) ASK(isfifo, e && S_ISFIFO(s.st_mode)) ASK(isfile, e && S_ISREG(s.st_mode))
    FS a(q); int64_t z = clib_size_schhide_(a.p, a.n), z0 = e ? (int64_t)s.st_size : -1; int m = clib_mtime_schhide_(a.p, a.n), m0 = e ? (int)s.st_mtime : -1; if (z != z0 || m != m0) { fail("%s: size or time of '%s': %ld %d, should be %ld %d", h.c_str(), p.c_str(), (long)z, m, (long)z0, m0); return false; }
    int64_t T[14]; for (auto &x : T) x = 77; w = clib_stat_schhide_(a.p, T, a.n); int64_t T0[14] = {(int64_t)s.st_dev, (int64_t)s.st_ino, (int64_t)s.st_mode, (int64_t)s.st_nlink, (int64_t)s.st_uid, (int64_t)s.st_gid, (int64_t)s.st_rdev, (int64_t)s.st_size, (int64_t)s.st_blksize, (int64_t)s.st_blocks, (int64_t)s.st_atime, (int64_t)s.st_mtime, (int64_t)s.st_ctime, 77}; if (!e) for (auto &x : T0) x = 77; if (w != ok(e) || memcmp(T, T0, sizeof T)) { fail("%s: stat of '%s' is %d or gives other numbers", h.c_str(), p.c_str(), w); return false; }
    char b[300]; ssize_t n = readlink(p.c_str(), b, 299); string want = n > 0 ? string(b, n) : ""; for (size_t len : {(size_t)1, want.size() ? want.size() - 1 : 0, want.size(), want.size() + 1, (size_t)40}) { if (!len) continue; bool fits = n > 0 && want.size() <= len; FS o(len, '#'); if (n < 0 && len < 40) continue; int sv = dup(2), nu = open("/dev/null", O_WRONLY); dup2(nu, 2); close(nu); w = two(clib_readlink_schhide_, q, ""); w = clib_readlink_schhide_(a.p, o.p, a.n, o.n); dup2(sv, 2); close(sv); if (w != ok(fits) || o.str() != pad(fits ? want : "", len)) { fail("%s: readlink of '%s' in %zu characters is %d '%s'", h.c_str(), p.c_str(), len, w, o.str().c_str()); return false; } }
    char *rp = realpath(p.c_str(), nullptr); string rs = rp ? rp : ""; free(rp); for (size_t len : {rs.size() ? rs.size() - 1 : 5, rs.size() + 3}) { bool fits = !rs.empty() && rs.size() <= len; FS o(len, '#'); w = clib_realpath_schhide_(a.p, o.p, a.n, o.n); if (w != ok(fits) || o.str() != pad(fits ? rs : "", len)) { fail("%s: realpath of '%s' in %zu characters is %d '%s'", h.c_str(), p.c_str(), len, w, o.str().c_str()); return false; } } trans(4); eval(4); }
  for (auto g : {"*", "d/*", "?", "[ab]", "l/*", "z*", "*/*"}) for (int cap : {0, 1, 2, 9}) for (size_t len : {(size_t)1, (size_t)4, (size_t)20}) { if (fchdir(fdL)) return false; glob_t G; std::set<string> want; int gr = glob(g, 0, nullptr, &G); if (!gr) for (size_t k = 0; k < G.gl_pathc; k++) want.insert(G.gl_pathv[k]); globfree(&G); size_t longest = 0; for (auto &x : want) longest = std::max(longest, x.size()); bool fits = !want.empty() && (int)want.size() <= cap && longest <= len; FS l(cap * len, '#'); FS pt(string(g) + (cap & 1 ? "  " : "")); int n = -5, w = clib_glob_schhide_(l.p, &n, pt.p, &cap, len, pt.n); trans(); eval(); std::set<string> got; if (w == 1) for (int k = 0; k < n && k < cap; k++) got.insert(trim(l.str().substr(k * len, len))); if (w != ok(fits) || (w == 1 && (got != want || n != (int)want.size()))) { fail("%s: glob '%s' for %d names of %zu is %d, %d names", h.c_str(), g, cap, len, w, n); return false; } if (n < 0 || n > std::max(cap, 0)) { fail("%s: glob '%s' announces %d names of %d", h.c_str(), g, n, cap); return false; } }
  // within a directory
  for (auto &p : {"d", "l", "d/e", "a", "nothing"}) { if (fchdir(fdL)) return false; bool e = isdir(p); char *rp = e && !access(p, X_OK) ? realpath(p, nullptr) : realpath(".", nullptr); string want = rp; free(rp); int w = one(clib_chdir_schhide_, string(p) + "  "); if (w != ok(e)) { fail("%s: chdir to '%s' is %d", h.c_str(), p, w); return false; } for (size_t len : {want.size() - 1, want.size(), want.size() + 9}) { FS o(len, '#'); w = clib_getcwd_schhide_(o.p, o.n); bool fits = len >= want.size(); if (w != ok(fits) || o.str() != pad(fits ? want : "", len)) { fail("%s: getcwd in '%s', %zu characters is %d '%s'", h.c_str(), p, len, w, o.str().c_str()); return false; } } trans(4); eval(4); }
  return true; }
static void trees() { vector<Op> A; for (auto &p : PATHS) { if (p == "nothing") continue; for (int k = 0; k < 5; k++) A.push_back({k, p, ""}); if (p.find('l')) A.push_back({7, p, p == "a" ? "x" : ""}); } A.push_back({8, "b", ""});
  for (auto x : {"a", "d", "d/x", "l", "d x"}) for (auto y : {"a", "b", "d", "d/x", "d/e", "l"}) if (strcmp(x, y)) A.push_back({5, x, y}); for (auto x : {"a", "d", "d/e", "nothing", "x"}) for (auto y : {"l", "b", "d/x"}) A.push_back({6, x, y}); A.push_back({1, "d/e/f/g/h", ""}); A.push_back({1, "a/b/c", ""}); A.push_back({1, "", ""}); A.push_back({0, "", ""}); A.push_back({3, "", ""});
  mkdir("L", 0755); mkdir("R", 0755); fdL = open("L", O_DIRECTORY); fdR = open("R", O_DIRECTORY); int here = open(".", O_DIRECTORY); std::unordered_set<uint64_t> asked;
  auto go = [&](const vector<const Op *> &v, string &h, string &L) { for (int fd : {fdL, fdR}) { if (fchdir(fd)) return false; wipe("."); } h = ""; L = ""; for (size_t k = 0; k < v.size(); k++) { const Op &o = *v[k]; h += (k ? "; " : "") + o.str(); if (fchdir(fdL)) return false; int a = throughlib(o, k); if (fchdir(fdR)) return false; int b = direct(o); if (k + 1 < v.size()) continue; L = tree(fdL); string R = tree(fdR); eval(); if (a != b || L != R) { fail("%s: the last is %d, should be %d; the tree is %s, should be %s", h.c_str(), a, b, L.c_str(), R.c_str()); return false; } } return true; };
  string start = ""; for (size_t a = 0; a < A.size(); a++) { string h, LA; bool firstchange = true; for (size_t b = 0; b < A.size(); b++) { if (!begin("operations %s; %s; any third", A[a].str().c_str(), A[b].str().c_str())) continue; string L; if (!go({&A[a]}, h, LA)) break; if (LA == start) { if (firstchange) queries(h); firstchange = false; state(hash(h + LA)); continue; } if (!go({&A[a], &A[b]}, h, L)) break; state(hash(L + A[b].str() + LA)); if (L == LA) continue; bool fresh = asked.insert(hash(L)).second; if (fresh && !queries(h)) break; if (!fresh && !thorough) continue; // a tree seen before has been continued by every operation already
      for (size_t c = 0; c < A.size(); c++) { string M; if (!go({&A[a], &A[b], &A[c]}, h, M)) break; state(hash(M + A[c].str() + L)); if (thorough && M != L) { if (asked.insert(hash(M)).second && !queries(h)) break; for (size_t d = (a + b + c) % 3; d < A.size(); d += 3) { string N; if (!go({&A[a], &A[b], &A[c], &A[d]}, h, N)) break; state(hash(N + A[d].str() + M)); if (failed_in_case) break; } } if (failed_in_case) break; } if (too_many()) break; } if (too_many()) break; }
  if (fchdir(here)) {} close(here); close(fdL); close(fdR); }
// ---- names: every string
static void names() { string al = "/ab ."; for (int n = 0; n <= (thorough ? 8 : 6); n++) { long m = 1; for (int k = 0; k < n; k++) m *= 5; for (long base = 0; base < m; base += 625) { if (!begin("base and directory names of %d characters, from %ld", n, base)) continue; for (long c = base; c < std::min(m, base + 625); c++) { string s; long x = c; for (int k = 0; k < n; k++, x /= 5) s += al[x % 5]; string t = trim(s); size_t at = t.rfind('/'); 
      for (size_t len : {(size_t)1, (size_t)2, (size_t)5, (size_t)9}) { FS a(s), o(len, '#'); int r = clib_basename_schhide_(a.p, o.p, a.n, o.n); trans(2); eval(2); if (!t.empty() && (t == "/" || t.back() != '/')) { string w = t == "/" ? t : at == string::npos ? t : t.substr(at + 1); bool fits = w.size() <= len; if (r != ok(fits) || (fits && o.str() != pad(w, len))) { fail("basename of '%s' in %zu characters is %d '%s'", s.c_str(), len, r, o.str().c_str()); break; } outcome("basename"); }
        FS d(len, '#'); r = clib_dirname_schhide_(a.p, d.p, a.n, d.n); if (!t.empty() && (at == string::npos || (at > 0 && t[at - 1] != '/' && at + 1 < t.size()))) { string w = at == string::npos ? "." : trim(t.substr(0, at)); bool fits = w.size() <= len; if (r != ok(fits) || (fits && d.str() != pad(w, len))) { fail("dirname of '%s' in %zu characters is %d '%s'", s.c_str(), len, r, d.str().c_str()); break; } outcome("dirname"); } } state(hash(s)); } } } }
// ---- copies between Fortran and C: every string, length and way
static void copies() { for (int n = 0; n <= 5; n++) for (int ld = 0; ld <= 7; ld++) for (int padc = 0; padc < 3; padc++) { if (!begin("copies of %d characters into %d, padding %d", n, ld, padc)) continue; unsigned char pd = padc == 0 ? 0 : padc == 1 ? ' ' : '*'; int m = 1; for (int k = 0; k < n; k++) m *= 3; for (int c = 0; c < m; c++) { string s; int x = c; for (int k = 0; k < n; k++, x /= 3) s += "a \0"[x % 3]; string t = trim(s.substr(0, s.find('\0'))); FS a(s), o(ld, '#'); int r = ftn2c_string_copy((unsigned char *)a.p, (unsigned char *)o.p, n, ld, pd); int r0 = ftn2c_string_copy((unsigned char *)a.p, nullptr, n, ld, pd); bool fits = (int)t.size() <= ld && (pd || (int)t.size() < ld); string w = t; if (pd) w.resize(ld, pd); else w += '\0'; trans(2); eval(); state(hash(s + fmt("|%d %d", ld, padc))); if (r0 != (int)t.size() || r != (fits ? (int)t.size() : -1) || (fits ? o.str().substr(0, w.size()) != w || o.str().find_first_not_of('#', w.size()) != string::npos : o.str() != string(ld, '#'))) { fail("'%s' copied is %d (%d alone) '%s'", esc(s).c_str(), r, r0, esc(o.str()).c_str()); break; } } }
  for (int n = 1; n <= 3; n++) for (int ls = 1; ls <= 3; ls++) for (int ld = 1; ld <= 4; ld++) { if (!begin("arrays of %d strings, %d into %d characters", n, ls, ld)) continue; int m = 1; for (int k = 0; k < n * ls; k++) m *= 2; for (int c = 0; c < m; c++) { string s; for (int k = 0; k < n * ls; k++) s += c >> k & 1 ? ' ' : 'a' + k; FS a(s); vector<unsigned char *> p; for (int k = 0; k < n; k++) { p.push_back((unsigned char *)malloc(ld)); memset(p[k], '#', ld); } int r = ftn2c_fstra_cstra((unsigned char *)a.p, p.data(), ls, ld, n, 0); bool fits = true; for (int k = 0; k < n; k++) { string t = trim(s.substr(k * ls, ls)); fits &= (int)t.size() < ld; if (fits && t != (char *)p[k]) { fail("element %d of '%s' becomes '%s'", k, s.c_str(), (char *)p[k]); break; } } if ((r == 0) != fits) fail("'%s' to C is %d", s.c_str(), r);
        if (fits) { FS b((size_t)n * ls, '#'); r = ftn2c_cstra_fstra(p.data(), (unsigned char *)b.p, ld, ls, n, ' '); if (r || b.str() != s) fail("'%s' comes back as %d '%s'", s.c_str(), r, b.str().c_str()); } trans(2); eval(2); state(hash(s + fmt("%d %d", n, ld))); for (auto q : p) free(q); if (failed_in_case) break; } if (ftn2c_fstra_cstra(nullptr, nullptr, ls, ld, 0, 0) != -1 || ftn2c_cstra_fstra(nullptr, nullptr, ls, ld, -1, ' ') != -1) fail("no element"); } }
// ---- environment: every history of settings and questions
static void environment() { vector<string> A = {"VH_A=1", "VH_A=two words  ", "VH_A=", "VH_B=3", "VH_A=  x", "VH_A", "VH_B=a=b ", "VH_AB=long value of a variable "}; int n = A.size(); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) { if (!begin("environment: '%s' '%s' '%s'", A[a].c_str(), A[b].c_str(), A[c].c_str())) continue; std::map<string, string> M; for (auto x : {"VH_A", "VH_B", "VH_AB"}) unsetenv(x); for (int k : {a, b, c}) { string s = A[k]; int r = one(clib_putenv_schhide_, s + string(k % 2, ' ')); eval(); size_t e = s.find('='); if (e == string::npos) M.erase(s); else M[s.substr(0, e)] = trim(s).substr(e + 1); if (r != 1) { fail("putenv '%s' is %d", s.c_str(), r); break; }
        for (string v : {"VH_A", "VH_B", "VH_AB", "VH_A   ", "VH_", "VH_NONE"}) for (size_t len : {(size_t)1, (size_t)8, (size_t)9, (size_t)30}) { auto it = M.find(trim(v)); string w = it == M.end() ? "" : it->second; bool fits = it != M.end() && w.size() <= len; FS q(v), o(len, '#'); r = clib_getenv_schhide_(q.p, o.p, q.n, o.n); trans(); eval(); if (r != ok(fits) || o.str() != pad(fits ? w : "", len)) { fail("after '%s': getenv '%s' in %zu characters is %d '%s'", s.c_str(), v.c_str(), len, r, o.str().c_str()); break; } state(hash(v + w + fmt("%zu", len))); } } } for (auto x : {"VH_A", "VH_B", "VH_AB"}) unsetenv(x); }
static void letters() { if (!begin("classes of every character")) return; struct { const char *n; int (*f)(char *, F); int (*g)(int); } T[] = {{"isalnum", clib_isalnum_schhide_, isalnum}, {"isalpha", clib_isalpha_schhide_, isalpha}, {"isblank", clib_isblank_schhide_, isblank}, {"isdigit", clib_isdigit_schhide_, isdigit}, {"islower", clib_islower_schhide_, islower}, {"ispunct", clib_ispunct_schhide_, ispunct}, {"isspace", clib_isspace_schhide_, isspace}, {"isupper", clib_isupper_schhide_, isupper}, {"isxdigit", clib_isxdigit_schhide_, isxdigit}}; for (int c = 0; c < 256; c++) for (auto &t : T) { int r = one(t.f, string(1, (char)c)); eval(); if (r != ok(c < 128 && t.g(c))) { fail("%s of character %d is %d", t.n, c, r); return; } state(hash(fmt("%s%d", t.n, c))); }
  string all; for (int c = 0; c < 256; c++) all += (char)c; for (size_t n = 0; n <= 256; n++) { FS l(all.substr(0, n)), u(all.substr(0, n)); if (clib_tolower_schhide_(l.p, l.n) != 1 || clib_toupper_schhide_(u.p, u.n) != 1) fail("case of %zu characters", n); for (size_t k = 0; k < n; k++) { unsigned char c = k; if ((unsigned char)l.p[k] != (c >= 'A' && c <= 'Z' ? c + 32 : c) || (unsigned char)u.p[k] != (c >= 'a' && c <= 'z' ? c - 32 : c)) { fail("case of character %zu", k); return; } } trans(2); eval(); } int u = -5; if (clib_getuid_schhide_(&u) != 1 || u != (int)getuid()) fail("getuid %d", u); }
// ---- paths around the largest length, in every call
static void lengths() { struct { const char *n; int (*f)(char *, F); } T[] = {{"remove", clib_remove_schhide_}, {"fileexist", clib_fileexist_schhide_}, {"isreadok", clib_isreadok_schhide_}, {"iswriteok", clib_iswriteok_schhide_}, {"isexecok", clib_isexecok_schhide_}, {"chdir", clib_chdir_schhide_}, {"rmdir", clib_rmdir_schhide_}, {"unlink", clib_unlink_schhide_}, {"mkdir", clib_mkdir_schhide_}, {"isdir", clib_isdir_schhide_}, {"islink", clib_islink_schhide_}, {"isfifo", clib_isfifo_schhide_}, {"isfile", clib_isfile_schhide_}, {"mkdir_r", clib_mkdir_r_schhide_}, {"mtime", clib_mtime_schhide_}};
  for (auto &t : T) for (size_t n : {0, 1, 255, 256, 4094, 4095, 4096, 4097, 9000}) { if (!begin("%s of a path of %zu characters that does not exist, or of blanks", t.n, n)) continue; string s(n, 'q'); if (n > 255) for (size_t k = 0; k < n; k += 100) s[k] = 'q'; for (auto &x : {s, string(n, ' '), s + " ", " " + s}) { if (strstr(t.n, "mkdir") && trim(x).size() < 256 && !trim(x).empty()) continue; int r = one(t.f, x); eval(); state(hash(fmt("%s%zu", t.n, x.size()))); if (r != -1) { fail("answered %d", r); break; } } }
  for (size_t n : {0, 1, 4095, 4096, 4097}) { if (!begin("two paths of %zu characters", n)) continue; string s(n, 'q'); FS o(50, '#'), o2(50, '#'); for (auto &x : {s, string(n, ' ')}) if (two(clib_rename_schhide_, x, "nonesuch/x") != -1 || two(clib_rename_schhide_, "nonesuch/y", x) != -1 || two(clib_symlink_schhide_, "t", x.size() == 1 ? " " : x) != -1) fail("answered as done"); FS q(s); int sv = dup(2), nu = open("/dev/null", O_WRONLY); dup2(nu, 2); close(nu); int r = clib_realpath_schhide_(q.p, o.p, q.n, o.n), r2 = clib_readlink_schhide_(q.p, o2.p, q.n, o2.n); dup2(sv, 2); close(sv); int64_t T[13]; if (r != -1 || r2 != -1 || clib_size_schhide_(q.p, q.n) != -1 || clib_stat_schhide_(q.p, T, q.n) != -1) fail("a path that does not exist: %d %d", r, r2); eval(4); } }
int main(int c, char **v) { init(c, v); letters(); copies(); names(); environment(); lengths(); trees(); return done(); }
