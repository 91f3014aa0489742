// W04: kinds of files recognised from their contents (c_wkoffit)
#include "vh.h"
#include <dirent.h>
using namespace vh; using std::string; using std::vector;
extern "C" { int32_t c_wkoffit(const char *, int); int32_t wkoffit_(const char *, size_t); int c_fnom(int *, const char *, const char *, int); int c_fstouv(int, const char *); int c_fstfrm(int); int c_fclos(int);
 int c_fstecr(void *, void *, int, int, int, int, int, int, int, int, int, int, int, const char *, const char *, const char *, const char *, int, int, int, int, int, int);
 int c_mrfopn(int, const char *); int c_mrfcls(int); }
static string be(uint32_t w) { string s(4, 0); for (int k = 0; k < 4; k++) s[k] = w >> 8 * (3 - k); return s; }
static string W(std::initializer_list<uint32_t> l) { string s; for (auto w : l) s += be(w); return s; }
static string put(string s, size_t at, const string &x) { if (s.size() < at + x.size()) s.resize(at + x.size(), 0); s.replace(at, x.size(), x); return s; }

// ---- the documented signatures: what a file does not contain matches nothing
struct Oracle { const string &s; size_t size;
  bool has(size_t at, const string &x) const { return s.size() >= at + x.size() && !s.compare(at, x.size(), x); }
  bool w(size_t k, uint32_t v) const { return has(4 * k, be(v)); }
  int64_t word(size_t k) const { if (s.size() < 4 * k + 4) return -1; uint32_t v = 0; for (int q = 0; q < 4; q++) v = v << 8 | (uint8_t)s[4 * k + q]; return v; }
  bool ftn() const { int64_t l = word(0); return l > 0 && l < (1ll << 31) && has(l + 4, be(l)); }
  int xdf(int k) const { return word(4) >= 0 && (size_t)word(4) * 8 == size && s[0] == 0 ? k : -4; }
  bool ps() const { size_t p = 0; int i = 0; string b; auto line = [&] { if (p >= s.size()) return false; size_t e = s.find('\n', p); e = e == string::npos ? s.size() : e + 1; e = std::min(e, p + 255); b = s.substr(p, e - p); b = b.substr(0, b.find('\0')); p = e; return true; };
    while (line()) { if (!i) { for (auto &c : b) c = c >= 'a' && c <= 'z' ? c - 32 : c; if (!b.find("\033%-12345X@PJL ENTER LANGUAGE=POSTSCRIPT")) return true; } if (!b.find("%%")) continue; if (++i > 66) return false; if (!b.find("%!")) { while (line()) { if (++i > 66) return false; if (b[0] == '%' || b[0] == '/') return true; if (b[0] != '\n') return false; } return false; } if (b[0] == '%') continue; return false; } return false; }
  int kmw() const { size_t p = s.find("PLOT$Z"); if (p == string::npos || p + 6 > 350 || p + 6 < 10) return 0; size_t n = s.rfind('\n', p); if (n == string::npos || n < 9) return 16; string d = s.substr(n - 9, 9); return d.find_first_not_of("0123456789 ") == string::npos && d[8] == '3' ? 24 : 16; }
  bool pcl() const { string b = s.substr(0, 13); for (auto &c : b) c = c >= 'a' && c <= 'z' ? c - 32 : c; if (b == "\033%-12345X@PJL") return true; size_t p = 0; auto get = [&] { return p < s.size() ? (int)(uint8_t)s[p++] : -1; }; auto skip = [&] { int c; do c = get(); while (c >= 0 && (c < '@' || c > '^')); };
    for (int c; (c = get()) >= 0;) { if (c != 27) continue; int q = get(); if (q < 0) return false; if (q >= '0' && q <= '~') continue; if (q < '!' || q > '/') return false; if (!strchr("*()&", q)) { skip(); continue; } int g = get(); if (g < 0) return false; if (g < '`' || g > '~') { if (g < '@' || g > '^') skip(); continue; }
      if (!strchr(q == '*' ? "rbvctm" : q == '&' ? "alb" : q == '(' ? "fs" : "s", g)) { skip(); continue; } while (p < s.size() && isdigit((uint8_t)s[p])) p++; return p < s.size(); } return false; }
  bool xwd() const { if (s.size() < 100 || word(1) != 7) return false; return (uint32_t)(word(0) + word(19) * 12 + word(12) * word(5)) == size; }
  int images() const {
    if (has(0, "GIF87a")) return 13; if (has(0, "GIF89a")) return 12; if (s.size() >= 200 && has(36, "RRBXRRUX")) return 25;
    if (s.size() >= 32 && w(0, 0x59a66a95) && (w(6, 0) || w(6, 1))) return 26; if (xwd()) return 30; if (has(0, "P3") || has(0, "P6")) return 22; if (int k = kmw()) return k; if (ps()) return 23;
    auto u = [&](int k) { return (int)(uint8_t)s[k]; };
    if (s.size() >= 8) { if (has(0, "VIEW") || has(0, "WEIV")) return 21; if (s[0] == 'P' && s[1] >= '1' && s[1] <= '6') return 17; if (has(0, "#define")) return 29; if (u(0) == 0x59 && (u(1) & 127) == 0x26 && u(2) == 0x6a && (u(3) & 127) == 0x15) return 26; if (has(0, "BM")) return 32; if (has(0, "\x52\xcc")) return 28; if (has(0, "\x01\xda") || has(0, "\xda\x01")) return 14; if (has(0, "\x1f\x9d")) return 11; if (u(0) == 10 && u(1) <= 5) return 19; if (has(0, "\xff\xd8\xff")) return 15; if (has(0, "MM") || has(0, "II")) return 27;
      if (has(0, "NJPL1I00") || has(2, "NJPL1I") || has(0, "CCSD3ZF") || has(2, "CCSD3Z") || has(0, "LBLSIZE=")) return 20; if (has(0, "%!")) return 23; }
    return pcl() ? 18 : -1; }
  int kind() const {
    if (!size) return -2; if (s.size() >= 1024 ? has(17, "CMCARCH5") : has(17, "CMCARCH5")) return 37; if (has(9, "CMCARCHS")) return 36; if (w(0, 0x55555555) && w(1, 0x55555555)) return 1; if (w(0, 64) && w(17, 64) && w(2, 0x20202020)) return 4; if (w(2, 0x504b3834) && ftn()) return 5; if (w(28, 0xaaaaaaaa) && w(29, 0xaaaaaaaa)) return 2; if (w(29, 0xaaaaaaaa) && w(30, 0xaaaaaaaa) && ftn()) return 3;
    if (has(12, "STDR")) return xdf(33); if (has(16, "RSF0")) return has(20, "STDR") ? 39 : 40; if (has(12, "STDS")) return 34; if (has(12, "BRP0") || has(12, "bRp0")) return xdf(6); if (has(0, "GRIB")) return 7; if (has(0, "BUFR")) return 8; if (has(0, string("CDF\1", 4)) || has(0, string("CDF\2", 4))) return 35; if (has(0, "\x89HDF\r\n\x1a\n")) return 38; if (has(0, "BLOK")) return 9; if (has(0, string("SQLite format 3\0", 16))) return 41; if (ftn()) return 10; return images(); } };

static vector<std::pair<string, string>> full() { vector<std::pair<string, string>> f; auto add = [&](const char *n, const string &s) { f.push_back({n, s}); };
  add("CMCARC 5", put("", 17, "CMCARCH5 and more")); add("CMCARC 4", put("", 9, "CMCARCHS and more")); add("random 89", W({0x55555555, 0x55555555, 1, 2})); add("random 89 once", W({0x55555555, 0x55555554, 1, 2}));
  add("CCRN", put(put(put("", 0, W({64, 0x20475249})), 8, W({0x20202020, 1, 2, 3})), 68, W({64, 64}))); add("PK84", put(put("", 0, W({40, 1, 0x504b3834})), 44, W({40, 40}))); add("PK84 without mark", put(put("", 0, W({40, 1, 0x504b3834})), 44, W({41, 40})));
  add("sequential 89", put("", 112, W({0xaaaaaaaa, 0xaaaaaaaa, 1}))); add("sequential Fortran 89", put(put("", 0, W({120, 7})), 116, W({0xaaaaaaaa, 0xaaaaaaaa, 120, 3}))); add("sequential Fortran 89, long", put(put(put("", 0, W({400, 7})), 116, W({0xaaaaaaaa, 0xaaaaaaaa, 1, 3})), 404, W({400})));
  auto xdf = [&](const char *sig, int words, int id, int n) { string s = put(put(put("", 0, W({(uint32_t)id << 24 | 26, 0})), 8, "XDF0" + string(sig)), 16, W({(uint32_t)words, 1})); s.resize(n, 0); return s; };
  add("random 98", xdf("STDR", 26, 0, 208)); add("random 98, header type 1", xdf("STDR", 26, 1, 208)); add("random 98, longer", xdf("STDR", 26, 0, 216)); add("random 98 of two words", xdf("STDR", 2, 0, 100)); add("sequential 98", xdf("STDS", 26, 0, 208)); add("BURP", xdf("BRP0", 30, 0, 240)); add("old BURP", xdf("bRp0", 30, 0, 240)); add("BURP, shorter", xdf("BRP0", 31, 0, 240)); add("XDF of another kind", xdf("STDQ", 26, 0, 208));
  add("RSF STD", put(put("", 0, W({1, 2, 3, 4})), 16, "RSF0STDR")); add("RSF", put(put("", 0, W({1, 2, 3, 4})), 16, "RSF0ABCD")); add("GRIB", "GRIB12345678"); add("BUFR", "BUFR12345678"); add("netCDF 1", string("CDF\1\0\0\0\5zz", 10)); add("netCDF 2", string("CDF\2\0\0\0\5zz", 10)); add("netCDF 3", string("CDF\3\0\0\0\5zz", 10)); add("HDF5", string("\x89HDF\r\n\x1a\n\0\1\2", 11)); add("BLOK", "BLOKxyzt"); add("SQLite", string("SQLite format 3\0\1\2\3", 19));
  add("Fortran, 1 byte", put(put("", 0, W({1})) + "a", 5, W({1}))); add("Fortran, 16 bytes", W({16, 1, 2, 3, 4, 16, 16, 1, 2, 3, 4, 16})); add("Fortran, 5000 bytes", put(put("", 0, W({5000, 5})), 5004, W({5000}))); add("not Fortran", W({16, 1, 2, 3, 4, 17, 17})); add("not Fortran, negative", W({0xfffffffc, 0xfffffffc, 0xfffffffc})); add("Fortran, empty", W({0, 0, 0, 0}));
  add("GIF 87", "GIF87a..."); add("GIF 89", "GIF89a..."); add("RRBX", put(put(string(200, 'r'), 36, "RRBXRRUX"), 0, W({17, 1, 2, 3}))); add("Sun", W({0x59a66a95, 3, 4, 8, 12, 1, 1, 0, 9})); add("Sun 2", W({0x59a66a95, 3, 4, 8, 12, 1, 0, 0, 9})); add("Sun, unknown map", W({0x59a66a95, 3, 4, 8, 12, 1, 7, 0, 9}));
  { string x; for (int k = 0; k < 25; k++) x += be(k == 0 ? 104 : k == 1 ? 7 : k == 5 ? 5 : k == 12 ? 6 : k == 19 ? 2 : 1); x.resize(104 + 24 + 30, 9); add("XWD", x); add("XWD, longer", x + "z"); }
  for (int k = 1; k <= 7; k++) add("PBM", fmt("P%d 2 2 255 abcd", k)); add("VIEW", "VIEWabcdef"); add("WEIV", "WEIVabcdef"); add("XBM", "#define x_width 8\n"); add("BMP", "BM1234567890"); add("RLE", "\x52\xcc" "abcdefghij"); add("IRIS", "\x01\xda" "abcdefghij"); add("IRIS 2", "\xda\x01" "abcdefghij"); add("compress", "\x1f\x9d" "abcdefghij"); add("PCX", "\x0a\x05" "abcdefghij"); add("not PCX", "\x0a\x06" "abcdefghij"); add("JPEG", "\xff\xd8\xff" "abcdefghij"); add("TIFF", "MMabcdefghij"); add("TIFF 2", "IIabcdefghij");
  for (auto x : {"NJPL1I00", "abNJPL1Iz", "CCSD3ZFzz", "abCCSD3Zz", "LBLSIZE=9"}) add("PDS", string(x) + "abcd"); add("PS", "%!PS-Adobe\n%%x\n"); add("PS, comments before", "%%one\n% two\n%!PS\n\n\n/x 1 def\n"); add("not PS", "%%one\n% two\n%!PS\nabc\n"); add("not PS, text before", "% two\nabc\n%!PS\n%%x\n"); add("PS by PJL", "\033%-12345X@PJL enter LANGUAGE=PostScript \nabc"); add("PCL by PJL", "\033%-12345X@pjl enter\nabc");
  add("PCL", "text \033E\033&l0\033*r1A\033*b12W"); add("PCL, cursor", "\033=1\033*p100X\033(s1p"); add("PCL, nothing", "abc\033E\033&k2G\033%0Bzz\033(8Uabc"); add("not PCL", "abc\033\001*r1A");
  for (int n : {4, 5, 10, 343, 344, 345}) add("KMW", string(n, 'k') + "PLOT$Z"); add("KMW, repeated", "0123456789PPLOTPLOT$Zabc"); add("KMW, one plane", "x001200341\nabPLOT$Z"); add("KMW, three planes", "x001200343\nabPLOT$Z"); add("KMW, three planes again", "zz001203433\nPLOT$Zzz"); add("KMW, other planes", "001200347\nabPLOT$Z"); add("KMW, line too early", "1200343\nabcPLOT$Z"); add("KMW, words", "these are words\nabcPLOT$Z"); add("KMW, after 255", string(20, '\xff') + "PLOT$Z"); add("KMW, zeros", string(20, '\0') + "PLOT$Z"); add("KMW, late", string(330, 'z') + "\n001200343\nPPLOT$Z"); add("text", "just some text\nin two lines\n"); add("one byte", "x"); 
  for (auto &x : f) if (x.second.empty()) x.second = "y";
  return f; }
static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static bool one(const string &name, const string &s, const string &before, const char *file) { Oracle o{s, s.size()}; int r = c_wkoffit(file, strlen(file)), w = o.kind(); trans(); eval(); if (r != w) { fail("a file of %zu bytes, '%s', examined after %s: kind %d, should be %d", s.size(), name.c_str(), before.c_str(), r, w); return false; } state(hash(s.data(), std::min<size_t>(s.size(), 400), r + 100)); outcome(fmt("kind %d", r)); return true; }
static vector<string> forms(const string &s) { std::set<string> v; vector<string> r; auto add = [&](const string &x) { if (v.insert(x).second) r.push_back(x); };
  for (size_t n = 1; n <= std::min<size_t>(s.size(), thorough ? 450 : 240); n++) add(s.substr(0, n)); for (size_t n : {s.size(), s.size() - 1}) if (n) add(s.substr(0, n));
  for (size_t n : {8, 9, 16, 24, 31, 32, 99, 100, 120, 200, 208, 349, 350, 351, 1023, 1024, 1025, 4095, 4096, 4097, 5000}) for (int c : {0, 32, 255, 65, 10}) if (n > s.size() && (thorough || c == 0 || c == 0xff || n < 1000)) { string x = s; x.resize(n, c); add(x); } return r; }
// every form of a file, examined after every complete file
static void histories(const string &bname, const string &content, const vector<std::pair<string, string>> &A, int step, int off) {
  vector<string> an; for (size_t a = 0; a < A.size(); a++) { an.push_back(fmt("a%zu", a)); spit(an.back().c_str(), A[a].second); } int n0 = nfds();
  int k = 0; for (auto &x : forms(content)) { spit("b", x); if (!one(bname, x, "itself", "b")) return; for (size_t a = (k++ + off) % step; a < A.size(); a += step) { c_wkoffit(an[a].c_str(), an[a].size()); trans(); if (!one(bname, x, "'" + A[a].first + "'", "b")) return; } }
  eval(); int n1 = nfds(); if (n1 != n0) fail("'%s': %d more files are open after examining its forms", bname.c_str(), n1 - n0); }
static void names() {
  spit("grib", "GRIB1234"); spit("+grib", "BUFR1234"); spit("gr ib", "BLOK1234"); mkdir("dir", 0755); struct T { const char *n; int l, k; };
  for (auto &t : vector<T>{{"grib", 4, 7}, {"grib    ", 8, 7}, {"gribgrib", 4, 7}, {"+grib", 5, 7}, {"+grib  ", 7, 7}, {"++grib", 6, 8}, {"gr ib", 5, 9}, {"gr ib ", 6, 9}, {"+gr ib ", 7, 9}, {"none", 4, -3}, {"", 0, -3}, {" ", 1, -3}, {"        ", 8, -3}, {"+", 1, -3}, {"+   ", 4, -3}, {"grib/x", 6, -3}, {"./dir/../grib", 13, 7}}) { trans(); eval(2); int r = c_wkoffit(t.n, t.l); if (r != t.k) { fail("file name '%s', %d characters: kind %d, should be %d", t.n, t.l, r, t.k); return; } r = wkoffit_(t.n, t.l); if (r != t.k) { fail("file name '%s', %d characters, Fortran: kind %d, should be %d", t.n, t.l, r, t.k); return; } }
  for (int n : {4080, 4093, 4094}) { string x; while ((int)x.size() < n - 4) x += "./"; x.resize(n - 4, '/'); x += "grib"; if (x.size() > 4 && x[x.size() - 5] == '.') x[x.size() - 5] = '/'; int r = c_wkoffit(x.c_str(), x.size()); trans(); eval(); if (r != 7) { fail("a file name of %d characters: kind %d", n, r); return; } string y = "grib" + string(n * 2, 32); r = c_wkoffit(y.c_str(), y.size()); eval(); if (r != 7) { fail("a file name padded to %d characters: kind %d", n, r); return; } state(x); } outcome("names"); }
static void sizes() { struct T { string s; int k; }; for (auto &t : vector<T>{{"GRIB", 7}, {put("", 16, "RSF0STDR"), 39}, {W({16, 1, 2, 3, 4, 16}), 10}, {string("SQLite format 3\0", 16), 41}}) for (long n : {1l << 31, (1l << 31) + 5, (1l << 32) - 1, 1l << 32, (1l << 32) + 1, 1l << 33, 3l << 31}) { spit("big", t.s); if (truncate("big", n)) { unlink("big"); outcome("no large files here"); return; } int r = c_wkoffit("big", 3); unlink("big"); trans(); eval(); if (r != t.k) { fail("a file of %ld bytes: kind %d, should be %d", n, r, t.k); return; } state(fmt("%ld %d", n, r)); } outcome("sizes"); }
// files written by the library itself, complete and cut
static void real(int seq) { int iun = 0; const char *ty = seq ? "STD+SEQ" : "STD+RND"; if (c_fnom(&iun, "real", ty, 0)) { fail("fnom"); return; } if (c_fstouv(iun, seq ? "SEQ" : "RND") < 0) { fail("fstouv"); return; } float f[200], wk[300]; for (int k = 0; k < 200; k++) f[k] = k; for (int r = 0; r < 3; r++) c_fstecr(f, wk, -16, iun, 0, 0, r, 20, 10, 1, r, 0, 0, "P", "TT", "E", "G", 0, 0, 0, 0, 1, 0); c_fstfrm(iun); c_fclos(iun); string s = slurp("real"); eval(); if (s.size() < 1000 || Oracle{s, s.size()}.kind() != (seq ? 34 : 33)) { fail("the file written is not of its kind"); return; } for (size_t n = 1; n <= s.size(); n += n < 300 || n + 300 > s.size() ? 1 : 97) { spit("b", s.substr(0, n)); if (!one("written by the library", s.substr(0, n), "shorter ones", "b")) return; } }
int main(int argc, char **argv) {
  init(argc, argv); auto F = full(); size_t k = 0;
  for (auto &f : F) { if (begin("kind of files '%s', complete, cut and extended, after files of other kinds", f.first.c_str())) isolated([&] { histories(f.first, f.second, F, thorough ? 1 : 7, k); }); k++; }
  if (begin("names of files")) isolated(names); if (begin("sizes of files")) isolated(sizes); for (int q = 0; q < 2; q++) if (begin("files written by the library, %s", q ? "sequential" : "random")) isolated([&] { real(q); });
  return done(); }
