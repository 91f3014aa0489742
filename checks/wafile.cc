// W01: every sequence of reads, writes, closings and reopenings of two word-addressable files,
// with and without paging, against arrays of words.
#include "vh.h"
using namespace vh; using std::string; using std::vector;
extern "C" {
int c_fnom(int *, const char *, const char *, int); int c_fclos(int);
int c_waopen2(int); int c_waclos2(int); int c_wawrit2(int, const void *, unsigned, int); int c_waread2(int, void *, unsigned, int);
void c_waread(int, void *, unsigned, int); void c_wawrit(int, const void *, unsigned, int); void c_waopen(int); void c_waclos(int);
int c_wasize(int); int c_numblks(int); void c_checda(int); void c_readda(int, int *, int, int); void c_writda(int, const int *, int, int);
}
typedef vector<uint32_t> Words;
static const int S = 1024;             // words in a page (and the unit of the sizes tried)
static const char *NAME[2] = {"wa_a", "wa_b"};
static const char *MODE[5] = {"", "1 1", "1 2 3", "1 3 2", "1 10 0"};
static Words M[2]; static int U[2] = {21, 22}; static int seedc; static bool busy;
struct Op { char t; int f; long a; int rel; int n; };   // rel: address relative to the size of the file
static vector<Op> OPS;
static string show(const Op &o) {
  if (o.t == 'W' || o.t == 'R') return fmt("%c%c(%s%ld,%d)", o.t, 'A' + o.f, o.rel ? "end+" : "", o.a, o.n);
  if (o.t == 'w' || o.t == 'r') return fmt("%sda%c(block %ld,%d)%s", o.t == 'w' ? "writ" : "read", 'A' + o.f, o.a, o.n, o.rel ? "" : " unchecked");
  return fmt("%s%c", o.t == 'C' ? "waclos/waopen " : "fclos/fnom ", 'A' + o.f);
}
static bool doopen(int f) { int r = c_waopen2(U[f]); if (r <= 0) { fail("waopen of %s: %d", NAME[f], r); return false; } return true; }
static bool size_ok(int f, const char *when) {
  int w = c_wasize(U[f]); eval();
  if (w != (int)M[f].size()) { fail("%s: wasize of %s is %d, %zu words were written", when, NAME[f], w, M[f].size()); return false; }
  int k = c_numblks(U[f]); if (k != (int)(M[f].size() + 255) / 256) { fail("%s: numblks of %s is %d for %d words", when, NAME[f], k, w); return false; }
  return true;
}
static bool rd(int f, long a, int n, const char *what) {
  static Words b; b.assign(n + 4, 0xdeadbeef);
  int r = c_waread2(U[f], b.data() + 2, (unsigned)a, n); long sz = M[f].size(), want;
  if (a > sz + 2) want = -2; else { want = sz - a + 1; if (want > n) want = n; if (want < 0) want = 0; if (sz == 0) want = 0; }
  eval();
  if (r != want) { fail("%s: reading %d words at %ld of a %ld-word file returns %d, expected %ld", what, n, a, sz, r, want); return false; }
  for (long i = 0; i < want; i++) if (b[2 + i] != M[f][a - 1 + i]) { fail("%s: word %ld of %s reads %08x, %08x was last written", what, a + i, NAME[f], b[2 + i], M[f][a - 1 + i]); return false; }
  long w = want < 0 ? 0 : want;
  for (long i = -2; i < n + 2; i++) if ((i < 0 || i >= w) && b[2 + i] != 0xdeadbeef) { fail("%s: reading %d words at %ld wrote outside what was read (word %ld)", what, n, a, i); return false; }
  return true;
}
static void put(int f, long a, const uint32_t *d, int n) {
  if (n <= 0) return;
  if ((long)M[f].size() < a + n - 1) M[f].resize(a + n - 1, 0);
  for (int i = 0; i < n; i++) M[f][a - 1 + i] = d[i];
}
static bool usable(const Op &o) {
  long sz = M[o.f].size(), a = o.rel && (o.t == 'W' || o.t == 'R') ? sz + o.a : o.a;
  if (o.t == 'w' && o.rel == 1) a = (o.a - 1) * 512 + 1;
  if (o.t == 'W') return a >= 1 && a <= sz + 2048;
  if (o.t == 'w') return (o.a - 1) * 512 + 1 <= sz + 2048;
  return a >= 1 || o.t == 'C' || o.t == 'F';
}
static bool apply(const Op &o) {
  trans(); long a = o.rel && (o.t == 'W' || o.t == 'R') ? (long)M[o.f].size() + o.a : o.a;
  string sh = show(o);
  if (o.t == 'W') {
    static Words b; b.resize(o.n + 1); ++seedc; for (int i = 0; i < o.n; i++) b[i] = ((uint32_t)seedc << 16 ^ 0x40000000) + i * 3 + 1;
    Words keep = b;
    int r = c_wawrit2(U[o.f], b.data(), (unsigned)a, o.n);
    if (r != o.n) { fail("%s returns %d", sh.c_str(), r); return false; }
    if (b != keep) { fail("%s changes the words given to it", sh.c_str()); return false; }
    put(o.f, a, b.data(), o.n);
  } else if (o.t == 'R') { if (!rd(o.f, a, o.n, sh.c_str())) return false; }
  else if (o.t == 'w') {
    static vector<int> b; b.resize(o.n * 512); ++seedc; for (size_t i = 0; i < b.size(); i++) b[i] = (seedc << 16) + i;
    c_writda(U[o.f], b.data(), o.n, o.a); put(o.f, (o.a - 1) * 512 + 1, (uint32_t *)b.data(), o.n * 512); c_checda(U[o.f]);
  } else if (o.t == 'r') {
    long at = (o.a - 1) * 512 + 1, sz = M[o.f].size(); static vector<int> b; b.assign(o.n * 512 + 1, 0x5a5a5a5a);
    c_readda(U[o.f], b.data(), o.n, o.a);
    if (!o.rel) { // a second transfer before the first one is checked is refused
      vector<int> c(512, 7); c_readda(U[o.f], c.data(), 1, 1);
      for (int x : c) if (x != 7) { fail("%s: a second readda without a checda transfers data", sh.c_str()); return false; }
      // ... but not one on the other file
      int g = 1 - o.f; c_readda(U[g], c.data(), 1, 1); c_checda(U[g]);
      if (!M[g].empty() && (uint32_t)c[0] != M[g][0]) { fail("%s: a pending transfer on %s prevents one on %s", sh.c_str(), NAME[o.f], NAME[g]); return false; }
    }
    c_checda(U[o.f]); eval();
    for (int i = 0; i <= o.n * 512; i++) {
      uint32_t want = i < o.n * 512 && at - 1 + i < sz && at <= sz ? M[o.f][at - 1 + i] : 0x5a5a5a5a;
      if ((uint32_t)b[i] != want) { fail("%s: word %d reads %08x, expected %08x", sh.c_str(), i, b[i], want); return false; }
    }
  } else if (o.t == 'C') { int r = c_waclos2(U[o.f]); if (r) { fail("%s: waclos %d", sh.c_str(), r); return false; } if (!doopen(o.f)) return false; }
  else { int r = c_fclos(U[o.f]); if (r) { fail("%s: fclos %d", sh.c_str(), r); return false; }
    r = c_fnom(&U[o.f], NAME[o.f], "RND+R/W", 0); if (r) { fail("%s: fnom %d", sh.c_str(), r); return false; } if (!doopen(o.f)) return false; }
  return size_ok(o.f, sh.c_str());
}
static bool finish(bool wacl) {
  for (int f = 0; f < 2; f++) if (!M[f].empty()) if (!rd(f, 1, (int)M[f].size() + 3, "at the end")) return false;
  for (int f = 0; f < 2; f++) {
    if (wacl) { int r = c_waclos2(U[f]); if (r) { fail("waclos at the end: %d", r); return false; } }
    int r = c_fclos(U[f]); if (r) { fail("fclos at the end: %d", r); return false; }
    string s = slurp(NAME[f]); eval();
    if (s.size() != M[f].size() * 4) { fail("the closed file %s has %zu bytes, %zu words were written", NAME[f], s.size(), M[f].size()); return false; }
    for (size_t i = 0; i < M[f].size(); i++) { uint32_t w; memcpy(&w, s.data() + 4 * i, 4); if (__builtin_bswap32(w) != M[f][i]) { fail("word %zu of the closed file %s is %08x, expected %08x", i + 1, NAME[f], __builtin_bswap32(w), M[f][i]); return false; } }
  }
  uint64_t h = 1; for (int f = 0; f < 2; f++) h = hash(M[f].data(), M[f].size() * 4, h * 31 + M[f].size()); state(h);
  return true;
}
static bool begin_files() {
  for (int f = 0; f < 2; f++) {
    M[f].clear(); unlink(NAME[f]);
    int r = c_fnom(&U[f], NAME[f], "RND+R/W", 0); if (r) { fail("fnom %s: %d", NAME[f], r); return false; }
    if (!doopen(f)) return false;
  }
  seedc = 0; return true;
}
static bool abandon() { for (int f = 0; f < 2; f++) { c_waclos2(U[f]); c_fclos(U[f]); } return false; }
static bool run(int mode, const vector<int> &seq) {
  string d = fmt("WA_CONFIG='%s':", MODE[mode]); for (int k : seq) d += " " + show(OPS[k]);
  describe(d); outcome(fmt("paging '%s'", MODE[mode]));
  if (!begin_files()) return abandon();
  for (int k : seq) { if (!usable(OPS[k])) return abandon(), true; if (!apply(OPS[k])) return abandon(); }
  return finish(seq.size() % 2);
}
static bool rec(int mode, vector<int> &seq, int depth) {
  if (!run(mode, seq)) return false;
  if ((int)seq.size() == depth) return true;
  for (size_t k = 0; k < OPS.size(); k++) { seq.push_back(k); if (!rec(mode, seq, depth)) return false; seq.pop_back(); }
  return true;
}
int main(int c, char **v) {
  init(c, v);
  long N1[][3] = {{1, 0, 1}, {1, 0, S - 1}, {1, 0, S}, {1, 0, S + 1}, {1, 0, 2 * S + 3}, {5, 0, 1}, {5, 0, S}, {S, 0, 1}, {S, 0, 2}, {S + 1, 0, 1}, {S + 1, 0, S},
    {2 * S, 0, 1}, {2 * S, 0, S + 1}, {1, 1, 1}, {1, 1, S}, {3, 1, 1}, {1000, 1, 1}, {2048, 1, 2}, {0, 1, 2}};
  for (auto &p : N1) OPS.push_back({'W', 0, p[0], (int)p[1], (int)p[2]});
  long R1[][3] = {{1, 0, 1}, {1, 0, 3 * S}, {S, 0, 2}, {S + 1, 0, 1}, {2 * S, 0, 1}, {2 * S - 1, 0, S}, {0, 1, 1}, {1, 1, 1}, {2, 1, 1}, {3, 1, 1}};
  for (auto &p : R1) OPS.push_back({'R', 0, p[0], (int)p[1], (int)p[2]});
  OPS.push_back({'W', 1, 1, 0, 2}); OPS.push_back({'W', 1, S, 1, 1}); OPS.push_back({'R', 1, 1, 0, 2});
  OPS.push_back({'w', 0, 1, 1, 1}); OPS.push_back({'w', 0, 3, 1, 2}); OPS.push_back({'r', 0, 2, 1, 1}); OPS.push_back({'r', 0, 1, 0, 1});
  OPS.push_back({'C', 0, 0, 0, 0}); OPS.push_back({'F', 0, 0, 0, 0});
  int depth = thorough ? 4 : 3;
  for (int mode = 0; mode < 5; mode++)
    for (int k = -1; k < (int)OPS.size(); k++) {
      if (!begin("WA_CONFIG='%s': sequences starting with %s", MODE[mode], k < 0 ? "nothing" : show(OPS[k]).c_str())) continue;
      isolated([&] { if (*MODE[mode]) setenv("WA_CONFIG", MODE[mode], 1); else unsetenv("WA_CONFIG"); vector<int> seq; if (k >= 0) seq.push_back(k); rec(mode, seq, k < 0 ? 0 : depth); });
    }
  return done();
}
