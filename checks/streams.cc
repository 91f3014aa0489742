// W02: stream files as sequences of bytes with a position, and word-addressable transfers, with every
// system call of every short history cut short or made to fail.
#include <sys/syscall.h>
#include <cerrno>
#include "vh.h"
using namespace vh; using std::string; using std::vector;
extern "C" {
int c_fnom(int *, const char *, const char *, int); int c_fclos(int);
void c_sqopen(int); void c_sqclos(int); void c_sqrew(int); void c_sqeoi(int); int c_getfdsc(int);
int c_sqgetw(int, uint32_t *, int); int c_sqputw(int, const uint32_t *, int); int c_sqgets(int, char *, int); int c_sqputs(int, const char *, int);
int32_t sqgets_(int32_t *, char *, int32_t *, size_t); int32_t sqputs_(int32_t *, const char *, int32_t *, size_t);
int c_waopen2(int); int c_waclos2(int); int c_wawrit2(int, const void *, unsigned, int); int c_waread2(int, void *, unsigned, int);
}
// --- the fault injector: the library's read and write calls pass through here
struct Fault { int k; char kind; };                 // k-th transfer; kind: 1 one byte, h half, l all but one, e EIO, s ENOSPC, i EINTR
static vector<Fault> PLAN; static int ncall, nhit; static bool armed; static bool hit_error;
static ssize_t xfer(int nr, int fd, void *p, size_t n) {
  if (armed && fd > 2) {
    int k = ncall++;
    for (auto &f : PLAN) if (f.k == k) {
      nhit++;
      switch (f.kind) {
        case 'e': hit_error = true; errno = EIO; return -1; case 's': hit_error = true; errno = ENOSPC; return -1; case 'i': hit_error = true; errno = EINTR; return -1;
        case '1': if (n > 1) n = 1; break; case 'h': if (n > 1) n /= 2; break; case 'l': if (n > 1) n--; break;
        case 'w': if (n > 4) n -= 4; break;
      }
    }
  }
  return syscall(nr, fd, p, n);
}
extern "C" ssize_t write(int fd, const void *p, size_t n) { return xfer(SYS_write, fd, (void *)p, n); }
extern "C" ssize_t read(int fd, void *p, size_t n) { return xfer(SYS_read, fd, p, n); }
static string plan() { string s; for (auto &f : PLAN) s += fmt("%s%s transfer %d", s.empty() ? "" : ", ", f.kind == '1' ? "one byte of" : f.kind == 'h' ? "half of" : f.kind == 'l' ? "all but a byte of" : f.kind == 'w' ? "all but a word of" : f.kind == 'e' ? "EIO at" : f.kind == 's' ? "ENOSPC at" : "EINTR at", f.k); return s.empty() ? "no fault" : s; }
// --- streams
struct Op { char t; int n; };
static vector<Op> OPS = {{'p', 1}, {'p', 3}, {'p', 6}, {'P', 1}, {'P', 3}, {'g', 1}, {'g', 4}, {'g', 9}, {'G', 1}, {'G', 2}, {'R', 0}, {'E', 0}, {'C', 0}, {'f', 5}, {'b', 4}};
static string show(const Op &o) {
  const char *nm = o.t == 'p' ? "sqputs" : o.t == 'P' ? "sqputw" : o.t == 'g' ? "sqgets" : o.t == 'G' ? "sqgetw" : o.t == 'R' ? "sqrew" : o.t == 'E' ? "sqeoi" : o.t == 'C' ? "sqclos+sqopen" : o.t == 'f' ? "fortran sqputs" : "fortran sqgets";
  return o.n ? fmt("%s(%d)", nm, o.n) : nm;
}
static string B; static size_t pos; static int U; static const char *F = "stream_f"; static int seedc;
// writes: what may have changed after a failed one
static void put(const char *d, size_t n) { if (B.size() < pos + n) B.resize(pos + n, 0); memcpy(&B[pos], d, n); pos += n; }
enum { GO, STOP, BAD };
static int wrote_partially(const char *d, size_t n) {  // a refused transfer: only bytes of this transfer may be in the file
  string s = slurp(F);
  if (s.size() < B.size() || s.size() > std::max(B.size(), pos + n)) { fail("after a failed write the file has %zu bytes (%zu before, %zu if complete)", s.size(), B.size(), std::max(B.size(), pos + n)); return BAD; }
  for (size_t i = 0; i < s.size(); i++) { bool o = i < B.size() && s[i] == B[i], w = i >= pos && i < pos + n && s[i] == d[i - pos]; if (!o && !w) { fail("after a failed write byte %zu of the file is neither the old nor the new one", i); return BAD; } }
  return STOP;
}
static int apply(const Op &o) {
  trans(); armed = true; int r = 0; bool err0 = hit_error; hit_error = false; (void)err0;
  static char buf[64]; memset(buf, '#', sizeof buf); string d; ++seedc;
  for (int i = 0; i < 32; i++) d += (char)(33 + (seedc * 17 + i * 5) % 90);
  string sh = show(o); size_t left = B.size() > pos ? B.size() - pos : 0;
  switch (o.t) {
    case 'p': case 'f': {
      if (o.t == 'p') r = c_sqputs(U, d.data(), o.n); else { int32_t u = U, n = o.n + 9; r = sqputs_(&u, d.data(), &n, o.n); }
      armed = false; eval();
      if (r > o.n || r == 0) { fail("%s returns %d", sh.c_str(), r); return BAD; }
      if (r < 0) { if (!hit_error) { fail("%s returns %d without any system error", sh.c_str(), r); return BAD; } return wrote_partially(d.data(), o.n); }
      if (PLAN.empty() && r != o.n) { fail("%s returns %d", sh.c_str(), r); return BAD; }
      put(d.data(), r); return GO; }
    case 'P': {
      static uint32_t w[8]; memcpy(w, d.data(), 32);
      r = c_sqputw(U, w, o.n); armed = false; eval();
      if (memcmp(w, d.data(), 32)) { fail("%s changes the words given to it", sh.c_str()); return BAD; }
      if (r < 0) { if (!hit_error) { fail("%s returns %d without any system error", sh.c_str(), r); return BAD; } return wrote_partially(d.data(), 4 * o.n); }
      if (r != o.n) { fail("%s returns %d", sh.c_str(), r); return BAD; }
      put(d.data(), 4 * o.n); return GO; }
    case 'g': case 'b': {
      if (o.t == 'g') r = c_sqgets(U, buf + 8, o.n); else { int32_t u = U, n = o.n; r = sqgets_(&u, buf + 8, &n, o.n + 3); }
      armed = false; eval();
      size_t got = r < 0 ? 0 : r; if (got > (size_t)o.n || got > left) { fail("%s returns %d with %zu bytes left", sh.c_str(), r, left); return BAD; }
      if (r < 0 && !hit_error && left) { fail("%s returns %d with %zu bytes left", sh.c_str(), r, left); return BAD; }
      if (PLAN.empty() && r != (left ? (int)std::min(left, (size_t)o.n) : -1)) { fail("%s returns %d with %zu bytes left", sh.c_str(), r, left); return BAD; }
      if (got && memcmp(buf + 8, B.data() + pos, got)) { fail("%s does not give the bytes at the position", sh.c_str()); return BAD; }
      for (size_t i = 0; i < sizeof buf; i++) if ((i < 8 || i >= 8 + got) && buf[i] != '#') { fail("%s stores outside what it read", sh.c_str()); return BAD; }
      pos += got; return GO; }
    case 'G': {
      r = c_sqgetw(U, (uint32_t *)(buf + 8), o.n); armed = false; eval();
      for (size_t i = 0; i < sizeof buf; i++) if ((i < 8 || i >= 8 + 4 * (size_t)o.n) && buf[i] != '#') { fail("%s stores outside the words asked for", sh.c_str()); return BAD; }
      if (r < 0) { if (!hit_error && left >= 4 * (size_t)o.n) { fail("%s returns %d with %zu bytes left", sh.c_str(), r, left); return BAD; }
        if (hit_error) return STOP; pos = std::max(pos, B.size()); return GO; }
      if (r != o.n || left < 4 * (size_t)o.n) { fail("%s returns %d with %zu bytes left", sh.c_str(), r, left); return BAD; }
      if (memcmp(buf + 8, B.data() + pos, 4 * o.n)) { fail("%s does not give the words at the position", sh.c_str()); return BAD; }
      pos += 4 * o.n; return GO; }
    case 'R': c_sqrew(U); pos = 0; break;
    case 'E': c_sqeoi(U); pos = B.size(); break;
    case 'C': c_sqclos(U); c_sqopen(U); pos = 0; if (c_getfdsc(U) <= 0) { armed = false; fail("the stream cannot be reopened"); return BAD; } break;
  }
  armed = false; return GO;
}
static const char *FN = F;
static int play(const vector<int> &seq, const vector<Fault> &pl) {
  PLAN = pl; ncall = nhit = 0; hit_error = false; B.clear(); pos = 0; seedc = 0; unlink(F);
  string d; for (int k : seq) d += (d.empty() ? "" : ", ") + show(OPS[k]); describe(string(FN[0] == '%' ? "named as a pipe: " : "") + d + "; " + plan());
  U = 31; int r = c_fnom(&U, FN, "STREAM+R/W", 0); if (r) { fail("fnom: %d", r); return BAD; }
  c_sqopen(U); int st = GO;
  for (int k : seq) { st = apply(OPS[k]); if (st != GO) break; }
  int calls = ncall;
  c_sqclos(U); r = c_fclos(U); if (r && st != BAD) { fail("fclos: %d", r); st = BAD; }
  if (st == GO) { string s = slurp(F); if (s != B) { fail("the file has %zu bytes '%s', expected %zu '%s'", s.size(), s.c_str(), B.size(), B.c_str()); st = BAD; } state(hash(B) ^ pos); }
  outcome(pl.empty() ? "stream, no fault" : st == STOP ? "stream, failure reported" : "stream, fault absorbed");
  return st == BAD ? -1 : calls;
}
static const char KINDS[] = "1hlesi";
static bool rec(vector<int> &seq, int depth, bool faults) {
  int n = play(seq, {}); if (n < 0) return false;
  if (faults) for (int k = 0; k < n; k++) for (const char *q = KINDS; *q; q++) {
    int m = play(seq, {{k, *q}}); if (m < 0) return false;
    if (strchr("1hl", *q) && (seq.size() <= 2 || thorough)) for (int k2 = k + 1; k2 < m; k2++) for (const char *q2 = KINDS; *q2; q2++) { if (!thorough && !strchr("1e", *q2)) continue; if (play(seq, {{k, *q}, {k2, *q2}}) < 0) return false; }
  }
  if ((int)seq.size() == depth) return true;
  for (size_t i = 0; i < OPS.size(); i++) { seq.push_back(i); if (!rec(seq, depth, faults)) return false; seq.pop_back(); }
  return true;
}
// --- word-addressable transfers under faults; a stop of the program counts as a report
struct WOp { char t; int a, n; };
static const vector<vector<WOp>> WH = {
  {{'W', 1, 10}}, {{'W', 1, 10}, {'W', 5, 20}}, {{'W', 1, 4}, {'W', 30, 3}}, {{'W', 1, 1500}, {'R', 1, 1500}}, {{'W', 1, 10}, {'R', 3, 5}, {'W', 4, 2}},
  {{'W', 1, 3000}, {'W', 1020, 10}, {'R', 1000, 1500}}, {{'W', 1, 1024}, {'W', 1025, 1024}, {'R', 1, 2048}, {'W', 3, 1}}};
static void wa(int mode, const vector<WOp> &h, const vector<Fault> &pl, int *calls) {
  static const char *MODE[2] = {"", "1 1"}; PLAN = pl;
  string d = fmt("WA_CONFIG='%s':", MODE[mode]); for (auto &o : h) d += fmt(" %s(%d,%d)", o.t == 'W' ? "wawrit" : "waread", o.a, o.n); d += "; " + plan(); describe(d);
  unlink("wa_f"); int pf[2]; if (pipe(pf)) return;
  if (out) fflush(out);
  fflush(stdout); pid_t pid = fork();
  if (pid == 0) {
    if (mode) setenv("WA_CONFIG", MODE[mode], 1); else unsetenv("WA_CONFIG");
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); char st = 'k'; int u = 33; ncall = 0; vector<uint32_t> M; int seed = 0;
    if (c_fnom(&u, "wa_f", "RND+R/W", 0) || c_waopen2(u) <= 0) st = 'o';
    armed = true;
    for (auto &o : h) {
      vector<uint32_t> b(o.n); ++seed;
      if (o.t == 'W') { for (int i = 0; i < o.n; i++) b[i] = seed * 100000 + i; auto k = b; int r = c_wawrit2(u, b.data(), o.a, o.n); if (r < 0) { st = 'n'; break; } if (r != o.n) { st = 'r'; break; } if (b != k) { st = 'c'; break; }
        if ((int)M.size() < o.a + o.n - 1) M.resize(o.a + o.n - 1, 0); std::copy(b.begin(), b.end(), M.begin() + o.a - 1); }
      else { int r = c_waread2(u, b.data(), o.a, o.n); if (r < 0) { st = 'n'; break; } if (r != o.n) { st = 'r'; break; } if (!std::equal(b.begin(), b.end(), M.begin() + o.a - 1)) { st = 'd'; break; } }
    }
    if (st == 'k') { if (c_waclos2(u)) st = 'n'; else if (c_fclos(u)) st = 'n'; }
    armed = false; int rep[3] = {st, ncall, (int)M.size()}; if (write(pf[1], rep, sizeof rep)) {} 
    if (write(pf[1], M.data(), M.size() * 4)) {}
    _exit(0);
  }
  close(pf[1]); string r; char b[65536]; ssize_t k; armed = false; while ((k = read(pf[0], b, sizeof b)) > 0) r.append(b, k); close(pf[0]); int s = 0; waitpid(pid, &s, 0);
  trans(h.size()); eval(); string f = slurp("wa_f");
  if (r.size() < 12) {
    if (WIFSIGNALED(s)) { fail("the program crashes (signal %d)", WTERMSIG(s)); return; }
    if (WEXITSTATUS(s) == 0) { fail("the program stops with status 0"); return; }
    if (pl.empty()) { fail("the program stops (status %d)", WEXITSTATUS(s)); return; }
    *calls = 0; outcome("words, program stopped with an error");
  } else {
    int rep[3]; memcpy(rep, r.data(), 12); *calls = rep[1]; vector<uint32_t> M(rep[2]); memcpy(M.data(), r.data() + 12, rep[2] * 4);
    switch (rep[0]) {
      case 'o': fail("the file cannot be opened"); return; case 'c': fail("the caller's words are changed"); return; case 'd': fail("a read reports success but gives wrong words"); return;
      case 'r': fail("a transfer reports a wrong number of words"); return;
      case 'n': if (pl.empty()) { fail("failure reported without a fault"); return; } outcome("words, failure reported"); return;
    }
    outcome(pl.empty() ? "words, no fault" : "words, fault absorbed");
    if (f.size() != M.size() * 4) { fail("everything reported success, but the file has %zu bytes instead of %zu", f.size(), M.size() * 4); return; }
    for (size_t i = 0; i < M.size(); i++) { uint32_t w; memcpy(&w, &f[4 * i], 4); if (__builtin_bswap32(w) != M[i]) { fail("everything reported success, but word %zu of the file is wrong", i + 1); return; } }
    state(hash(f) ^ 77);
  }
}
int main(int c, char **v) {
  init(c, v); int depth = thorough ? 5 : 4, fdepth = 3;
  for (size_t i = 0; i < OPS.size(); i++) for (size_t j = 0; j < OPS.size(); j++) {
    if (!begin("streams: sequences starting with %s, %s", show(OPS[i]).c_str(), show(OPS[j]).c_str())) continue;
    isolated([&] { vector<int> q{(int)i, (int)j}; if (!rec(q, depth, false)) return; q = {(int)i, (int)j}; if (!rec(q, thorough ? 4 : fdepth, true)) return;
      FN = "%stream_f"; q = {(int)i, (int)j}; rec(q, 2, true); });
  }
  for (int mode = 0; mode < 2; mode++) for (size_t h = 0; h < WH.size(); h++) {
    if (!begin("words: history %zu, mode %d", h, mode)) continue;
    int n = 0; wa(mode, WH[h], {}, &n);
    for (int k = 0; k < n && !failed_in_case; k++) for (const char *q = "1hlwesi"; *q; q++) {
      int m = 0; wa(mode, WH[h], {{k, *q}}, &m); if (failed_in_case) break;
      for (int k2 = k + 1; k2 < m && !failed_in_case; k2++) for (const char *q2 = "1hlwesi"; *q2; q2++) { int x; wa(mode, WH[h], {{k, *q}, {k2, *q2}}, &x); if (failed_in_case) break; }
    }
  }
  return done();
}
