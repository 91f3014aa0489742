// Common driver for the bounded-exhaustive harnesses.
// Every enumerated execution is a numbered "case"; a case is always run from a
// fresh state, so that it can be replayed alone by its number.
#ifndef VH_H
#define VH_H
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>

namespace vh {
struct Shared { volatile long current; volatile long started; char desc[4000]; };
static int thorough = 0, shard = 0, nshards = 1, nviol = 0;
static long only = -1, counter = 0, ran = 0, transitions = 0, evals = 0;
static FILE *out = nullptr;
static Shared *sh = nullptr;
static std::unordered_set<uint64_t> states;
static std::map<std::string, long> outcomes, counts;
static int nsamples = 0;
static bool failed_in_case = false;

static inline std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '\n') r += "\\n"; else if (c == '\t') r += ' ';
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
    else r += (char)c;
  }
  return r;
}
static inline std::string vfmt(const char *f, va_list ap) {
  char b[4000]; vsnprintf(b, sizeof b, f, ap); return b;
}
static inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }
static inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
static inline uint64_t hash(const std::string &s) { return hash(s.data(), s.size()); }

static inline void init(int argc, char **argv) {
  const char *o = nullptr, *s = nullptr;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--tier") thorough = !strcmp(argv[i + 1], "thorough");
    else if (a == "--shard") sscanf(argv[i + 1], "%d/%d", &shard, &nshards);
    else if (a == "--only") only = atol(argv[i + 1]);
    else if (a == "--out") o = argv[i + 1];
    else if (a == "--shared") s = argv[i + 1];
  }
  if (o) { int fd = open(o, O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0666); fd = fcntl(fd, F_DUPFD_CLOEXEC, 900) ; out = fdopen(fd, "w"); }
  else out = stderr;
  if (s) {
    int fd = open(s, O_CREAT | O_RDWR, 0666);
    if (ftruncate(fd, sizeof(Shared))) {}
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else sh = (Shared *)calloc(1, sizeof(Shared));
  sh->current = -1;
}
// Returns true if this case has to be executed by this process.
static inline bool begin(const char *f, ...) {
  long n = counter++;
  if (only >= 0) { if (n != only) return false; }
  else if (n % nshards != shard) return false;
  va_list ap; va_start(ap, f); vsnprintf(sh->desc, sizeof sh->desc, f, ap); va_end(ap);
  sh->current = n; sh->started++; ran++; failed_in_case = false;
  return true;
}
static inline bool begin_s(const std::string &d) { return begin("%s", d.c_str()); }
// Extends the description of the running case (e.g. the operations done so far)
static inline void describe(const std::string &d) { snprintf(sh->desc, sizeof sh->desc, "%s", d.c_str()); }
// sig identifies the failing input for the known-findings file
static inline void fail_sig(const std::string &sig, const std::string &msg) {
  if (failed_in_case) return;
  failed_in_case = true;
  if (++nviol > 40) return;
  fprintf(out, "VIOL\t%ld\t%s\t%s\t%s\n", (long)sh->current, esc(sig).c_str(), esc(sh->desc).c_str(), esc(msg).c_str());
  fflush(out);
}
static inline void fail(const char *f, ...) {
  va_list ap; va_start(ap, f); std::string m = vfmt(f, ap); va_end(ap);
  fail_sig("", m);
}
static inline bool too_many() { return nviol > 40; }
static inline void state(uint64_t h) { states.insert(h); }
static inline void state(const std::string &s) { states.insert(hash(s)); }
static inline void trans(long n = 1) { transitions += n; }
static inline void eval(long n = 1) { evals += n; }
static inline void outcome(const std::string &s) { outcomes[s]++; }
static inline void count(const std::string &s, long n = 1) { counts[s] += n; }
static inline void sample(const char *f, ...) {
  if (nsamples >= 4) return;
  nsamples++;
  va_list ap; va_start(ap, f); std::string m = vfmt(f, ap); va_end(ap);
  fprintf(out, "SAMPLE\t%ld\t%s\n", (long)sh->current, esc(m).c_str());
}
static inline int done() {
  fprintf(out, "CASES\t%ld\t%ld\n", ran, counter);
  fprintf(out, "TRANS\t%ld\nEVALS\t%ld\n", transitions, evals);
  for (auto &o : outcomes) fprintf(out, "OUTCOME\t%ld\t%s\n", o.second, esc(o.first).c_str());
  for (auto &o : counts) fprintf(out, "COUNT\t%ld\t%s\n", o.second, esc(o.first).c_str());
  // state hashes, so that the runner can count distinct states over all shards
  long k = 0;
  for (auto h : states) { if (k++ >= 400000) break; fprintf(out, "S\t%016lx\n", (unsigned long)h); }
  fprintf(out, "DONE\t%d\n", nviol);
  fflush(out);
  return 0;
}
// Runs one case body in a forked child, so that no library state survives it; what the child
// counted is merged into the parent, and a child that does not come back is a violation.
template <class F> static inline void isolated(F f) {
  int pfd[2]; if (pipe(pfd)) { fail("pipe"); return; }
  if (out) fflush(out);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]);
    transitions = evals = 0; outcomes.clear(); counts.clear(); states.clear(); int v0 = nviol;
    f();
    if (out) fflush(out);
    std::string r = fmt("V %d\nT %ld\nE %ld\nN %d\n", nviol - v0, transitions, evals, nsamples);
    for (auto &o : outcomes) r += fmt("O %ld %s\n", o.second, esc(o.first).c_str());
    for (auto &o : counts) r += fmt("C %ld %s\n", o.second, esc(o.first).c_str());
    for (auto h : states) r += fmt("S %lx\n", (unsigned long)h);
    r += "END\n";
    size_t k = 0; while (k < r.size()) { ssize_t w = write(pfd[1], r.data() + k, r.size() - k); if (w <= 0) break; k += w; }
    _exit(0);
  }
  close(pfd[1]);
  std::string r; char b[65536]; ssize_t k;
  while ((k = read(pfd[0], b, sizeof b)) > 0) r.append(b, k);
  close(pfd[0]);
  int st = 0; waitpid(pid, &st, 0);
  bool end = false; size_t p = 0;
  while (p < r.size()) {
    size_t e = r.find('\n', p); if (e == std::string::npos) break;
    std::string l = r.substr(p, e - p); p = e + 1;
    if (l == "END") { end = true; break; }
    long n = 0; int off = 0; sscanf(l.c_str() + 1, "%ld %n", &n, &off);
    switch (l[0]) {
      case 'V': nviol += n; if (n) failed_in_case = true; break;
      case 'T': transitions += n; break; case 'E': evals += n; break; case 'N': nsamples = n; break;
      case 'O': outcomes[l.substr(1 + off)] += n; break; case 'C': counts[l.substr(1 + off)] += n; break;
      case 'S': states.insert(strtoul(l.c_str() + 2, nullptr, 16)); break;
    }
  }
  if (!end && !failed_in_case) fail("the program ended in the middle of the case (%s %d)", WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
}
// Scratch directory handling: the runner starts every shard in a directory of its own.
static inline void wipe(const char *name) { unlink(name); }
static inline std::string slurp(const char *n) {
  std::string r; FILE *f = fopen(n, "rb"); if (!f) return r;
  char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k);
  fclose(f); return r;
}
static inline void spit(const char *n, const std::string &s) {
  FILE *f = fopen(n, "wb"); if (!f) return; fwrite(s.data(), 1, s.size(), f); fclose(f);
}
}
#endif
