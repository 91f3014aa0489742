// H01: the whiteboard, every history of put / create / get / lock / checkpoint and restart, against a map of keys
#include "vh.h"
#include <map>
#include <algorithm>
using namespace vh; using std::vector; using std::string; using std::map;
extern "C" {
void *c_wb_new(); int c_wb_free(void *); int c_wb_get(void *, char *, char, int, unsigned char *, int, int); int c_wb_put(void *, char *, char, int, unsigned char *, int, int, int);
int c_wb_checkpoint(); int c_wb_reload(); int c_wb_check(void *, char *, int, int, int, void *, void *); int c_wb_lock(void *, char *, int); int c_wb_checkpoint_name(char *); int c_wb_checkpoint_get_name(char *, int);
int f_wb_get_meta_(void **, char *, int *, int *, int *, int *, size_t); int f_wb_get_keys_(void **, char *, int *, char *, size_t, size_t); int wb_reset_(); int c_wb_verbosity(int);
}
enum { R = 1, I = 2, C = 3, L = 4 };
enum { CREATE = 1, NOTINIT = 2, RESTARTED = 4, LOCAL = 8, BAD = 32, INIT = 64, ROREST = 128, NONE = 256, UNTIL = 512, MANY = 1024, ARRAY = 4096 };
struct E { int type, size, n; bool arr; string v; bool init = false, bad = false, ro = false, until = false, many = false, local = false, rorest = false, rest = false; };
typedef map<string, E> W;
static int strsize(int s) { return (s + 39) / 40 * 40; }          // a scalar string may grow up to the storage unit
static string up(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); for (auto &c : s) c = toupper(c); return s; }
static string rtrim(string s) { size_t p = s.find('\0'); if (p != string::npos) s.resize(p); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
// what a put does; error class: 0 accepted, otherwise refused
struct V { int type, size, n; string v; };   // n = 0: scalar
static bool mput(W &w, const string &name, const V &x, int opt) {
  string k = up(name); if (k.size() > 27) return false;
  int sz = x.type == L && x.size == 1 ? 4 : x.size;
  bool okt = (x.type == R || x.type == I) ? (sz == 4 || sz == 8) : x.type == L ? sz == 4 : x.type == C ? sz > 0 && sz <= 520 : false; if (!okt || x.n < 0) return false;
  auto it = w.find(k); bool arr = x.n > 0; int n = arr ? x.n : 1;
  if (it == w.end()) {
    if (!!(opt & NONE) + !!(opt & UNTIL) + !!(opt & MANY) > 1) return false;
    E e; e.type = x.type; e.size = x.type == C && !arr ? strsize(sz) : sz; e.n = n; e.arr = arr; e.v.assign((size_t)e.size * n, '\0'); e.ro = opt & NONE; e.until = opt & UNTIL; e.many = opt & MANY; e.local = opt & LOCAL; e.rorest = opt & ROREST;
    it = w.emplace(k, e).first; if (opt & CREATE) return true;
  } else {
    E &e = it->second; if (opt & CREATE) return false; if (e.ro && e.init) return false; e.bad = true;
    if (e.arr != arr || e.type != x.type || (e.type != C && e.size != sz) || (arr && e.n < n)) return false;
  }
  E &e = it->second; e.bad = true;
  for (int i = 0; i < n; i++) {
    string s = x.v.substr((size_t)i * sz, sz);
    if (x.type == C) { s = rtrim(s); if ((int)s.size() > e.size) return false; s.resize(e.size, ' '); }
    e.v.replace((size_t)i * e.size, e.size, s);
  }
  e.init = true; e.bad = false; return true;
}
static int mget(const W &w, const string &name, int type, int size, int n, string &out) { // < 0 refused, otherwise the result; out: what is written
  string k = up(name); int sz = type == L && size == 1 ? 4 : size; out.clear();
  bool okt = (type == R || type == I) ? (sz == 4 || sz == 8) : type == L ? sz == 4 : type == C ? sz > 0 : false; if (!okt || n < 0) return -1;
  auto it = w.find(k); if (it == w.end()) return -1; const E &e = it->second; bool arr = n > 0; int m = arr ? n : 1;
  if (e.bad || !e.init || e.type != type || (type != C && e.size != sz) || e.arr != arr) return -1;
  if (m > e.n) m = e.n;
  for (int i = 0; i < m; i++) { string s = e.v.substr((size_t)i * e.size, e.size); if (type == C) { s = rtrim(s); if ((int)s.size() > sz) return -1; s.resize(sz, ' '); } out += s; }
  return arr ? e.n : 0;
}
static int optof(const E &e) { return (e.arr ? ARRAY : 0) + (e.rest ? RESTARTED : 0) + (e.ro ? NONE : 0) + (e.bad ? BAD : 0) + (e.local ? LOCAL : 0) + (e.until ? UNTIL : 0) + (e.many ? MANY : 0) + (e.rorest ? ROREST : 0) + (e.init ? INIT : NOTINIT); }
static void *B = nullptr; static int vno;
static string mk(int type, int size, int n) { // distinct values
  int m = n ? n : 1; string s; vno++; int sz = type == L && size == 1 ? 4 : size;
  for (int i = 0; i < m; i++) { string e(sz, '\0');
    if (type == C) { for (int k = 0; k < sz; k++) e[k] = k < (vno + i * 3) % (sz + 1) ? 'a' + (vno + i + k) % 26 : ' '; }
    else if (type == L) { int x = (vno + i) & 1; memcpy(&e[0], &x, 4); }
    else if (type == I) { long long x = sz == 8 ? 1000000007LL * (vno * 100 + i) : vno * 100 + i; memcpy(&e[0], &x, sz); }
    else if (sz == 4) { float x = vno + i / 8.f; memcpy(&e[0], &x, 4); } else { double x = vno + i / 8.; memcpy(&e[0], &x, 8); }
    s += e; }
  return s;
}
static bool cput(W &w, const string &name, const V &x, int opt, const string &d) {
  trans(); vector<unsigned char> b(x.v.begin(), x.v.end()); vector<char> nm(name.begin(), name.end()); nm.push_back('~'); // the name has no terminator
  bool ok = mput(w, name, x, opt); int r = c_wb_put(B, nm.data(), x.type, x.size, b.data(), x.n, opt, name.size()); eval();
  if ((r >= 0) != ok) { fail("%s: %s (%d)", d.c_str(), ok ? "refused" : "accepted, should be refused", r); return false; }
  if (ok && x.type != C && r != x.n && r != w[up(name)].n) { fail("%s: returns %d", d.c_str(), r); return false; }
  outcome(ok ? "put accepted" : "put refused"); return true;
}
static const struct { int t, s, n; } GETS[] = {{I, 4, 0}, {I, 8, 0}, {R, 4, 0}, {R, 8, 0}, {L, 4, 0}, {L, 1, 0}, {C, 3, 0}, {C, 8, 0}, {C, 12, 0}, {C, 60, 0}, {I, 4, 1}, {I, 4, 3}, {I, 4, 9}, {R, 8, 2}, {L, 4, 3}, {C, 4, 3}, {C, 9, 2}, {C, 2, 3}, {C, 12, 9}, {I, 2, 0}, {I, 4, -1}, {5, 4, 0}};
static bool audit(W &w, const vector<string> &names, const string &d) {
  for (auto &n : names) {
    vector<char> nm(n.begin(), n.end()); nm.push_back('~'); void *b = B; int t = -5, s = -5, ne = -5, o = -5; int r = f_wb_get_meta_(&b, nm.data(), &t, &s, &ne, &o, n.size()); eval(); auto it = w.find(up(n));
    if ((r >= 0) != (it != w.end())) { fail("%s: description of key '%s': %d, the key %s", d.c_str(), n.c_str(), r, it == w.end() ? "does not exist" : "exists"); return false; }
    if (r >= 0) { E &e = it->second; if (t != e.type || s != e.size || ne != (e.arr ? e.n : 0) || o != optof(e)) { fail("%s: key '%s' is described as type %d size %d dimension %d options %d, should be %d %d %d %d", d.c_str(), n.c_str(), t, s, ne, o, e.type, e.size, e.arr ? e.n : 0, optof(e)); return false; } }
    for (auto &g : GETS) {
      string want; int x = mget(w, n, g.t, g.s, g.n, want); int sz = g.s < 1 ? 4 : g.s == 1 ? 4 : g.s; size_t len = (size_t)sz * (g.n > 0 ? g.n : 1); vector<unsigned char> o(len + 8, 0xEE);
      int r = c_wb_get(B, nm.data(), g.t, g.s, o.data(), g.n, n.size()); eval();
      if ((r >= 0) != (x >= 0) || (x >= 0 && r != x)) { fail("%s: get of '%s' (type %d size %d dimension %d) gives %d, should %s", d.c_str(), n.c_str(), g.t, g.s, g.n, r, x < 0 ? "be refused" : fmt("give %d", x).c_str()); return false; }
      if (x >= 0) { if (g.t == L) for (size_t k = 0; k < want.size(); k += 4) { int q, y; memcpy(&q, &o[k], 4); memcpy(&y, &want[k], 4); if (!q != !y) { fail("%s: get of '%s': another logical value", d.c_str(), n.c_str()); return false; } }
        else if (memcmp(o.data(), want.data(), want.size())) { fail("%s: get of '%s' (type %d size %d dimension %d): another value than was put", d.c_str(), n.c_str(), g.t, g.s, g.n); return false; } }
      for (size_t k = x >= 0 ? want.size() : len; k < o.size(); k++) if (o[k] != 0xEE) { fail("%s: get of '%s' (type %d size %d dimension %d) writes beyond the values", d.c_str(), n.c_str(), g.t, g.s, g.n); return false; }
    }
  }
  // the list of keys
  const char *pre[] = {"", "K", "k1", "S", "K1X", "Q"};
  for (auto p : pre) { string P = up(p); vector<string> want; for (auto &e : w) if (e.first.compare(0, P.size(), P) == 0) want.push_back(e.first);
    vector<char> nm(p, p + strlen(p)); nm.push_back(' '); vector<char> lab(28 * (want.size() + 2), '#'); int nl = want.size() + 1; void *b = B; int r = f_wb_get_keys_(&b, lab.data(), &nl, nm.data(), 28, strlen(p)); eval();
    vector<string> got; for (int i = 0; i < r; i++) got.push_back(up(string(&lab[28 * i], 28))); std::sort(got.begin(), got.end());
    if (r != (int)want.size() || got != want) { fail("%s: list of the keys starting with '%s' has %d keys, should be %zu", d.c_str(), p, r, want.size()); return false; } }
  return true;
}
static bool clock_(W &w, const string &p, const string &d) { // a lock over a key without a value is refused: what it locked is then read back from the description
  trans(); string P = up(p); int n = 0; bool un = false; for (auto &e : w) if (e.second.until && e.first.compare(0, P.size(), P) == 0) { n++; if (!e.second.init) un = true; }
  vector<char> nm(p.begin(), p.end()); nm.push_back(' '); int r = c_wb_lock(B, nm.data(), p.size()); eval();
  if (un ? r >= 0 : r != n) { fail("%s: lock gives %d, should %s", d.c_str(), r, un ? "be refused" : fmt("give %d", n).c_str()); return false; }
  for (auto &e : w) if (e.second.until && e.first.compare(0, P.size(), P) == 0) {
    if (!un) { e.second.ro = true; e.second.many = false; }
    else if (e.second.init) { vector<char> k(e.first.begin(), e.first.end()); k.push_back(' '); void *b = B; int t, s, ne, o = 0; f_wb_get_meta_(&b, k.data(), &t, &s, &ne, &o, e.first.size()); if (o & NONE) { e.second.ro = true; e.second.many = false; } }
  }
  return true;
}
static bool restart(W &w, const string &d) {
  trans(); int r = c_wb_checkpoint(); if (r < 0) { fail("%s: checkpoint refused (%d)", d.c_str(), r); return false; } wb_reset_(); r = c_wb_reload(); if (r < 0) { fail("%s: restart refused (%d)", d.c_str(), r); return false; }
  for (auto &x : w) { E &e = x.second; if (e.rorest && e.init) { e.ro = true; e.many = false; } if (e.local) { e.init = false; e.bad = false; } e.rest = true; }
  return true;
}
struct Op { string n; int t; string key; V v; int opt; };
static vector<Op> OPS; static vector<int> CORE;
static void mkops() {
  struct S { int t, s, n; const char *d; } sp[] = {{I, 4, 0, "integer"}, {I, 8, 0, "integer*8"}, {I, 4, 3, "integer(3)"}, {I, 4, 2, "integer(2)"}, {I, 4, 12, "integer(12)"}, {R, 8, 0, "real*8"}, {R, 8, 2, "real*8(2)"}, {L, 4, 0, "logical"}, {L, 1, 3, "logical(3)"}, {C, 5, 0, "char*5"}, {C, 41, 0, "char*41"}, {C, 4, 3, "char*4(3)"}, {C, 6, 2, "char*6(2)"}, {C, 0, 0, "char*0"}, {I, 3, 0, "integer*3"}, {R, 4, -1, "real(-1)"}};
  struct O { int o; const char *d; } os[] = {{MANY, "many"}, {NONE, "once"}, {UNTIL, "until locked"}, {MANY | CREATE, "many, created only"}, {UNTIL | CREATE, "until locked, created only"}, {MANY | ROREST, "many, fixed at restart"}, {MANY | LOCAL, "many, local"}, {NONE | MANY, "once and many"}, {ROREST | CREATE, "fixed at restart, created only"}, {ROREST | LOCAL, "local, fixed at restart"}};
  const char *ks[] = {"K1", "K1X", "k1"};
  for (int k = 0; k < 3; k++) for (auto &s : sp) for (auto &o : os) { if (k == 2 && (o.o != MANY || s.n > 3)) continue; if (k == 1 && s.t != I && s.t != C) continue;
    OPS.push_back({fmt("put %s %s (%s)", ks[k], s.d, o.d), 0, ks[k], {s.t, s.s, s.n, ""}, o.o}); }
  for (auto p : {"K", "K1X", ""}) OPS.push_back({fmt("lock '%s'", p), 1, p, {}, 0});
  OPS.push_back({"checkpoint, restart", 2, "", {}, 0});
  // a smaller set for the longer histories
  for (size_t i = 0; i < OPS.size(); i++) { auto &o = OPS[i]; bool c = o.t > 0; if (!c && o.key == "K1") { bool s = (o.v.type == I && o.v.size == 4 && (o.v.n == 0 || o.v.n == 3 || o.v.n == 12)) || (o.v.type == C && (o.v.size == 5 || o.v.size == 41 || o.v.size == 6)); bool q = o.opt == MANY || o.opt == UNTIL || o.opt == (MANY | ROREST) || o.opt == (MANY | LOCAL) || o.opt == (UNTIL | CREATE) || o.opt == NONE; c = s && q; } if (!c && o.key == "K1X" && o.v.type == I && o.v.size == 4 && o.v.n == 0 && (o.opt == UNTIL || o.opt == (MANY | ROREST) || o.opt == (ROREST | CREATE))) c = true; if (c) CORE.push_back(i); }
}
static bool sentinel(W &w, int k) { V x{I, 4, 5, mk(I, 4, 5)}; return cput(w, fmt("S%d", k), x, NONE, fmt("put of sentinel %d", k)); }
static bool play(const vector<int> &q, bool base) {
  string d; for (int k : q) d += string(d.empty() ? "" : ", ") + OPS[k].n; describe(d);
  W w; vno = 0; if (base) { B = nullptr; unlink("wb.ckpt"); wb_reset_(); } else { B = c_wb_new(); if (!B) { fail("no new whiteboard"); return false; } }
  vector<string> names{"K1", "K1X", "k1 ", "KX", "K"}; bool ok = sentinel(w, 0);
  for (size_t i = 0; i < q.size() && ok; i++) { auto &o = OPS[q[i]]; string at = fmt("step %zu, %s", i + 1, o.n.c_str());
    if (o.t == 0) { V x = o.v; x.v = x.size > 0 && x.n >= 0 ? mk(x.type, x.size, x.n) : string(64, 'x'); ok = cput(w, o.key, x, o.opt, at); }
    else if (o.t == 1) ok = clock_(w, o.key, at);
    else ok = restart(w, at);
    if (ok) ok = sentinel(w, i + 1); names.push_back(fmt("S%zu", i + 1)); }
  ok = ok && audit(w, names, "at the end");
  string s; for (auto &e : w) if (e.first[0] == 'K') s += fmt("%s:%d.%d.%d.%d;", e.first.c_str(), e.second.type, e.second.size, e.second.n, optof(e.second)); state(hash(s));
  if (!base) c_wb_free(B); return ok;
}
static bool rec(vector<int> &q, int depth, const vector<int> &al, bool base) { if (!play(q, base)) return false; if ((int)q.size() == depth) return true; for (int k : al) { q.push_back(k); if (!rec(q, depth, al, base)) return false; q.pop_back(); } return true; }
int main(int c, char **v) {
  init(c, v); if (!getenv("VH_KEEP_ERR")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn); } c_wb_verbosity(0);
  mkops(); char ck[] = "wb.ckpt"; c_wb_checkpoint_name(ck); vector<int> all; for (size_t i = 0; i < OPS.size(); i++) all.push_back(i);
  { char n[40]; memset(n, '#', 40); c_wb_checkpoint_get_name(n, 40); if (begin("the name of the checkpoint file") && strcmp(n, ck)) fail("it is '%.39s'", n); }
  // histories of two operations over everything, longer ones over the smaller set
  for (int i : all) { if (!begin("histories starting with %s", OPS[i].n.c_str())) continue; isolated([&] { char ck[] = "wb.ckpt"; c_wb_checkpoint_name(ck); vector<int> q{i}; bool base = false; for (int b = 0; b < 2; b++, base = true) { vector<int> al; for (int k : all) if (base || OPS[k].t != 2) al.push_back(k); if (!base && OPS[i].t == 2) continue; if (!rec(q, 2, al, base)) return; } }); }
  for (int i : CORE) for (int j : CORE) { if (!begin("longer histories starting with %s, %s", OPS[i].n.c_str(), OPS[j].n.c_str())) continue; isolated([&] { char ck[] = "wb.ckpt"; c_wb_checkpoint_name(ck); vector<int> q{i, j}; rec(q, thorough ? 4 : 3, CORE, true); }); }
  // all strings of values of every length, all dimensions around the page size, many keys
  for (int sz : {1, 2, 7, 8, 9, 39, 40, 41, 79, 80, 81, 519, 520, 521}) for (int n : {0, 1, 2, 5, 33}) for (int s2 : {1, 8, 40, 41, 520}) {
    if (!begin("a string of %d characters, dimension %d, then of %d characters", sz, n, s2)) continue;
    isolated([&] { W w; B = c_wb_new(); bool ok = sentinel(w, 0); for (int len : {0, 1, sz - 1, sz}) for (int pass = 0; pass < 2 && ok; pass++) { int z = pass ? s2 : sz; if (len > z) continue; string x; for (int i = 0; i < (n ? n : 1); i++) { string e(len, 'a' + i % 20); e.resize(z, ' '); x += e; } V u{C, z, n, x}; ok = cput(w, "K1", u, MANY, fmt("put of %d characters in char*%d", len, z)) && sentinel(w, 1 + len * 2 + pass);
      if (ok) ok = audit(w, {"K1"}, "afterwards");
      for (int g : {len - 1, len, len + 1, 600}) if (g > 0 && ok) { string want; int m = mget(w, "K1", C, g, n, want); vector<unsigned char> o((size_t)g * (n ? n : 1) + 4, 0xEE); char k[] = "K1"; int r = c_wb_get(B, k, C, g, o.data(), n, 2); eval(); if ((r >= 0) != (m >= 0) || (m >= 0 && memcmp(o.data(), want.data(), want.size()))) { fail("get in char*%d gives %d, should give %d", g, r, m); ok = false; } } }
      if (ok) { vector<string> nm; for (auto &e : w) nm.push_back(e.first); audit(w, nm, "at the end"); } c_wb_free(B); });
  }
  for (int n = 1; n <= (thorough ? 200 : 70); n++) for (int dim : {0, 1, 10, 11, 300, 310, 311, 320, 330, 400}) {
    if (!begin("%d keys of dimension %d, restart", n, dim)) continue;
    isolated([&] { char ck[] = "wb.ckpt"; c_wb_checkpoint_name(ck); W w; B = nullptr; unlink(ck); wb_reset_(); vector<string> nm; bool ok = true; for (int k = 0; k < n && ok; k++) { string key = fmt("K%d%s", k, k % 3 ? "" : "LONGNAMELONGNAME"); int d = k % 4 == 1 ? 0 : k % 4 == 2 ? 7 : dim; V x{I, 4, d, mk(I, 4, d)}; ok = cput(w, key, x, MANY, "put of " + key); nm.push_back(key); }
      ok = ok && audit(w, nm, "before the restart"); ok = ok && restart(w, "restart") && audit(w, nm, "after the restart");
      if (ok) { V x{I, 4, 0, mk(I, 4, 0)}; ok = cput(w, "KNEW", x, MANY, "put after the restart"); nm.push_back("KNEW"); ok = ok && audit(w, nm, "after a put"); ok = ok && restart(w, "second restart") && audit(w, nm, "after the second restart"); } });
  }
  // names
  for (int len = 1; len <= 40; len++) { if (!begin("names of %d characters", len)) continue; isolated([&] { W w; B = c_wb_new(); string a(len, 'n'), b = a; b[len - 1] = 'm'; bool ok = true; for (auto &k : {a, b, a + "   ", up(b)}) { V x{I, 4, 0, mk(I, 4, 0)}; ok = ok && cput(w, k, x, MANY, fmt("put of a name of %zu characters", k.size())); } if (ok) audit(w, {a, b, a + " ", a.substr(0, len - 1)}, "at the end"); c_wb_free(B); }); }
  // a checkpoint file cut at every length, and one that follows a longer one
  for (int n : {1, 3, 40}) for (int cut = 0; cut < 40; cut++) { if (!begin("checkpoint of %d keys cut, piece %d", n, cut)) continue;
    isolated([&] { char ck[] = "wb.ckpt"; c_wb_checkpoint_name(ck); W w; B = nullptr; unlink(ck); wb_reset_(); vector<string> nm; for (int k = 0; k < n; k++) { V x{I, 4, 3, mk(I, 4, 3)}; if (!cput(w, fmt("K%d", k), x, MANY, "put")) return; nm.push_back(fmt("K%d", k)); } c_wb_checkpoint(); string f = slurp(ck); size_t a = f.size() * cut / 40, b = f.size() * (cut + 1) / 40;
      for (size_t k = a; k < b; k += k < 64 || k + 64 > f.size() ? 1 : 37) { if (k >= f.size()) break; describe(fmt("cut after %zu of %zu bytes", k, f.size())); spit(ck, f.substr(0, k)); wb_reset_(); alarm(5); int r = c_wb_reload(); alarm(0); eval(); trans();
        if (k < f.size() - 4 && r >= 0) { fail("accepted at the restart (%d)", r); return; } W e; V x{I, 4, 0, mk(I, 4, 0)}; if (r < 0) { unlink(ck); if (!cput(e, "K0", x, MANY, "put after the refused restart")) return; if (!audit(e, {"K0", "K1"}, "after the refused restart")) return; } } }); }
  if (begin("a first put while a checkpoint file exists")) isolated([&] { char ck[] = "wb.ckpt"; c_wb_checkpoint_name(ck); W w; B = nullptr; unlink(ck); wb_reset_(); V x{I, 4, 0, mk(I, 4, 0)}; if (!cput(w, "K1", x, MANY, "put")) return; c_wb_checkpoint(); wb_reset_(); for (auto &e : w) e.second.rest = true; V y{I, 4, 0, mk(I, 4, 0)}; if (!cput(w, "K1", y, MANY, "put after the restart")) return; audit(w, {"K1"}, "at the end"); });
  return done();
}
