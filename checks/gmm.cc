// M01: the memory manager against a reference model, over every sequence of operations of a
// small alphabet, every type and rank, every directory position around the page boundaries and
// every truncation of a restart file.
#include "vh.h"
using namespace vh; using std::string; using std::vector; using std::map;
typedef int (*cr_t)(const char *, int, int *, int, int, int, void **, int *, int *);
typedef int (*ge_t)(const char *, int, int *, int, void **, int *, int *);
#define DECL(e) extern "C" int gw_create_##e(const char *, int, int *, int, int, int, void **, int *, int *); extern "C" int gw_get_##e(const char *, int, int *, int, void **, int *, int *);
#define ALL(X) X(141) X(142) X(143) X(144) X(181) X(182) X(183) X(184) X(241) X(242) X(243) X(244) X(281) X(282) X(283) X(284) X(381) X(382) X(383) X(384)
ALL(DECL)
extern "C" { int gw_do(int, const char *, int, const char *, int, int *); int gw_keys(char *, int, int, const char *, int, int); int gw_shuffle(const char *, int, int); int gw_code(int *, int *, int, int); int gw_ok(int); }
static cr_t CR(int e) { switch (e) {
#define C1(e) case e: return gw_create_##e;
ALL(C1) } return 0; }
static ge_t GE(int e) { switch (e) {
#define C2(e) case e: return gw_get_##e;
ALL(C2) } return 0; }
static const int TYPES[] = {141,142,143,144,181,182,183,184,241,242,243,244,281,282,283,284,381,382,383,384};
enum { RSTR = 1, IZER = 2, INAN = 4, IINV = 8, READ = 16, CRTD = 32, STAGX = 64 };
struct Lay { int low = 0, high = 0, halo = 0, halomax = 0, n = 0; };
struct Att { int64_t key = -2, u1 = 0, u2 = 0; int init = 0, flags = 0; };
struct Meta { Lay l[4]; Att a; };
static_assert(sizeof(Meta) == 28 * 4, "metadata size");
static string show(const Meta &m) { string s; for (auto &l : m.l) s += fmt("%d:%d/%d/%d/%d ", l.low, l.high, l.halo, l.halomax, l.n); return s + fmt("key %lx uuid %lx %lx init %d flags %d", (long)m.a.key, (long)m.a.u1, (long)m.a.u2, m.a.init, m.a.flags); }
static bool eq(const Meta &a, const Meta &b, bool key) { Meta x = a, y = b; if (!key) x.a.key = y.a.key = 0; return !memcmp(&x, &y, sizeof x); }
struct Spec { int ext; Lay l[4]; int rank() const { return ext % 10; } size_t esz() const { return ext / 10 == 14 || ext / 10 == 24 ? 4 : 8; } };
static Spec spec(int ext, vector<std::pair<int, int>> b, int halo = 0) { Spec s; s.ext = ext; for (int i = 0; i < ext % 10; i++) { s.l[i].low = b[i].first; s.l[i].high = b[i].second; s.l[i].halo = halo + i; s.l[i].halomax = 7 + i; s.l[i].n = b[i].second - b[i].first + 1 - 2 * (halo + i); } return s; }
struct Var { Spec s; Meta m; int lb[4] = {}, ub[4] = {}; void *addr = nullptr; string data; bool known = true; size_t bytes() const { size_t n = s.esz(); for (int i = 0; i < s.rank(); i++) n *= ub[i] < lb[i] ? 0 : ub[i] - lb[i] + 1; return n; } };
static string n32(const string &s) { string r = s.substr(0, 32); while (r.size() && r.back() == ' ') r.pop_back(); return r; }
struct World {
  map<string, Var> v; bool live = true, good = true; int stamp = 0; vector<string> watch = {"A", "B", "C"};
  template <class... T> bool bad(const char *f, T... a) { if (good) fail(f, a...); good = false; return false; }
  string pattern(size_t n) { stamp++; string d(n, 0); for (size_t i = 0; i < n; i++) d[i] = (char)(1 + (stamp * 31 + i * 7) % 101); return d; }
  bool create(const string &nm, const Spec &s, int flags, bool hasfl, int up, const Att &at = Att()) {   // up: 0 no array, 1 matching bounds, 2 other bounds of the same sizes, 3 other sizes
    string k = n32(nm); Meta in; for (int i = 0; i < 4; i++) in.l[i] = s.l[i]; in.a = at; if (!hasfl) in.a.flags = flags; else in.a.flags = 0x7fff0000;
    int lb[4] = {}, ub[4] = {}; for (int i = 0; i < s.rank(); i++) { lb[i] = s.l[i].low; ub[i] = s.l[i].high; if (up == 2) { lb[i] += 5; ub[i] += 5; } if (up == 3 && i == s.rank() - 1) ub[i]++; }
    int exp = 0; auto f = v.find(k); bool restored = false;
    if (up == 3) exp = -4; else if (f != v.end()) {
      if (up) exp = -5; else {
        bool ok = f->second.s.ext == s.ext; for (int i = 0; i < s.rank() && ok; i++) ok = f->second.ub[i] - f->second.lb[i] == s.l[i].high - s.l[i].low;
        if (!ok) exp = -4; else if (f->second.m.a.flags & CRTD) exp = -6; else restored = true; } }
    void *addr = nullptr; Meta m = in; int rc = exp, lb0[4], ub0[4]; memcpy(lb0, lb, sizeof lb); memcpy(ub0, ub, sizeof ub);
    if (live) { trans(); void *ua = (void *)1; addr = ua; rc = CR(s.ext)(nm.data(), nm.size(), (int *)&m, flags, hasfl, up, &addr, lb, ub); }
    string what = fmt("create %s type %d flags %d%s", nm.c_str(), s.ext, flags, up ? fmt(" array %d", up).c_str() : "");
    if (rc != exp) return bad("%s gives %d, expected %d", what.c_str(), rc, exp);
    outcome(fmt("create %d%s%s", exp, restored ? " (restored)" : "", up ? " (user array)" : ""));
    if (exp) { if (live && !up && addr) return bad("%s: refused, but the pointer is associated", what.c_str()); return true; }
    if (restored) { Var &x = f->second; x.m.a.flags |= (flags & 7) | CRTD; if (live) { if (addr != x.addr && x.addr) return bad("%s: the restored array is not given back", what.c_str()); if (!addr) return bad("%s: pointer not associated", what.c_str()); x.addr = addr; } return true; }
    Var x; x.s = s; for (int i = 0; i < s.rank(); i++) x.m.l[i] = s.l[i]; x.m.a = at; x.m.a.flags = (flags & 7) | CRTD; memcpy(x.lb, lb0, sizeof lb); memcpy(x.ub, ub0, sizeof ub);
    if (live) {
      if (!addr) return bad("%s: pointer not associated", what.c_str());
      x.addr = addr; for (int i = 0; i < s.rank(); i++) { int l = lb0[i], u = ub0[i]; if (u < l) l = 1, u = 0; if (lb[i] != l || ub[i] != u) return bad("%s: dimension %d is %d:%d, expected %d:%d", what.c_str(), i + 1, lb[i], ub[i], l, u); }
      x.m.a.key = m.a.key; if (!eq(m, x.m, true)) return bad("%s: metadata returned is %s, expected %s", what.c_str(), show(m).c_str(), show(x.m).c_str());
      if (m.a.key < 0) return bad("%s: key %ld", what.c_str(), (long)m.a.key);
      for (auto &o : v) if (o.second.m.a.key == m.a.key && o.second.known) return bad("%s: same key as %s", what.c_str(), o.first.c_str());
      size_t nb = x.bytes(); const unsigned char *c = (const unsigned char *)addr;
      if (flags & INAN && s.ext >= 240) { for (size_t i = 0; i < nb; i += s.ext / 10 == 28 ? 8 : s.ext / 10 == 24 ? 4 : 8) { bool nan = s.ext / 10 == 28 ? *(double *)(c + i) != *(double *)(c + i) : *(float *)(c + i) != *(float *)(c + i); if (!nan) return bad("%s: element %d not initialised to NaN", what.c_str(), (int)(i / s.esz())); } }
      else if (flags & IZER) for (size_t i = 0; i < nb; i++) if (c[i]) return bad("%s: byte %d not initialised to zero", what.c_str(), (int)i);
    }
    x.data = pattern(x.bytes()); if (live) memcpy(x.addr, x.data.data(), x.bytes());
    v[k] = x; return true;
  }
  int op(int o, const string &a, const string &b = "", Meta *m = nullptr) { Meta t; trans(); return gw_do(o, a.data(), a.size(), b.data(), b.size(), (int *)(m ? m : &t)); }
  bool del(const string &nm) { auto f = v.find(n32(nm)); int exp = f == v.end() ? -3 : 0; int rc = live ? op(0, nm) : exp; outcome(fmt("delete %d", exp)); if (f != v.end()) v.erase(f); return rc == exp || bad("delete %s gives %d, expected %d", nm.c_str(), rc, exp); }
  bool ren(const string &a, const string &b) { int exp = v.count(n32(b)) || !v.count(n32(a)) ? -1 : 0; int rc = live ? op(1, a, b) : exp; outcome(fmt("rename %d", exp)); if (!exp) { v[n32(b)] = v[n32(a)]; v.erase(n32(a)); } return rc == exp || bad("rename %s to %s gives %d, expected %d", a.c_str(), b.c_str(), rc, exp); }
  bool upd(const string &nm, int flags, int k) { auto f = v.find(n32(nm)); Meta m; for (int i = 0; i < 4; i++) m.l[i] = {100 + i, 200 + i, k + i, k + 10 + i, k + 20 + i}; m.a = {12345, k * 1000000007L * 10000, -k, 77, flags};
    int exp = f == v.end() ? -3 : 0, rc = live ? op(3, nm, "", &m) : exp; outcome(fmt("update %d", exp));
    if (!exp) { Meta &x = f->second.m; for (int i = 0; i < 4; i++) { x.l[i].halo = m.l[i].halo; x.l[i].halomax = m.l[i].halomax; x.l[i].n = m.l[i].n; } x.a.u1 = m.a.u1; x.a.u2 = m.a.u2; x.a.flags = flags; }
    return rc == exp || bad("update of %s gives %d, expected %d", nm.c_str(), rc, exp); }
  bool shuf(vector<string> l, int nl = 32) {
    size_t n = 0; while (n < l.size() && n32(l[n]) != "") n++; bool any = false; for (size_t i = 0; i < n; i++) any |= v.count(n32(l[i])) > 0;
    int exp = any ? 0 : -1, rc = exp; string d; if (live) { string t; for (auto s : l) { s.resize(nl, ' '); t += s; d += s.substr(0, 3) + ","; } trans(); rc = gw_shuffle(t.data(), l.size(), nl); }
    outcome(fmt("shuffle %d", exp));
    if (any) { map<string, Var> w = v; for (size_t i = 0; i < n; i++) w.erase(n32(l[i])); for (size_t i = 0; i < n; i++) if (v.count(n32(l[i]))) w[n32(l[(i + 1) % n])] = v[n32(l[i])]; v = w; }
    return rc == exp || bad("shuffle of %s gives %d, expected %d", d.c_str(), rc, exp); }
  string canon() { string s; for (auto &x : v) { s += x.first + fmt(" %d %d ", x.second.s.ext, x.second.m.a.flags); for (auto &l : x.second.m.l) s += fmt("%d,%d,%d;", l.low, l.high, l.n); } return s; }
  bool one(const string &nm, bool every) {
    auto f = v.find(n32(nm)); Meta m; memset((void *)&m, 0x55, sizeof m); int rc = op(2 + 6 * (stamp & 1), nm, "", &m), exp = f == v.end() ? -1 : 0;
    if (rc != exp) return bad("metadata of %s: %d, expected %d", nm.c_str(), rc, exp);
    if (f != v.end()) { Var &x = f->second; if (!x.known) { x.m.a.key = m.a.key; x.known = true; } if (!eq(m, x.m, true)) return bad("metadata of %s is %s, expected %s", nm.c_str(), show(m).c_str(), show(x.m).c_str()); }
    for (int e : TYPES) { if (!every && f != v.end() && e != f->second.s.ext) continue; if (!every && f == v.end() && e != 241) continue;
      for (int h = 0; h < 2; h++) { void *a = (void *)1; int lb[4] = {}, ub[4] = {}; memset((void *)&m, 0x55, sizeof m); trans(); int rc = GE(e)(nm.data(), nm.size(), (int *)&m, h, &a, lb, ub); eval();
        int exp = f == v.end() ? -3 : f->second.s.ext == e ? 0 : -4; if (rc != exp) return bad("get of %s as type %d gives %d, expected %d", nm.c_str(), e, rc, exp);
        if (exp) { if (a) return bad("get of %s as type %d fails, but the pointer is associated", nm.c_str(), e); Meta z; if (h && !eq(m, z, true)) return bad("get of %s as type %d fails, metadata is %s", nm.c_str(), e, show(m).c_str()); continue; }
        Var &x = f->second; if (h && !eq(m, x.m, true)) return bad("get of %s: metadata is %s, expected %s", nm.c_str(), show(m).c_str(), show(x.m).c_str());
        if (!a) return bad("get of %s: pointer not associated", nm.c_str());
        if (!x.addr) x.addr = a; if (a != x.addr) return bad("get of %s does not give the array created", nm.c_str());
        for (int i = 0; i < x.s.rank(); i++) { int l = x.lb[i], u = x.ub[i]; if (u < l) l = 1, u = 0; if (lb[i] != l || ub[i] != u) return bad("get of %s: dimension %d is %d:%d, expected %d:%d", nm.c_str(), i + 1, lb[i], ub[i], l, u); }
        if (memcmp(a, x.data.data(), x.data.size())) return bad("get of %s: the contents changed", nm.c_str()); } }
    return true; }
  bool keys(const char *pat, int room, int nl = 32) {
    if (!live) return true;
    vector<string> e; for (auto &x : v) { if (pat) { string p = pat; while (p.size() && p.back() == ' ') p.pop_back(); string t = x.first; t.resize(32, ' '); if (p.size() > 32 || t.compare(0, p.size(), p)) continue; } e.push_back(n32(x.first).substr(0, nl)); }
    for (auto &s : e) while (s.size() && s.back() == ' ') s.pop_back();
    string b((size_t)(room + 1) * nl, '#'); trans(); int rc = gw_keys(&b[0], room, nl, pat ? pat : "", pat ? strlen(pat) : 0, pat != nullptr); eval();
    if ((int)v.size() > room) { return rc == -1 || bad("labels of %d variables in a list of %d: %d", (int)v.size(), room, rc); }
    if (rc != (int)e.size()) return bad("labels%s%s: %d, expected %d", pat ? " starting with " : "", pat ? pat : "", rc, (int)e.size());
    vector<string> g; for (int i = 0; i < rc; i++) { string s = b.substr((size_t)i * nl, nl); while (s.size() && s.back() == ' ') s.pop_back(); g.push_back(s); }
    std::sort(g.begin(), g.end()); std::sort(e.begin(), e.end()); if (g != e) { string s; for (auto &t : g) s += t + ","; return bad("labels%s%s are %.300s", pat ? " starting with " : "", pat ? pat : "", s.c_str()); }
    return true; }
  bool all(bool every) {
    if (!live) return true; state(canon());
    int n = op(4, "x"); if (n != (int)v.size()) return bad("%d variables, expected %d", n, (int)v.size());
    if (!keys(nullptr, v.size()) || !keys(nullptr, v.size() + 2) || !keys("A", v.size() + 1) || !keys("", v.size()) || (v.size() && !keys(nullptr, v.size() - 1))) return false;
    for (auto &w : watch) if (!one(w, every)) return false;
    for (auto &x : v) if (std::find(watch.begin(), watch.end(), x.first) == watch.end() && !one(x.first, every)) return false;
    return one("Variable deleted upon request", false) && one("2121_Trans-Canada_Dorval_H9P-1J3", false); }
  // what a restart file gives to the next program
  void restarted() { for (auto i = v.begin(); i != v.end();) if (!(i->second.m.a.flags & RSTR)) i = v.erase(i); else { Var &x = i->second; x.m.a.flags = (x.m.a.flags & 15) | READ; x.addr = nullptr; x.known = false; for (int k = 0; k < 4; k++) { if (k < x.s.rank()) { x.lb[k] = x.m.l[k].low; x.ub[k] = x.m.l[k].high; } else x.m.l[k] = Lay(); } i++; } }
  bool write() { if (!live) return true; int rc = op(5, "x"); return rc == 0 || bad("writing the restart file gives %d", rc); }
  bool read() { if (!live) return true; int rc = op(6, "x"); return rc == 0 || bad("reading the restart file gives %d", rc); }
};
struct Op { char o; string a, b; int k, f; string str() const { return o == 'X' ? "restart" : fmt("%c(%s,%s,%d,%d)", o, a.c_str(), b.c_str(), k, f); } };
static vector<Spec> SP;
static bool doop(World &w, const Op &p) {
  switch (p.o) {
    case 'c': return w.create(p.a, SP[p.k % 10], p.f, true, p.k / 10);
    case 'd': return w.del(p.a); case 'r': return w.ren(p.a, p.b); case 'u': return w.upd(p.a, p.f, p.k);
    case 's': { vector<string> l; for (char c : p.a) l.push_back(string(1, c)); return w.shuf(l); } } return true; }
// Every restart starts a new process, which knows only the restart file
static void sequence(const vector<Op> &ops) {
  string d; for (auto &p : ops) d += p.str() + " "; if (!begin_s(d)) return;
  unlink("gmm_restart"); size_t from = 0;
  for (;;) { size_t to = from; while (to < ops.size() && ops[to].o != 'X') to++;
    isolated([&] { World w; w.live = false; for (size_t i = 0; i < from; i++) if (ops[i].o == 'X') w.restarted(); else doop(w, ops[i]); w.live = true;
      if (from) { if (!w.read()) return; if (!w.read() || !w.all(false)) return; } else if (w.op(6, "x") != -1) { w.bad("there is no restart file, reading it succeeds"); return; }
      for (size_t i = from; i < to; i++) if (!doop(w, ops[i]) || !w.all(i + 1 == ops.size())) return;
      if (from == ops.size() && !w.all(true)) return;
      if (to < ops.size() && !w.write()) return; if (to < ops.size()) w.all(false); });
    if (failed_in_case || to >= ops.size()) break; from = to + 1; }
}
static void walk(const vector<Op> &al, vector<Op> &p, int depth) { if (!depth) { sequence(p); return; } for (auto &o : al) { p.push_back(o); walk(al, p, depth - 1); p.pop_back(); if (too_many()) return; } }
int main(int argc, char **argv) {
  init(argc, argv); { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); }
  SP = {spec(242, {{0, 2}, {-1, 1}}), spec(141, {{1, 3}}), spec(242, {{0, 2}, {-1, 2}}), spec(241, {{5, 7}}), spec(384, {{1, 2}, {0, 1}, {-3, -3}, {1, 2}}), spec(283, {{1, 1}, {1, 1}, {1, 1}})};
  vector<Op> al; for (const char *n : {"A", "B"}) for (int k : {0, 1}) for (int f : {0, RSTR + IZER}) al.push_back({'c', n, "", k, f});
  al.push_back({'c', "A", "", 2, RSTR}); al.push_back({'c', "A", "", 3, INAN | RSTR}); al.push_back({'c', "A", "", 10, 0}); al.push_back({'c', "B", "", 30, 0}); al.push_back({'c', "B", "", 20, RSTR});
  for (const char *n : {"A", "B"}) al.push_back({'d', n, "", 0, 0});
  for (auto p : {"AB", "BA", "AC", "CA"}) al.push_back({'r', string(p, 1), string(p + 1), 0, 0});
  for (const char *l : {"AB", "CA", "ABC", "CAB", "A C", "B", "BCA"}) al.push_back({'s', l, "", 0, 0});
  al.push_back({'u', "A", "", 3, CRTD | STAGX | RSTR}); al.push_back({'u', "A", "", 0, 0}); al.push_back({'X', "", "", 0, 0});
  vector<Op> p; for (int d = 1; d <= (thorough ? 4 : 3); d++) walk(al, p, d);
  // deeper, with fewer operations: the time levels of a variable, deletions and restarts
  vector<Op> a2 = {{'c', "A", "", 0, RSTR}, {'c', "B", "", 0, RSTR}, {'c', "C", "", 1, RSTR}, {'d', "A", "", 0, 0}, {'d', "B", "", 0, 0}, {'s', "ABC", "", 0, 0}, {'s', "AB", "", 0, 0}, {'X', "", "", 0, 0}};
  for (int d = 4; d <= (thorough ? 6 : 5); d++) walk(a2, p, d);
  count("operation sequences", ran);
  // every type and rank: bounds, flags, given array, restart
  const int lows[] = {-3, 0, 1, 4}, lens[] = {0, 1, 3};
  for (int e : TYPES) for (int f = 0; f < 16; f++) for (int up = 0; up < 3; up++) for (int hf = 0; hf < 2; hf++) { if (f & INAN && e < 240) continue; if (!begin("type %d flags %d array %d, flags %s", e, f, up, hf ? "argument" : "in the metadata")) continue; unlink("gmm_restart");
    isolated([&] { World w; w.watch.clear(); int n = 0; Att at; at.u1 = 0x123456789abcdefL; at.u2 = -5; at.init = 9; int r = e % 10, tot = 1; for (int i = 0; i < r; i++) tot *= 12;
      for (int c = 0; c < tot; c += r == 4 ? 37 : r == 3 ? 5 : 1) { vector<std::pair<int, int>> b; int q = c; for (int i = 0; i < r; i++, q /= 12) b.push_back({lows[q % 4], lows[q % 4] + lens[(q / 4) % 3] - 1}); if (!w.create(fmt("v%d_%d", e, n++), spec(e, b, n % 3), f, hf, up, at)) return; }
      if (w.all(n < 20) && w.write()) w.all(false); });
    if (failed_in_case) continue;
    isolated([&] { World w; w.watch.clear(); w.live = false; int n = 0; Att at; at.u1 = 0x123456789abcdefL; at.u2 = -5; at.init = 9; int r = e % 10, tot = 1; for (int i = 0; i < r; i++) tot *= 12; vector<std::pair<string, Spec>> cs;
      for (int c = 0; c < tot; c += r == 4 ? 37 : r == 3 ? 5 : 1) { vector<std::pair<int, int>> b; int q = c; for (int i = 0; i < r; i++, q /= 12) b.push_back({lows[q % 4], lows[q % 4] + lens[(q / 4) % 3] - 1}); cs.push_back({fmt("v%d_%d", e, n), spec(e, b, (n + 1) % 3)}); if (!w.create(cs.back().first, spec(e, b, n % 3), f, hf, up, at)) return; n++; }
      w.restarted(); w.live = true; if (!w.read() || !w.all(false)) return; for (auto &c : cs) if (!w.create(c.first, c.second, f, hf, 0, at)) return; w.all(false); }); }
  count("types and flags");
  // names: length, blanks, prefixes
  { vector<string> N; for (int k : {1, 2, 31, 32, 33, 40}) for (char c : {'a', 'b'}) N.push_back(string(k, 'n') + c); for (const char *s : {"a", "A", "a b", " a", "a  ", "", "n", "Variable deleted upon request"}) N.push_back(s);
    for (auto &a : N) for (auto &b : N) { if (!begin("names %s and %s", a.c_str(), b.c_str())) continue; isolated([&] { World w; w.watch = {a, b, "zz"}; if (!w.create(a, SP[0], 0, true, 0) || !w.create(b, SP[1], 0, true, 0) || !w.all(false)) return; for (const char *q : {"n", "nn", "a", " ", " a", "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"}) if (!w.keys(q, 3)) return; if (!w.keys(nullptr, 2, 5) || !w.keys(nullptr, 2, 50)) return;
        if (!w.ren(b, a) || !w.ren(a, b) || !w.ren(a, "zz") || !w.all(false) || !w.del(b) || !w.all(false) || !w.shuf({"zz", a}, 40) || !w.all(false)) return; if (n32(a) != n32(b) && w.shuf({a, b, "zz"}, 40)) w.all(false); }); } }
  // the directory: positions around the page boundaries, and reuse of what was deleted
  for (int n : {127, 128, 129, 255, 256, 257, 2047, 2048}) for (int v = 0; v < 4; v++) { if (!begin("%d variables, variant %d", n, v)) continue; unlink("gmm_restart");
    auto run = [&](World &w) { for (int i = 0; i < n; i++) if (!w.create(fmt("k%04d", i), SP[v ? i % 6 : 1], i % 3 ? RSTR : 0, true, 0)) return false; w.watch.clear(); if (!w.all(false)) return false;
      for (int i : {0, 126, 127, 128, 129, 255, 256, n - 1}) if (i < n) { if (v & 1 && !w.del(fmt("k%04d", i))) return false; if (v == 2 && !w.ren(fmt("k%04d", i), fmt("r%d", i))) return false; if (v == 3 && !w.create(fmt("m%d", i), SP[(i + 1) % 6], RSTR, true, 0)) return false; } return w.all(false) && w.keys("k012", n) && w.keys("r", n); };
    isolated([&] { World w; if (run(w) && w.write()) w.all(false); }); if (failed_in_case) continue;
    isolated([&] { World w; w.live = false; run(w); w.restarted(); w.live = true; w.watch.clear(); if (w.read() && w.all(false)) { for (int i = 0; i < 130 && w.v.size() < 2048; i++) if (!w.create(fmt("after%d", i), SP[i % 6], 0, true, 0)) return; w.all(false); } }); }
  for (int live = 1; live < 4; live++) { if (!begin("%d variables created and deleted 3000 times", live)) continue; isolated([&] { World w; w.watch.clear(); for (int i = 0; i < 3000; i++) { if (i >= live && !w.del(fmt("t%d", i - live))) return; if (!w.create(fmt("t%d", i), SP[i % 2 * (live > 1)], 0, true, 0)) return; if ((i % 100 == 0 || (i > 120 && i < 135)) && !w.all(false)) return; } w.all(true); }); }
  // a restart file cut anywhere: what is restored is right, or the program stops
  { string full; vector<string> order; World base; base.live = false; auto build = [&](World &w) { return w.create("one", SP[0], RSTR, true, 0) && w.create("two", SP[1], RSTR, true, 0) && w.create("not", SP[1], 0, true, 0) && w.create("six", SP[5], RSTR, true, 0); };
    unlink("gmm_restart"); isolated([&] { World w; w.watch.clear(); if (build(w)) w.write(); }); full = slurp("gmm_restart"); build(base); base.restarted();
    for (size_t cut = 0; cut <= full.size(); cut++) { if (!begin("restart file cut at byte %d of %d", (int)cut, (int)full.size())) continue; spit("gmm_restart", full.substr(0, cut));
      pid_t pid = fork(); if (!pid) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); World w = base; w.live = true; int rc = w.op(6, "x"); if (rc != 0) _exit(40); Meta m; for (auto i = w.v.begin(); i != w.v.end();) { if (w.op(2, i->first, "", &m) != 0) { i = w.v.erase(i); } else i++; } w.watch.clear(); _exit(w.all(true) ? 50 + (int)w.v.size() : 41); }
      int st; waitpid(pid, &st, 0); trans(); int r = WIFEXITED(st) ? WEXITSTATUS(st) : -1; if (r == 41) fail("what is restored is wrong"); else if (cut == full.size() && r != 53) fail("the whole file restores %d", r); outcome(r >= 50 ? fmt("cut file: %d variables", r - 50) : "cut file: refused"); if (WIFSIGNALED(st)) fail("signal %d", WTERMSIG(st)); } }
  // metadata as integers
  for (int n = 0; n < 40; n++) { if (!begin("metadata in %d integers", n)) continue; Meta m; for (int i = 0; i < 28; i++) ((int *)&m)[i] = 1000 + i * i; Meta z = m; vector<int> a(n + 1, -7); int rc = gw_code((int *)&m, a.data(), n, 0); trans(); int exp = n < 28 ? -1 : 0; if (rc != exp) { fail("encoding gives %d", rc); continue; } if (memcmp(&m, &z, sizeof m)) fail("metadata changed"); for (int i = 0; i <= n; i++) if (a[i] != (exp || i >= 28 ? -7 : 1000 + i * i)) fail("element %d is %d", i, a[i]); Meta q; memset((void *)&q, 0, sizeof q); if (n >= 28) { rc = gw_code((int *)&q, a.data(), n, 1); if (rc || memcmp(&q, &z, sizeof q)) fail("decoding gives %d, %s", rc, show(q).c_str()); } else if (gw_code((int *)&q, a.data(), n, 1) != -1) fail("decoding %d integers", n); }
  for (int e = -10; e <= 10; e++) if (begin("status %d", e)) { int r = gw_ok(e); if (r != (e >= 0 ? 1 : 2)) fail("status %d is %d", e, r); }
  unlink("gmm_restart");
  return done();
}
