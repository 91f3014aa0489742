// X04: arguments of programs (C and Fortran), application variables, environment
#include "vh.h"
using namespace vh; using std::string; using std::vector;
extern "C" { void c_ccard(char **, int, char **, char (*)[256], char **, int, int *); void ccard_(const char *, const char *, char *, int32_t *, int32_t *, size_t, size_t, size_t); void _gfortran_set_args(int, char **); char *get_ccard_arg_m(const char *, int); void ccard_arg_m_(char *, size_t, const char *, int32_t *, size_t); void ccard_arg_(char *, size_t, const char *, size_t);
 int32_t c_get_appl_var_(const char *, char *, size_t, size_t); void c_set_appl_var_(const char *, const char *, size_t, size_t); void c_free_appl_var_table_(); void c_init_appl_var_table_(); int get_appl_var(const char *, char *, int, int); void getenvc_(const char *, char *, size_t, size_t); void getenvc2_(const char *, char *, int, size_t, size_t); }
struct Key { string name, val, def; string base() const { char c = name.back(); string b = name; if (name.size() > 1 && (c == '.' || c == '_' || c == ':')) b.pop_back(); for (auto &x : b) x = toupper(x); return b; } int type() const { char c = name.back(); return name.size() == 1 ? 1 : c == '.' ? 0 : c == '_' ? -1 : c == ':' ? 2 : 1; } };
static string conv(string s, int t) { if (t == 1) for (auto &x : s) x = toupper(x); if (t == -1) for (auto &x : s) x = tolower(x); return s; }
struct Res { vector<string> v; bool error = false, poserror = false; int n = 0, code = 0; std::map<std::pair<string, int>, string> vars; };
static const vector<vector<Key>> TAB = {
  {{"a", "Va", "Da"}, {"bb.", "Vb1", "Db1"}, {"bb.", "Vb2", "Db2"}, {"bb.", "Vb3", "Db3"}},
  {{"-.", "Vp1", "Dp1"}, {"-.", "Vp2", "Dp2"}, {"a_", "Va", "Da"}, {"BB", "Vb1", "Db1"}, {"BB", "Vb2", "Db2"}},
  {{"A.", "Va", "Da"}, {"bb_", "", "Db1"}, {"bb_", "Vb2", ""}, {"-_", "Vp", "Dp"}},
  {{"bb_", "Vb", "Db"}},
  {{"a", "Va", "Da"}, {"bb", "Vb", "Db"}, {"a", "Va2", "Da2"}, {"-", "Vp", "Dp"}, {"-", "Vq", "Dq"}, {"c", "Vc", "Dc"}},
  {{"a:", "Va", "Da"}, {"a:", "Va2", "Da2"}, {"bb.", "Vb1", "Db1"}, {"bb.", "Vb2", "Db2"}}};
static bool eqi(const string &a, const string &b) { return a.size() == b.size() && !strcasecmp(a.c_str(), b.c_str()); }
// the documented meaning, C interface
static Res refc(const vector<Key> &K, const vector<string> &A) {
  Res r; int nk = K.size(); for (auto &k : K) r.v.push_back(k.val); int pm = -1; for (int i = nk - 1; i >= 0; i--) if (K[i].base() == "-") pm = i; int pc = pm, cur = -1, pos = -1; size_t i = 0;
  auto positional = [&](const string &s) { if (pc >= 0 && pc < nk && K[pc].base() == "-") r.v[pc] = s; else r.error = r.poserror = true; pc++; r.n++; };
  auto values = [&](string s) { for (;;) { if (cur < 0 || cur >= nk || K[cur].base() != K[pos].base()) { r.error = true; return; } size_t p = s.find(':'); string q = s.substr(0, p); if (q[0] == '=') q = q.substr(1); r.v[cur++] = q; if (p == string::npos) return; s = s.substr(p + 1); } };
  if (pm >= 0) while (i < A.size() && A[i][0] != '-') positional(A[i++]);
  for (; i < A.size(); i++) { const string &a = A[i];
    if (a[0] == '-' && a[1] == '-') { for (i++; i < A.size(); i++) if (pm >= 0) positional(A[i]); else r.error = r.poserror = true; break; }
    if (a[0] == '-') { size_t p = a.find('='); string k = a.substr(1, p == string::npos ? p : p - 1); pos = -1; for (int q = nk - 1; q >= 0; q--) if (eqi(k, K[q].base())) pos = q; cur = pos; if (pos < 0) r.error = true; else if (p != string::npos) values(a.substr(p + 1)); else r.v[pos] = K[pos].def; }
    else if (cur >= 0) values(a); else r.error = true; }
  for (int q = 0; q < nk; q++) r.v[q] = conv(r.v[q], K[q].type() == 2 ? 1 : K[q].type()); return r; }
// the documented meaning, Fortran interface
static Res reff(const vector<Key> &K, const vector<string> &A, bool stop) {
  Res r; int nk = K.size(); for (auto &k : K) r.v.push_back(k.val); int pm = -1; for (int i = nk - 1; i >= 0; i--) if (K[i].base() == "-") pm = i; int pc = pm, cur = 0, pos = 0; bool nokey = true, rest = false; auto bad = [&](int c) { r.error = true; if (!r.code) r.code = c; };
  auto set = [&](int k, int ord, const string &s, bool cut) { r.v[k] = conv(s, K[k].type()); r.vars[{K[k].base(), ord}] = cut ? r.v[k].substr(0, 12) : r.v[k]; };
  for (auto a : A) { if (stop && r.code) break; while (!a.empty() && a.back() == ' ') a.pop_back(); 
    if (!a.empty() && a[0] == '-' && !rest) { nokey = false; char d = K[pos].type() == 2 ? '=' : ':'; rest = a[1] == '-'; size_t p = 1; while (p < a.size() && a[p] != '=' && a[p] != d) p++; string k = a.substr(1, p - 1); int j = -1; for (int q = nk - 1; q >= 0; q--) if (!k.empty() && eqi(k, K[q].base())) j = q;
      if (j >= 0) { cur = pos = j; if (!(j == pm && pc > pm)) set(j, 0, K[j].def, true); } else { cur = -1; bad(22); } if (stop && r.code) break; if (p + 1 >= a.size()) continue; a = a.substr(p); }
    else if (rest || nokey) { if (pc >= 0 && pc < nk && K[pc].base() == "-") set(pc, pc - pm, a, false); else { bad(24); r.poserror = true; } if (pc >= 0) pc++; r.n++; continue; }
    for (size_t p = 0;;) { char d = K[pos].type() == 2 ? '=' : ':'; if (p < a.size() && (a[p] == d || a[p] == '=')) p++; size_t e = p; while (e < a.size() && a[e] != '=' && a[e] != d) e++; string s = a.substr(std::min(p, a.size()), e - p); p = e;
      if (cur >= 0 && cur < nk && K[cur].base() == K[pos].base()) { set(cur, cur - pos, s, false); cur++; } else { bad(23); if (stop) break; } if (p + 1 >= a.size()) break; } }
  return r; }
static string show(const vector<string> &A) { string s; for (auto &a : A) s += " '" + (a.size() > 40 ? a.substr(0, 10) + "..." : a) + "'"; return s; }
struct Box { volatile int done, npos; char val[16][256]; char var[16][4][64]; int has[16][4]; };
static Box *box() { static Box *b = (Box *)mmap(nullptr, sizeof(Box), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return b; }
static int child(const std::function<void()> &f) { fflush(out); box()->done = 0; pid_t p = fork(); if (!p) { alarm(20); f(); box()->done = 1; _exit(77); } int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); }
static void callc(const vector<Key> &K, const vector<string> &A, int &npos, vector<string> &v) {
  vector<vector<char>> s; vector<char *> av, kn, df; auto add = [&](const string &x, vector<char *> &to) { s.emplace_back(x.begin(), x.end()); s.back().push_back(0); to.push_back(s.back().data()); }; s.reserve(64); add("prog", av); for (auto &a : A) add(a, av); int ac = av.size(); av.push_back(nullptr); for (auto &k : K) { add(k.name, kn); add(k.def, df); }
  char val[16][256]; memset(val, '#', sizeof val); for (size_t k = 0; k < K.size(); k++) strcpy(val[k], K[k].val.c_str()); c_ccard(av.data(), ac, kn.data(), val, df.data(), K.size(), &npos); v.clear(); for (size_t k = 0; k < K.size(); k++) v.push_back(string(val[k], strnlen(val[k], 256)));
  for (size_t k = 0; k < K.size(); k++) if (strcmp(kn[k], K[k].name.c_str()) || strcmp(df[k], K[k].def.c_str())) v[k] += " (and the names or defaults changed)"; if (memchr(val[K.size()], 0, 256)) v.back() += " (and more values than keys changed)"; }
static bool onec(const vector<Key> &K, const vector<string> &A, bool stops) {
  Res r = refc(K, A); bool help = A.size() == 1 && (A[0] == "-h" || A[0] == "-H");
  if (!help) for (int np : {0, 5}) { int n = np; vector<string> v; callc(K, A, n, v); trans(); eval(v.size()); for (size_t k = 0; k < v.size(); k++) if (v[k] != r.v[k].substr(0, 255)) { fail("arguments%s: value %zu (-%s) is '%s', should be '%s'", show(A).c_str(), k, K[k].base().c_str(), v[k].substr(0, 80).c_str(), r.v[k].substr(0, 80).c_str()); return false; }
    if (n != np && (np == 0 || r.poserror) && np == 0) { fail("arguments%s: npos changes", show(A).c_str()); return false; } if (np && !r.poserror && n != r.n) { fail("arguments%s: %d positional arguments, should be %d", show(A).c_str(), n, r.n); return false; } state(r.v[0] + r.v.back()); }
  if (stops || help) { int n = -111; vector<string> v; int e = child([&] { callc(K, A, n, v); }); trans(); eval(); if (e != (help ? 0 : r.error ? 255 : 77)) { fail("arguments%s, with npos = -111: the program exits with %d", show(A).c_str(), e); return false; } outcome(help ? "help" : r.error ? "refused" : "accepted"); }
  return true; }

static const vector<string> TC = {"-a", "-A", "-bb", "-zz", "-a=", "-a=v", "-Bb=1:2", "-bb==-5", "v", "=-3:4", "Mi:xE:y", "x:", "::", "--", "-", ""};
static void argsc(int t, int first, int len) {
  vector<string> A = {TC[first]}; if (first == 0) { if (!onec(TAB[t], {}, true)) return; if (!onec(TAB[t], {"-h"}, true) || !onec(TAB[t], {"-H"}, true) || !onec(TAB[t], {"-h", "v"}, true)) return; }
  std::function<bool(int)> go = [&](int left) { if (!onec(TAB[t], A, (int)A.size() <= (thorough ? 3 : 2))) return false; if (left) for (auto &x : TC) { A.push_back(x); bool ok = go(left - 1); A.pop_back(); if (!ok) return false; } return true; };
  go(len - 1); }
static void longc() { for (int n : {100, 254, 255, 256, 257, 300, 600, 5000}) for (auto &K : TAB) if (&K - &TAB[0] < 5) for (int w = 0; w < 6; w++) { string L(n, 'x'); for (int k = 0; k < n; k++) L[k] = 'a' + k % 25; vector<string> A; if (w == 0) A = {"-bb", L}; if (w == 1) A = {"-bb=" + L}; if (w == 2) A = {"-" + L, "v"}; if (w == 3) A = {L}; if (w == 4) A = {"--", L}; if (w == 5) A = {"-bb", "a:" + L}; if (!onec(K, A, false)) return; } outcome("long"); }
static const vector<string> TF = {"-a", "-BB", "-zz", "-a=", "-a=v", "-bb=1:2", "v", "=-3:4", "Mi:xE=y", "x:", "--", "-", ""};
static bool onef(const vector<Key> &K, const vector<string> &A, int ii, bool env) {
  Res r = reff(K, A, abs(ii) == 111); int nk = K.size(); Box *b = box(); memset((void *)b, 0, sizeof *b); bool help = A.size() == 1 && (A[0] == "-h" || A[0] == "-H" || A[0] == "-help");
  int e = child([&] { vector<vector<char>> s; vector<char *> av; s.reserve(32); auto add = [&](const string &x) { s.emplace_back(x.begin(), x.end()); s.back().push_back(0); av.push_back(s.back().data()); }; add("prog"); if (env) { string l; for (auto &a : A) l += (l.empty() ? "" : " ") + a; setenv("CCARD_ARGS", l.c_str(), 1); } else for (auto &a : A) add(a); int ac = av.size(); av.push_back(nullptr); _gfortran_set_args(ac, av.data());
    string kn, df, v; auto pad = [](string x, size_t n) { x.resize(n, ' '); return x; }; for (auto &k : K) { kn += pad(k.name, 10); df += pad(k.def, 12); v += pad(k.val, 12); } v += "############"; int32_t n = nk, q = ii; ccard_(kn.data(), df.data(), &v[0], &n, &q, 10, 12, 12); b->npos = q; for (int k = 0; k <= nk; k++) { memcpy(b->val[k], v.data() + 12 * k, 12); }
    for (int k = 0; k < nk; k++) for (int o = 0; o < 4; o++) { char *c = get_ccard_arg_m(K[k].base().c_str(), o); b->has[k][o] = c ? 1 + strlen(c) : 0; if (c) snprintf(b->var[k][o], 64, "%s", c); free(c); static char big[8193]; big[8192] = '#'; int32_t oo = o; ccard_arg_m_(big, 8192, K[k].name.c_str(), &oo, K[k].name.size()); string w(big, 8192); while (!w.empty() && w.back() == ' ') w.pop_back(); if (w != b->var[k][o] || big[8192] != '#') b->has[k][o] = -1; if (!o) { ccard_arg_(big, 8192, K[k].name.c_str(), K[k].name.size()); string w2(big, 8192); while (!w2.empty() && w2.back() == ' ') w2.pop_back(); if (w2 != w) b->has[k][o] = -2; } } }); trans();
  string what = fmt("arguments%s%s, ii %d", show(A).c_str(), env ? " by CCARD_ARGS" : "", ii); int want = help ? 0 : abs(ii) == 111 && r.error ? r.code : 77; eval(); if (e != want) { fail("%s: the program exits with %d, should be %d", what.c_str(), e, want); return false; } if (want != 77) { outcome(want ? "refused" : "help"); return true; }
  for (int k = 0; k < nk; k++) { string w = r.v[k]; w.resize(12, ' '); eval(); if (memcmp(b->val[k], w.data(), 12)) { fail("%s: value %d (-%s) is '%.12s', should be '%s'", what.c_str(), k, K[k].base().c_str(), b->val[k], w.c_str()); return false; } state(vh::hash(w.data(), 12, k)); }
  if (memcmp(b->val[nk], "############", 12)) { fail("%s: more values than keys change", what.c_str()); return false; }
  int wn = ii > 0 ? r.n : ii; if (!(r.poserror && ii > 0) && b->npos != wn) { fail("%s: ii is %d after, should be %d", what.c_str(), b->npos, wn); return false; }
  if (!r.poserror) for (int k = 0; k < nk; k++) for (int o = 0; o < 4; o++) { auto f = r.vars.find({K[k].base(), o}); string w = f == r.vars.end() ? "" : f->second; while (!w.empty() && w.back() == ' ') w.pop_back(); eval(); if ((b->has[k][o] != 0) != !w.empty() || b->has[k][o] < 0 || w != b->var[k][o]) { fail("%s: argument %d of -%s asked later is '%s' (%d), should be '%s'", what.c_str(), o, K[k].base().c_str(), b->var[k][o], b->has[k][o], w.c_str()); return false; } }
  outcome(r.error ? "accepted with errors" : "accepted"); return true; }
static void argsf(int t, int first, int len) {
  vector<string> A = {TF[first]}; if (first == 0) for (auto h : {"-h", "-H", "-help"}) if (!onef(TAB[t], {h}, 0, false)) return; if (first == 0) if (!onef(TAB[t], {}, 1, false)) return;
  std::function<bool(int)> go = [&](int left) { for (int ii : {-1, 7, 111, -111}) if (abs(ii) < 111 ? ((int)A.size() + ii) & 1 || A.size() < 3 : A.size() < 3 && !(A.size() == 1 && A[0] == "-h")) if (!onef(TAB[t], A, ii, false)) return false; if (left) for (auto &x : TF) { A.push_back(x); bool ok = go(left - 1); A.pop_back(); if (!ok) return false; } return true; };
  go(len - 1); }
static void argsenv(int t) { static const vector<string> T = {"-a", "-BB", "-zz", "v", "=-3", "w"}; vector<string> A; std::function<bool(int)> go = [&](int left) { if (!A.empty() && A[0][0] == '-') if (!onef(TAB[t], A, 1, true)) return false; if (left) for (auto &x : T) { A.push_back(x); bool ok = go(left - 1); A.pop_back(); if (!ok) return false; } return true; }; go(thorough ? 4 : 3); }
// variables: every sequence of settings
static const char *VN[] = {"A", "AB", "ABC", "ab", "  "}, *VV[] = {"", "x", "longer value", "yz  "};
typedef vector<std::pair<string, string>> Table; 
static string rtrim(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static bool look(const Table &T) { for (auto q : {"A", "a", "AB", "aB", "ABC", "ABCD", "ab  ", "", "B"}) { const string *w = nullptr; for (auto &x : T) if (eqi(x.first, rtrim(q))) { w = &x.second; break; } for (int n : {0, 1, 5, 12, 30}) { char b[34]; memset(b, '#', 34); int r = c_get_appl_var_(q, b + 1, strlen(q), n), ln = w ? w->size() : 0; trans(); eval(); string want = w ? w->substr(0, n) : ""; want.resize(n, ' '); if (r != (ln <= n ? ln : -ln) || memcmp(b + 1, want.data(), n) || b[0] != '#' || b[n + 1] != '#') { fail("variable '%s' in %d characters: returns %d and '%.*s', should be '%s'", q, n, r, n, b + 1, want.c_str()); return false; } } } return true; }
static void vars(int a, int b, int len) { Table T; c_free_appl_var_table_(); int path[8] = {a, b}; 
  long total = 1; for (int k = 2; k < len; k++) total *= 21; for (long code = 0; code < total; code++) { long c = code; for (int k = 2; k < len; k++, c /= 21) path[k] = c % 21; T.clear(); if (code & 1) c_init_appl_var_table_(); else c_free_appl_var_table_();
    for (int k = 0; k < len; k++) { if (path[k] == 20) { c_free_appl_var_table_(); T.clear(); trans(); if (k + 1 < len) continue; } else { string n = rtrim(VN[path[k] % 5]), v = rtrim(VV[path[k] / 5]); c_set_appl_var_(VN[path[k] % 5], VV[path[k] / 5], strlen(VN[path[k] % 5]), strlen(VV[path[k] / 5])); trans(); bool f = false; for (auto &x : T) if (x.first == n) { x.second = v; f = true; break; } if (!f) T.push_back({n, v}); } if (k + 2 >= len && !look(T)) return; }
    string s; for (auto &x : T) s += x.first + "=" + x.second + ";"; state(s); } outcome("variables"); }
static void full() { c_free_appl_var_table_(); for (int k = 0; k < 1100; k++) { string n = fmt("V%d", k), v = fmt("value %d", k); c_set_appl_var_(n.c_str(), v.c_str(), n.size(), v.size()); trans(); } for (int k = 0; k < 1100; k++) { string n = fmt("v%d", k), v = k < 1024 ? fmt("value %d", k) : ""; char b[20]; int r = c_get_appl_var_(n.c_str(), b, n.size(), 20); v.resize(20, ' '); eval(); if (memcmp(b, v.data(), 20)) { fail("variable %d of 1100 is '%.20s' (%d)", k, b, r); return; } } outcome("full table"); }
static void environment() { for (int l = 0; l <= 40; l++) for (int n = 0; n <= 40; n++) for (int p = 0; p < 3; p++) { string v; for (int k = 0; k < l; k++) v += (char)(33 + (k * 7 + l) % 90); setenv("VH_X04", v.c_str(), 1); unsetenv("VH_X"); unsetenv("VH_X04A"); string name = p == 2 ? "VH_X" : "VH_X04"; string nm = name + string(p == 1 ? 3 : 0, ' '); for (int w = 0; w < 2; w++) { string b(n + 2, '#'); if (w) getenvc2_(nm.c_str(), &b[1], l & 1, nm.size(), n); else getenvc_(nm.c_str(), &b[1], nm.size(), n); string want = p == 2 ? "" : v.substr(0, n); want.resize(n, ' '); trans(); eval(); if (b != "#" + want + "#") { fail("value of length %d in %d characters is '%s'", l, n, b.c_str()); return; } } } outcome("environment"); }
int main(int argc, char **argv) {
  init(argc, argv); { int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); } unsetenv("CCARD_ARGS"); unsetenv("CCARD_OPT");
  for (size_t t = 0; t < 5; t++) for (size_t f = 0; f < TC.size(); f++) if (begin("C arguments, keys %zu, first argument '%s'", t, TC[f].c_str())) isolated([&] { alarm(600); argsc(t, f, thorough ? 5 : 4); });
  if (begin("long arguments")) isolated([&] { alarm(60); longc(); });
  for (size_t t = 0; t < TAB.size(); t++) for (size_t f = 0; f < TF.size(); f++) if (begin("Fortran arguments, keys %zu, first argument '%s'", t, TF[f].c_str())) isolated([&] { argsf(t, f, thorough ? 4 : 3); });
  for (size_t t = 0; t < TAB.size(); t++) if (begin("arguments by the environment, keys %zu", t)) isolated([&] { argsenv(t); });
  for (int a = 0; a < 21; a++) for (int b = 0; b < 21; b++) if (begin("variables, first settings %d %d", a, b)) isolated([&] { alarm(600); vars(a, b, thorough ? 5 : 4); });
  if (begin("more variables than places")) isolated(full);
  if (begin("environment")) isolated(environment);
  return done(); }
