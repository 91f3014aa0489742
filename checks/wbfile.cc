// H02: directive files read in the whiteboard (c_wb_read), against a reference interpreter of directives
#include "vh.h"
#include <map>
using namespace vh; using std::string; using std::vector; using std::map;
extern "C" { void *c_wb_new(); int c_wb_free(void *); int c_wb_get(void *, char *, char, int, unsigned char *, int, int); int c_wb_put(void *, char *, char, int, unsigned char *, int, int, int); int f_wb_get_meta_(void **, char *, int *, int *, int *, int *, size_t); int c_wb_verbosity(int);
 int c_wb_read(void *, char *, char *, char *, int, int, int, int); int32_t f_wb_read_(void **, const char *, const char *, const char *, int32_t *, size_t, size_t, size_t); }
enum { R = 1, I = 2, C = 3, L = 4, LOCAL = 8, BAD = 32, INIT = 64, ROREST = 128, NONE = 256, UNTIL = 512, MANY = 1024, ATREST = 2048, ARRAY = 4096 };
struct D { string text; char kind; string key; int type = 0, size = 0, n = 0, opt = -1; vector<string> vals; bool nl = false, cut = false; };   // kinds: d define, o options, k key, e error, c nothing
static const string N27 = "abcdefghijklmnopqrstuvw_xyz";
static const vector<D> DIR = {
  {"define(a[I4,0])", 'd', "A", I, 4, 0}, {"Define( a [ R8 , 3 ] , opt = [ WB_IS_LOCAL ] )", 'd', "A", R, 8, 3, LOCAL}, {"define(b[C4,2],desc='text = , ) of #b',opt=[WB_REWRITE_MANY,WB_READ_ONLY_ON_RESTART])", 'd', "B", C, 4, 2, MANY | ROREST}, {"DEFINE(b[L1,3])", 'd', "B", L, 4, 3}, {"define(b[c7,0],opt=[WB_REWRITE_UNTIL,WB_REWRITE_UNTIL])", 'd', "B", C, 40, 0, UNTIL}, {"define(defined[I8,2])", 'd', "DEFINED", I, 8, 2}, {"define(" + N27 + "[r4,1])", 'd', "ABCDEFGHIJKLMNOPQRSTUVW_XYZ", R, 4, 1},
  {"define(a[I4])", 'e'}, {"define(a[X4,1])", 'e'}, {"define(a[R,0])", 'e'}, {"define(b[I4,0],opt=[WB_NOTHING])", 'e'}, {"define(a[I4,0],opt=[WB_REWRITE_NONE,WB_REWRITE_MANY])", 'e'}, {"define(a" , 'e', "", 0, 0, 0, 0, {}, true},
  {"options(WB_REWRITE_NONE)", 'o', "", 0, 0, 0, NONE}, {"Options ( WB_IS_LOCAL , WB_IS_LOCAL )", 'o', "", 0, 0, 0, LOCAL}, {"options(WB_NOTHING)", 'o', "", 0, 0, 0, -1},
  {"a=5", 'k', "A", 0, 0, 0, 0, {"5"}}, {"A = -7 , 3", 'k', "A", 0, 0, 0, 0, {"-7", "3"}}, {"a=1.5,-2.5E-1,.5", 'k', "A", 0, 0, 0, 0, {"1.5", "-2.5E-1", ".5"}}, {"a=1,2,3,4", 'k', "A", 0, 0, 0, 0, {"1", "2", "3", "4"}}, {"b='abcd','x'", 'k', "B", 0, 0, 0, 0, {"'abcd'", "'x'"}}, {"b=\"it's\"", 'k', "B", 0, 0, 0, 0, {"\"it's\""}}, {"b='abcde'", 'k', "B", 0, 0, 0, 0, {"'abcde'"}}, {"b=.true.,.F. , .T.", 'k', "B", 0, 0, 0, 0, {".TRUE.", ".F.", ".T."}}, {"b=word", 'k', "B", 0, 0, 0, 0, {"WORD"}}, {"b='abc", 'k', "B", 0, 0, 0, 0, {"?"}, true}, {"a=", 'k', "A", 0, 0, 0, 0, {"\n"}}, {"a=1,", 'k', "A", 0, 0, 0, 0, {"1", "\n"}}, {"a=6\\\n  ,7\\\n8", 'k', "A", 0, 0, 0, 0, {"6", "78"}}, {"b='x\\\n y'", 'k', "B", 0, 0, 0, 0, {"'x y'"}}, {"a", 'e'}, {"defined=12345678901,-1", 'k', "DEFINED", 0, 0, 0, 0, {"12345678901", "-1"}}, {"c=5", 'e'}, {N27 + "=4.5", 'k', "ABCDEFGHIJKLMNOPQRSTUVW_XYZ", 0, 0, 0, 0, {"4.5"}}, {N27 + "z=4", 'e'}, {"*a=9", 'e'}};
struct K { int type, size, n, opt; bool init = false, bad = false; vector<string> v; };
struct Model { map<string, K> keys; };
static string bytes(const K &k, const string &t, bool &ok) {
  ok = false; bool num = t.find_first_not_of("0123456789+-.E") == string::npos && t.find_first_of("0123456789") != string::npos, whole = num && t.find_first_of(".E") == string::npos; auto raw = [&](const void *p, int n) { ok = true; return string((const char *)p, n); };
  if (k.type == I && whole) { if (k.size == 4) { int v = atoi(t.c_str()); return raw(&v, 4); } int64_t v = atoll(t.c_str()); return raw(&v, 8); }
  if (k.type == R && num) { if (k.size == 4) { float v = strtof(t.c_str(), 0); return raw(&v, 4); } double v = strtod(t.c_str(), 0); return raw(&v, 8); }
  if (k.type == L && (t == ".TRUE." || t == ".T.")) { int v = 1; return raw(&v, 4); } if (k.type == L && (t == ".FALSE." || t == ".F.")) { int v = 0; return raw(&v, 4); }
  if (k.type == C && t.size() > 1 && (t[0] == '\'' || t[0] == '"')) { string s = t.substr(1, t.size() - 2); if ((int)s.size() > k.size) return ""; s.resize(k.size, ' '); ok = true; return s; } return ""; }
// what reading a section of directives does; returns the number of errors
static int interpret(Model &m, const vector<const D *> &ds, int mode, const string &pk) {
  int errors = 0, dopt = 0; map<string, int> table; 
  for (auto d : ds) { if (d->kind == 'c') continue; if (d->kind == 'e') { errors++; continue; } if (d->kind == 'o') { dopt = d->opt < 0 ? 0 : d->opt; if (d->opt < 0) errors++; continue; }
    string key = pk + d->key; if (key.size() > 27) { errors++; continue; }
    if (d->kind == 'd') { if (mode == 0 || m.keys.count(key)) { errors++; continue; } K k{d->type, d->size, d->n, d->opt < 0 ? dopt : d->opt}; m.keys[key] = k; table[key] = 1; continue; }
    auto it = m.keys.find(key); if (it == m.keys.end()) { errors++; continue; } int &t = table[key]; if (t >= 2 || (mode == 2 && t == 0)) { errors++; continue; } t = 2;
    K &k = it->second; k.bad = true; bool ok = true; vector<string> v; for (auto &x : d->vals) { if ((int)v.size() >= std::max(1, k.n)) { ok = false; break; } bool good; string b = bytes(k, x, good); if (!good) { ok = false; break; } v.push_back(b); }
    if (!ok) { errors++; continue; } k.bad = false; k.init = true; for (size_t q = 0; q < v.size(); q++) { if (k.v.size() <= q) k.v.resize(q + 1); k.v[q] = v[q]; } }
  return errors; }
static bool compare(void *wb, const Model &m, const string &what, const string &pk) {
  for (string key : {"A", "B", "C", "DEFINED", "DEFINE", "ABCDEFGHIJKLMNOPQRSTUVW_XYZ", "OPTIONS", "WORD"}) for (int p = 0; p < 2; p++) { string name = p ? "PK_" + key : key; if (name.size() > 27) continue; auto it = m.keys.find(name); int ty = -1, sz = -1, n = -1, op = 0; int s = f_wb_get_meta_(&wb, &name[0], &ty, &sz, &n, &op, name.size()); eval();
      if (it == m.keys.end()) { if (s >= 0) { fail("%s: key %s exists", what.c_str(), name.c_str()); return false; } continue; } const K &k = it->second; if (s < 0) { fail("%s: key %s does not exist", what.c_str(), name.c_str()); return false; }
      if (ty != k.type || sz != k.size || n != k.n) { fail("%s: key %s is of type %d, size %d, %d elements, should be %d, %d, %d", what.c_str(), name.c_str(), ty, sz, n, k.type, k.size, k.n); return false; }
      int w = k.opt & (LOCAL | ROREST | NONE | UNTIL | MANY) | (k.init ? INIT : 0) | (k.bad ? BAD : 0) | (k.n ? ARRAY : 0), mask = LOCAL | ROREST | NONE | UNTIL | MANY | INIT | BAD | ARRAY; if ((op & mask) != w) { fail("%s: key %s has options %d, should be %d", what.c_str(), name.c_str(), op & mask, w); return false; }
      unsigned char buf[256]; memset(buf, '#', sizeof buf); int g = c_wb_get(wb, &name[0], k.type, k.size, buf, k.n, name.size()); if ((g >= 0) != (k.init && !k.bad)) { fail("%s: getting key %s returns %d", what.c_str(), name.c_str(), g); return false; } state(hash(buf, 64, op + p * 77777 + hash(key)));
      if (g >= 0) for (size_t q = 0; q < k.v.size(); q++) { eval(); if (memcmp(buf + q * k.size, k.v[q].data(), k.size)) { fail("%s: value %zu of key %s is not the one written", what.c_str(), q, name.c_str()); return false; } } }
  return true; }
static string layout(const vector<const D *> &ds, int lay, const char *sec) {
  string s; if (lay % 3 == 1) s += "! before\n\n@other\na=99\n  @SECTION_\ndefine(b[I8,0])\nb=98\n"; if (lay % 3 == 2) s += "text before;a=97\n@sec\ndefine(word[I4,0])\n@sections\na=96\n"; s += lay % 2 ? fmt("  @%s\n", sec) : fmt("@%s and more\n", sec); size_t k = 0;
  for (auto d : ds) { bool last = ++k == ds.size(); if (lay % 4 == 1) s += " \t"; if (lay % 4 == 2) s += "# a comment = 3\n  ! another\n\n"; s += d->text; if (last && lay % 5 == 3 && !d->cut) return s; s += (lay % 3 == 1 && !d->nl && !last) ? ";" : lay % 5 == 4 ? "\n \n\n" : "\n"; }
  if (lay % 2) s += "@section2\na=95\nb=94\n"; return s; }
static string show(const vector<const D *> &ds) { string s; for (auto d : ds) s += (s.empty() ? "" : " | ") + d->text; return s; }
static bool readone(void *wb, Model &m, const vector<const D *> &ds, int mode, int lay, const string &what) {
  string pk = lay % 7 == 6 ? "PK_" : ""; spit("f", layout(ds, lay, lay & 1 ? "Section" : "SECTION")); int e = interpret(m, ds, mode, pk); char fn[] = "f   ", p[] = "pk_ ", se[] = "section"; int r; if (lay % 3) r = c_wb_read(wb, fn, p, se, mode, 4, pk.empty() ? 0 : 4, 7); else { int32_t o = mode; r = f_wb_read_(&wb, pk.empty() ? "    " : p, fn, se, &o, 4, 4, 7); } trans(); eval();
  if ((r < 0) != (e > 0)) { fail("%s: reading returns %d, there are %d errors", what.c_str(), r, e); return false; } return compare(wb, m, what, pk); }
static void sequences(int first, int len) {
  vector<const D *> ds = {&DIR[first]}; int count = first; std::function<bool(int)> go = [&](int left) { int nl = ds.size() < 3 ? 30 : thorough && ds.size() < 4 ? 6 : 1; for (int q = 0; q < nl; q++) { void *wb = c_wb_new(); Model m; int lay = (count++ * 7 + q) % 420; bool ok = readone(wb, m, ds, 1 + (lay / 30 & 1), lay, fmt("%s (layout %d)", show(ds).c_str(), lay)); c_wb_free(wb); if (!ok) return false; }
    if (left) for (auto &d : DIR) { ds.push_back(&d); bool ok = go(left - 1); ds.pop_back(); if (!ok) return false; } return true; };
  if (go(len - 1)) outcome("directives"); }
// a second file, in each mode, after the first one
static void pairs(int first) {
  int count = first; for (size_t a2 = 0; a2 <= DIR.size(); a2++) { vector<const D *> f1 = {&DIR[first]}; if (a2 < DIR.size()) f1.push_back(&DIR[a2]);
    for (size_t b1 = 0; b1 < DIR.size(); b1++) for (size_t b2 = 0; b2 <= DIR.size(); b2++) { if (b2 < DIR.size() && !thorough && (b1 + b2 * 3 + a2) % 11) continue; vector<const D *> f2 = {&DIR[b1]}; if (b2 < DIR.size()) f2.push_back(&DIR[b2]); for (int mode = 0; mode < 3; mode++) { void *wb = c_wb_new(); Model m; int lay = count++ % 210 * 2; string w = show(f1); bool ok = readone(wb, m, f1, 1, lay / 7 * 7, w) && readone(wb, m, f2, mode, lay / 7 * 7 + 1, w + ", then in mode " + fmt("%d: ", mode) + show(f2)); c_wb_free(wb); if (!ok) return; } } }
  outcome("two files"); }
// many keys, long lines, missing files and sections
static void others() {
  void *wb = c_wb_new(); char sec[] = "S", fn[] = "many", no[] = "none", p[] = ""; for (int n : {1, 30, 31, 32, 33, 64, 200, 500}) { void *w = c_wb_new(); string s = "@s\n"; for (int k = 0; k < n; k++) s += fmt("define(k%d[I4,0]) ; k%d=%d\n", k, k, k * 3 - 7); spit("many", s); int r = c_wb_read(w, fn, p, sec, 1, 4, 0, 1); trans(); eval(); if (r) { fail("%d keys defined and set: %d", n, r); return; } for (int k = 0; k < n; k++) { int v = 0; string key = fmt("K%d", k); eval(); if (c_wb_get(w, &key[0], I, 4, (unsigned char *)&v, 0, key.size()) < 0 || v != k * 3 - 7) { fail("key %d of %d is %d", k, n, v); return; } } c_wb_free(w); state(s); }
  for (int n : {100, 200, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 512, 700}) for (int pad = 0; pad < 8; pad++) { void *w = c_wb_new(); string s = fmt("@s\ndefine(v[I4,%d])\n", n) + string(pad, ' ') + "v="; for (int k = 0; k < n; k++) s += fmt("%s%d", k ? "," : "", 1000 + k % 9000); s += "\n"; spit("many", s); int r = c_wb_read(w, fn, p, sec, 1, 4, 0, 1); trans(); vector<int> v(n + 1, 0); string key = "V"; int g = c_wb_get(w, &key[0], I, 4, (unsigned char *)v.data(), n, 1); eval(n); if (r || g != n) { fail("%d values in a line of %d characters: read %d, get %d", n, 5 * n + pad + 2, r, g); return; } for (int k = 0; k < n; k++) if (v[k] != 1000 + k % 9000) { fail("value %d of %d in one line is %d", k, n, v[k]); return; } c_wb_free(w); }
  for (int n : {1, 39, 40, 41, 500, 519, 520}) { void *w = c_wb_new(); string x; for (int k = 0; k < n; k++) x += 'a' + k % 26; string s = fmt("@s\ndefine(t[C%d,1])\nt='%s'\n", n, x.c_str()); spit("many", s); int r = c_wb_read(w, fn, p, sec, 1, 4, 0, 1); trans(); eval(); string v(n, '#'), key = "T"; int g = c_wb_get(w, &key[0], C, n, (unsigned char *)&v[0], 1, 1); if (r || g < 0 || v != x) { fail("a string of %d characters: read %d, get %d", n, r, g); return; } s = fmt("@s\ndefine(u[C%d,1])\nu='%sz'\n", n, x.c_str()); spit("many", s); r = c_wb_read(w, fn, p, sec, 1, 4, 0, 1); eval(); if (r >= 0) { fail("a string of %d characters is accepted in %d", n + 1, n); return; } c_wb_free(w); }
  spit("many", "@t\n@st\na=5\n"); eval(3); if (c_wb_read(wb, fn, p, sec, 1, 4, 0, 1) >= 0) { fail("section absent: accepted"); return; } if (c_wb_read(wb, no, p, sec, 1, 4, 0, 1) >= 0) { fail("file absent: accepted"); return; } spit("many", ""); if (c_wb_read(wb, fn, p, sec, 1, 4, 0, 1) >= 0) { fail("file empty: accepted"); return; } c_wb_free(wb); outcome("others"); }
int main(int argc, char **argv) {
  init(argc, argv); c_wb_verbosity(0);
  for (size_t k = 0; k < DIR.size(); k++) { if (begin("directives after '%s'", DIR[k].text.c_str())) isolated([&] { sequences(k, thorough ? 4 : 3); }); if (begin("two files, the first one starting with '%s'", DIR[k].text.c_str())) isolated([&] { pairs(k); }); }
  if (begin("many keys, long lines, absent files and sections")) isolated(others); return done(); }
