// F07: desire and exclure requests (excdes_new.c)
#include "fst.hh"
using namespace vh; using std::string; using std::vector;
extern "C" { int Xc_Select_ip1(int, int, const void *, int); int Xc_Select_ip2(int, int, void *, int); int Xc_Select_ip3(int, int, void *, int); int Xc_Select_date(int, int, int *, int);
 int Xc_Select_etiquette(int, int, char **, int); int Xc_Select_nomvar(int, int, char **, int); int Xc_Select_typvar(int, int, char **, int); int Xc_Select_suppl(int, int, int, int, int, int, int, int, int, char);
 int Xf_Select_etiquette(int, int, char *, int, int); int Xf_Select_nomvar(int, int, char *, int, int); int Xf_Select_typvar(int, int, char *, int, int);
 int C_select_ip1(void *, int); int C_select_ip2(void *, int); int C_select_ip3(void *, int); int C_select_date(int, int, int *, int); int C_select_etiquette(char **, int); int C_select_nomvar(char **, int); int C_select_typvar(char **, int); int C_select_suppl(int, int, int, int, int, int, int, char);
 int f_select_ip1_(void *, int *); int f_select_ip2_(void *, int *); int f_select_ip3_(void *, int *); int f_select_date_(int *, int *); int f_select_etiquette_(char *, int *, size_t); int f_select_nomvar_(char *, int *, size_t); int f_select_typvar_(char *, int *, size_t); int f_select_suppl_(int *, int *, int *, int *, int *, int *, int *, char *, size_t);
 int C_filtre_desire(); int C_filtre_exclure(); int f_filtre_desire_(); int f_filtre_exclure_(); int f_fst_match_req_(int *); int C_select_groupset(int, int); int ReadRequestTable(char *); void DumpRequestTable();
 int C_fstmatch_parm(int, int, int, int, int, int, int, int, char *, char *, char *, char *, int, int, int, int); int C_fst_match_req(int); int C_fstmatch_req(int); int fst_deactivate_filters(); int fst_reactivate_filters();
 int C_requetes_reset(int, int, int, int, int, int, int, int); void C_requetes_init(char *, const char *); void RequetesInit(); int XC_get_MAX_Nlist(); int XC_get_MAX_requetes();
 void ConvertIp(int *, float *, int *, int); int newdate_(int *, int *, int *, int *); void incdatr_(int *, int *, double *); }

struct Rec { int stamp, ni, nj, nk, ip[3]; string typ, nom, eti; char g; int ig[4]; };
struct Crit { bool use = false, range = false; vector<int> list; bool haslo = false, hashi = false; int lo = 0, hi = 0; double step = 0; };   // step in units of the value, seconds for dates
struct Set { bool use = false, des = false; int nstr[3] = {-1, -1, -1}; vector<string> str[3]; Crit date, ip[3]; bool sup = false; int s[7]; char g; };  // str: name, type, label
struct Table { Set q[50]; int first = 0, last = 49; };
static std::map<int, long> SEC;   // seconds of each stamp after the base
static int stamp(double h) { static int base = 0; if (!base) { int d = 20240228, t = 18000000, m = 3; newdate_(&base, &d, &t, &m); } int r; incdatr_(&r, &base, &h); SEC[r] = lround(h * 3600); return r; }
static bool translatable(const string &n) { return n.find_first_of("<>!^") == string::npos; }
static void dec(int ip, float &p, int &k) { int i = ip; ConvertIp(&i, &p, &k, -1); }
static bool ipmatch(const Crit &c, int ip, bool tr) { float p, v; int k, kv;
  if (!c.range) { for (int x : c.list) if (x == -1 || x == ip) return true; if (!tr) return false; dec(ip, p, k); for (int x : c.list) { dec(x, v, kv); if (k == kv && fabs((double)p - v) <= 1e-6 * fabs(v)) return true; } return false; }
  if (!tr) return false; dec(ip, p, k); float lo = p, hi = p; int a = k, b = k; if (c.haslo) dec(c.lo, lo, a); if (c.hashi) dec(c.hi, hi, b); if (a != k || b != k) return false; if (c.haslo && c.hashi && lo > hi) std::swap(lo, hi); if (p < lo || p > hi) return false; if (!c.step) return true;
  double n = ((double)p - lo) / c.step; return fabs(n - lround(n)) < 1e-4; }
static bool datematch(const Crit &c, int st) { if (!c.range) { if (c.list[0] == -1) return true; for (int x : c.list) if (x == st) return true; return false; }
  long t = SEC.at(st); if (c.haslo && t < SEC.at(c.lo)) return false; if (c.hashi && t > SEC.at(c.hi)) return false; if (!c.step) return true; long s = lround(c.step), r = (t - SEC.at(c.lo)) % s; return r <= 5 || s - r <= 5; }
static bool strmatch(const vector<string> &l, const string &v, size_t n) { if (l[0][0] == ' ') return true; for (auto &x : l) { string y = x.substr(0, n); if (!v.compare(0, y.size(), y)) return true; } return false; }
static bool hits(const Set &s, const Rec &r) {
  if (s.sup) { int v[7] = {r.ni, r.nj, r.nk, r.ig[0], r.ig[1], r.ig[2], r.ig[3]}; for (int k = 0; k < 7; k++) if (s.s[k] != -1 && s.s[k] != v[k]) return false; if (s.g != ' ' && s.g != r.g) return false; }
  if (s.nstr[0] >= 0 && !strmatch(s.str[0], r.nom, 4)) return false; if (s.nstr[1] >= 0 && !strmatch(s.str[1], r.typ, 2)) return false; if (s.nstr[2] >= 0 && !strmatch(s.str[2], r.eti, 12)) return false;
  if (s.date.use && !datematch(s.date, r.stamp)) return false; for (int k = 0; k < 3; k++) if (s.ip[k].use && !ipmatch(s.ip[k], r.ip[k], translatable(r.nom))) return false; return true; }
static int decide(const Table &t, const Rec &r) { bool des = false; for (int k = t.first; k <= t.last; k++) { const Set &s = t.q[k]; if (!s.use) continue; if (hits(s, r)) return s.des ? k + 1 : 0; des |= s.des; } return !des; }
static int lib(const Rec &r) { string ty = r.typ, no = r.nom, et = r.eti, g(1, r.g); trans(); return C_fstmatch_parm(0, r.stamp, r.ni, r.nj, r.nk, r.ip[0], r.ip[1], r.ip[2], ty.data(), no.data(), et.data(), g.data(), r.ig[0], r.ig[1], r.ig[2], r.ig[3]); }
static string show(const Rec &r) { return fmt("{%ld s, %dx%dx%d, ip %d %d %d, '%s' '%s' '%s' '%c', ig %d %d %d %d}", SEC[r.stamp], r.ni, r.nj, r.nk, r.ip[0], r.ip[1], r.ip[2], r.typ.c_str(), r.nom.c_str(), r.eti.c_str(), r.g, r.ig[0], r.ig[1], r.ig[2], r.ig[3]); }
static bool agree(const Table &t, const vector<Rec> &U, const string &what) { string sig; for (auto &r : U) { int w = decide(t, r), g = lib(r); eval(); sig += (char)w; if (g != w) { fail("%s: record %s gives %d, should be %d", what.c_str(), show(r).c_str(), g, w); return false; } } state(hash(sig.data(), sig.size(), hash(what))); outcome(fmt("%ld of %zu records accepted", (long)std::count_if(sig.begin(), sig.end(), [](char c) { return c; }), sig.size())); return true; }

// ---- requests in the form of the calls: the arguments and what they mean
struct Req { int kind; vector<int> a; vector<string> s; char g = ' '; };   // kind: 0-2 ip, 3 date, 4 name, 5 type, 6 label, 7 supplementary
static float asf(int i) { float f; memcpy(&f, &i, 4); return f; } static int asi(float f) { int i; memcpy(&i, &f, 4); return i; }
static string show(const Req &q) { static const char *N[] = {"ip1", "ip2", "ip3", "date", "name", "type", "label", "grid"}; string r = N[q.kind]; for (int x : q.a) r += q.kind == 3 && SEC.count(x) ? fmt(" +%lds", SEC[x]) : fmt(" %d", x); for (auto &x : q.s) r += " '" + x + "'"; if (q.kind == 7) r += fmt(" '%c'", q.g); return r; }
static bool valid(const Req &q) { size_t n = q.kind == 7 ? 1 : q.kind < 4 ? q.a.size() : q.s.size(); if (n < 1 || n > 50) return false; if (q.kind != 3 || q.a[0] == -1 || n == 1) return true; int nr = 0, nd = 0; for (size_t k = 0; k < n; k++) { if (q.a[k] == -2) { if (nr++ || k > 1) return false; } if (q.a[k] == -3) if (nd++ || !nr || k != 3 || k + 1 >= n) return false; } return true; }
static Crit crit(const Req &q) { Crit c; c.use = true; auto &a = q.a; size_t n = a.size(); if (a[0] == -1 || n == 1) { c.list = {a[0]}; return c; } 
  if (a[0] == -2) { c.range = true; if (a[1] != -2) { c.hashi = true; c.hi = a[1]; } else if (n > 2 && a[2] != -2) c.hashi = true, c.hi = a[2]; return c; }
  if (a[1] == -2) { c.range = true; c.haslo = true; c.lo = a[0]; if (n > 2 && a[2] != -2) c.hashi = true, c.hi = a[2]; if (n == 5 && a[3] == -3) c.step = q.kind == 3 ? (a[4] & 0x7F800000 ? floor(asf(a[4]) + .5) : a[4] * 3600.) : a[4] < 0xFFFFF ? a[4] : asf(a[4]); return c; }
  c.list = a; return c; }
static void apply(Table &t, int set, bool des, const Req &q) { Set &s = t.q[set]; s.use = true; s.des = des; if (q.kind < 3) s.ip[q.kind] = crit(q); else if (q.kind == 3) s.date = crit(q); else if (q.kind < 7) { int w = q.kind - 4; s.str[w] = q.s; s.nstr[w] = q.s.size(); } else { s.sup = true; for (int k = 0; k < 7; k++) s.s[k] = q.a[k]; s.g = q.g; } }
// via: 0 the C calls, 1 the calls with Fortran strings, 2 the current bundle, 3 the current bundle from Fortran
static int call(const Req &q, int via, int set, int des) { trans(); int n = q.a.size(), m = q.s.size(); int *a = (int *)malloc(4 * std::max(n, 1)); if (n) memcpy(a, q.a.data(), 4 * n); int r = -99; vector<char *> p; size_t L = 1; for (auto &x : q.s) p.push_back(strdup(x.c_str())), L = std::max(L, x.size()); p.push_back(nullptr); char *f = (char *)malloc(std::max<size_t>(m * L, 1)); for (int k = 0; k < m; k++) { memset(f + k * L, ' ', L); memcpy(f + k * L, q.s[k].data(), q.s[k].size()); }
  switch (q.kind) {
    case 0: r = via < 2 ? Xc_Select_ip1(set, des, a, n) : via == 2 ? C_select_ip1(a, n) : f_select_ip1_(a, &n); break;
    case 1: r = via < 2 ? Xc_Select_ip2(set, des, a, n) : via == 2 ? C_select_ip2(a, n) : f_select_ip2_(a, &n); break;
    case 2: r = via < 2 ? Xc_Select_ip3(set, des, a, n) : via == 2 ? C_select_ip3(a, n) : f_select_ip3_(a, &n); break;
    case 3: r = via < 2 ? Xc_Select_date(set, des, a, n) : via == 2 ? C_select_date(set, des, a, n) : f_select_date_(a, &n); break;
    case 4: r = via == 0 ? Xc_Select_nomvar(set, des, p.data(), m) : via == 1 ? Xf_Select_nomvar(set, des, f, m, L) : via == 2 ? C_select_nomvar(p.data(), m) : f_select_nomvar_(f, &m, L); break;
    case 5: r = via == 0 ? Xc_Select_typvar(set, des, p.data(), m) : via == 1 ? Xf_Select_typvar(set, des, f, m, L) : via == 2 ? C_select_typvar(p.data(), m) : f_select_typvar_(f, &m, L); break;
    case 6: r = via == 0 ? Xc_Select_etiquette(set, des, p.data(), m) : via == 1 ? Xf_Select_etiquette(set, des, f, m, L) : via == 2 ? C_select_etiquette(p.data(), m) : f_select_etiquette_(f, &m, L); break;
    case 7: { char g = q.g; r = via < 2 ? Xc_Select_suppl(set, des, a[0], a[1], a[2], a[3], a[4], a[5], a[6], g) : via == 2 ? C_select_suppl(a[0], a[1], a[2], a[3], a[4], a[5], a[6], g) : f_select_suppl_(a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, &g, 1); } }
  for (char *x : p) free(x); free(f); free(a); return r; }
static Req fortran(Req q) { size_t L = 1; for (auto &x : q.s) L = std::max(L, x.size()); for (auto &x : q.s) x.resize(L, ' '); return q; }

// ---- files of requests
static string num(const vector<int> &v) { string r; for (size_t k = 0; k < v.size(); k++) r += fmt(k ? ", %d" : "%d", v[k]); return r; }
static string text(const Req &q, int set, bool des) { static const char *N[] = {"IP1       ", "IP2       ", "IP3       ", "Dates     ", "Nomvar    ", "Typvar    ", "Etiket    ", "Xtra      "}; string kind = "value ", data; int n;
  if (q.kind == 7) { n = 8; data = num(q.a) + fmt(", '%c'", q.g); } else if (q.kind > 3) { n = q.s.size(); for (int k = 0; k < n; k++) data += (k ? ", '" : "'") + q.s[k] + "'"; } else { Crit c = crit(q); if (!c.range) { data = num(c.list); n = c.list.size(); } else { vector<int> v = {c.haslo ? c.lo : -2, c.hashi ? c.hi : -2}; kind = "range "; if (c.step) { kind = "delta "; v.push_back(q.kind == 3 ? (int)lround(c.step) : q.a[4]); } n = v.size(); data = num(v); } }
  return fmt("%2d, '%c', '%s', '%s', %2d\n       %s\n", set, des ? 'D' : 'E', N[q.kind], kind.c_str(), n, data.c_str()); }
static int readback(const string &t) { spit("dir.txt", t); char f[] = "dir.txt"; trans(); return ReadRequestTable(f); }

static Rec base() { static int st = stamp(0); return {st, 11, 12, 13, {500, 6, 7}, "P ", "TT  ", "LABEL       ", 'N', {21, 22, 23, 24}}; }
static bool single(const Req &q, const vector<Rec> &U, bool files) { if (!begin_s("request " + show(q))) return true;
  for (int des = 0; des < 2; des++) for (int set : {0, 3, 49}) for (int via = 0; via < 4; via++) { if ((set || des) && !thorough && via % 2) continue; RequetesInit(); Table t; Req e = via % 2 ? fortran(q) : q; int sn = set; if (via > 1) { if (set == 49 && !thorough) continue; for (int k = 0; k <= set; k++) (k == set ? des : !des) ? (via == 2 ? C_filtre_desire() : f_filtre_desire_()) : (via == 2 ? C_filtre_exclure() : f_filtre_exclure_()); }
    int r = call(q, via, sn, des); eval(); if ((r == 0) != valid(q)) { fail("way %d set %d: the request is answered %d", via, set, r); return false; } if (r == 0) apply(t, set, des, e); if (!agree(t, U, fmt("way %d, set %d, %s", via, set, des ? "desire" : "exclure"))) return false; if (!via) DumpRequestTable(); }
  if (files && valid(q) && !(q.kind == 3 && crit(q).range && !crit(q).haslo && !crit(q).hashi)) for (int des = 0; des < 2; des++) for (int set : {0, 3, 49}) { RequetesInit(); Table t; int r = readback(text(q, set, des) + " 0\n"); eval(); if (r != 0) { fail("a file with the request for set %d is answered %d", set, r); return false; } apply(t, set, des, q); if (!agree(t, U, fmt("from a file, set %d", set))) return false; }
  return true; }
static void ips() { auto enc = [](float p, int k) { int ip = -1; float q = p; int kk = k; ConvertIp(&ip, &q, &kk, 2); return ip; };
  vector<int> V = {0, 1, 2, 500, 850, 1000, 2000, 7000, 11950, 12001, 12002, 12003, enc(500, 2), enc(850, 2), enc(0, 0), enc(5, 0), enc(10, 0), enc(12.5, 0), enc(0, 10), enc(3, 10), enc(6, 10), enc(7.5, 10), enc(12, 10), enc(.5, 1), enc(.995, 1), enc(0, 1)}; std::sort(V.begin(), V.end()); V.erase(std::unique(V.begin(), V.end()), V.end());
  for (int w = 0; w < 3; w++) { vector<Rec> U; for (int v : V) for (auto n : {"TT  ", ">>  ", "^^  "}) { Rec r = base(); r.ip[w] = v; r.nom = n; U.push_back(r); }
    for (int v : V) { single({w, {v}}, U, true); single({w, {-2, v}}, U, true); single({w, {v, -2}}, U, true); single({w, {-1, v}}, U, false); if (too_many()) return; }
    single({w, {-1}}, U, true); single({w, {-2, -2}}, U, true); single({w, {}}, U, false);
    for (int a : V) for (int b : V) { single({w, {a, b}}, U, thorough); single({w, {a, -2, b}}, U, true); single({w, {a, b, -1}}, U, false); float pa, pb; int ka, kb; dec(a, pa, ka); dec(b, pb, kb); if (ka == kb) for (int d : {1, 2, 3, 5, 100, asi(.5f), asi(1.5f), asi(350)}) { if (ka == 1 && d != asi(.5f)) continue; single({w, {a, -2, b, -3, d}}, U, true); } if (too_many()) return; }
    for (int n : {3, 4, 5, 39, 40, 41, 49, 50, 51, 200}) { vector<int> l(n, 77777); l[n - 1] = 850; single({w, l}, U, true); } } }
static void dates() { vector<int> V; for (double h : {0., .5, 1., 1.5, 2., 3., 4.5, 6., 12., 18., 24., 24.1, 30., 48., -1., -6., 400.}) V.push_back(stamp(h)); for (int s : {60, 360, 720, 1080, 3590, 3610, 3600 * 7 + 360}) V.push_back(stamp(s / 3600.)); vector<Rec> U; for (int v : V) { Rec r = base(); r.stamp = v; U.push_back(r); }
  single({3, {-1}}, U, true); single({3, {-1, 5}}, U, false); single({3, {}}, U, false); for (int v : V) { single({3, {v}}, U, true); single({3, {-2, v}}, U, true); single({3, {v, -2}}, U, true); }
  for (int a : V) for (int b : V) { single({3, {a, b}}, U, true); single({3, {a, -2, b}}, U, true); for (int d : {1, 3, 6, 24, asi(360), asi(720), asi(1200), asi(1800), asi(5400), asi(3599.6f), asi(86400)}) { if (SEC[a] > SEC[b] && d != 3) continue; single({3, {a, -2, b, -3, d}}, U, true); } if (too_many()) return; }
  // every list of up to five elements over two dates and the two signs
  { vector<int> A = {V[0], V[4], -2, -3}; for (int n = 2; n <= 5; n++) for (int c = 0; c < (1 << 2 * n); c++) { vector<int> l; for (int k = 0; k < n; k++) l.push_back(A[c >> 2 * k & 3]); Req q{3, l}; if (valid(q)) { Crit x = crit(q); bool odd = false; for (size_t k = 0; k < l.size(); k++) odd |= l[k] == -3; if (odd || l[0] == -3) continue; if (x.range && n > (l[0] == -2 ? 2 : 3)) continue; } single(q, U, false); if (too_many()) return; } }
  for (int n : {40, 41, 50, 51}) { vector<int> l(n, V[3]); l[n - 1] = V[6]; single({3, l}, U, true); } }
static void strings() { vector<Rec> U; for (auto n : {"TT  ", "T   ", "TTX ", "TTXY", "UU  ", ">>  ", " TT "}) for (auto t : {"P ", "P@", "V1", "  "}) for (auto e : {"LABEL       ", "LABELLABELLA", "L           ", "            ", "ABC DEF GHI "}) { Rec r = base(); r.nom = n; r.typ = t; r.eti = e; U.push_back(r); }
  vector<string> A[3] = {{"TT", "TT  ", "T", "T   ", "TTXY", "TTXYZ", "TTXYZWTTXYZWTTXYZW", "UU", ">>", " ", "    ", " TT", "tt", "ZZZZ"}, {"P", "P ", "P@", "P@X", "V1", "V", " ", "  ", "Q"}, {"LABEL", "LABEL       ", "LABELLABELLA", "LABELLABELLAB", "LABELLABELLABELLABELLABEL", "L", "ABC DEF GHI ", "ABC ", " ", "            ", "NONE"}};
  for (int w = 0; w < 3; w++) { single({4 + w, {}, {}}, U, false); auto short12 = [](const string &x) { return x.size() <= 12; }; for (auto &a : A[w]) { single({4 + w, {}, {a}}, U, true); for (auto &b : A[w]) { single({4 + w, {}, {a, b}}, U, true); if (short12(a) && short12(b) && a[0] != ' ' && b[0] != ' ') for (auto &c : A[w]) if (thorough || c[0] == 'T') single({4 + w, {}, {a, b, c}}, U, false); } if (too_many()) return; }
    for (int n : {3, 39, 40, 41, 49, 50, 51, 120}) for (size_t k = 0; k < A[w].size(); k++) { vector<string> l(n, w == 2 ? "NONENONENONENONE" : "ZZZZZZZ"); l[n - 1] = A[w][k]; single({4 + w, {}, l}, U, true); } } }
static void grids() { vector<Rec> U; { Rec r = base(); U.push_back(r); int *f[7] = {&r.ni, &r.nj, &r.nk, r.ig, r.ig + 1, r.ig + 2, r.ig + 3}; for (int k = 0; k < 7; k++) { int v = *f[k]; for (int x : {v + 1, 0, 22, 24}) { *f[k] = x; U.push_back(r); } *f[k] = v; } r.g = 'Z'; U.push_back(r); }
  int v[7] = {11, 12, 13, 21, 22, 23, 24}; int n = 1; for (int k = 0; k < 7; k++) n *= 3; for (int c = 0; c < n; c++) for (char g : {' ', 'N', 'Z'}) { if (!thorough && g == 'Z' && c % 5) continue; vector<int> a; int x = c; for (int k = 0; k < 7; k++, x /= 3) a.push_back(x % 3 == 0 ? -1 : x % 3 == 1 ? v[k] : 22); single({7, a, {}, g}, U, c % 7 == 0); if (too_many()) return; } }

// ---- every history of requests on a few sets
static void histories() { int d0 = stamp(0), d6 = stamp(6), d12 = stamp(12); vector<Rec> U; for (auto n : {"TT  ", "UU  ", ">>  "}) for (int ip : {500, 850}) for (int st : {d0, d6}) for (auto t : {"P ", "A "}) { Rec r = base(); r.nom = n; r.ip[0] = ip; r.stamp = st; r.typ = t; U.push_back(r); } { Rec r = base(); r.ig[3] = 99; U.push_back(r); r.ip[1] = 12; U.push_back(r); }
  struct Op { int what, set, des; Req q; };   // 0 request, 1 reset, 2 keep the criteria, 3 group, 4 start again
  vector<Op> A; vector<Req> Q = {{4, {}, {"TT"}}, {4, {}, {"UU", "TT"}}, {0, {500}}, {0, {400, -2, 600}}, {3, {d6, d12}}, {3, {d6, -2}}, {5, {}, {"A"}}, {7, {-1, -1, -1, -1, -1, -1, 99}, {}, ' '}, {3, {-2, -2}}, {1, vector<int>(51, 3)}};
  for (auto &q : Q) for (int s : {0, 1}) for (int d : {0, 1}) if (s == 0 || &q - &Q[0] < (thorough ? 8 : 5)) A.push_back({0, s, d, q}); for (int s : {0, 1}) { A.push_back({1, s, 0, {}}); A.push_back({2, s, 0, {}}); } for (auto g : {std::pair<int, int>{0, 0}, {1, 1}, {1, 49}, {-1, 3}, {0, 50}, {5, 4}, {50, 50}}) A.push_back({3, g.first, g.second, {}}); A.push_back({4, 0, 0, {}}); A.push_back({0, -1, 1, Q[0]}); A.push_back({0, 50, 0, Q[2]}); A.push_back({0, -1, 0, Q[4]}); A.push_back({1, -1, 0, {}}); A.push_back({1, 50, 0, {}}); A.push_back({0, -7, 1, Q[7]}); A.push_back({0, -1, 1, Q[6]});
  int depth = 3; vector<int> idx(depth); std::function<void(int)> rec; auto name = [&](const Op &o) { return o.what == 0 ? fmt("%s %d: %s", o.des ? "desire" : "exclure", o.set, show(o.q).substr(0, 60).c_str()) : o.what == 1 ? fmt("reset %d", o.set) : o.what == 2 ? fmt("reset %d, criteria kept", o.set) : o.what == 3 ? fmt("group %d-%d", o.set, o.des) : string("start"); };
  for (size_t a = 0; a < A.size(); a++) for (size_t b = 0; b < A.size(); b++) { if (!begin("history: %s; %s; any third", name(A[a]).c_str(), name(A[b]).c_str())) continue; 
    for (size_t c = 0; c < A.size(); c++) for (size_t d = 0; d < (thorough && (a + b + c) % 3 == 0 ? A.size() : 1); d++) { RequetesInit(); Table t; string h; vector<size_t> seq = {a, b, c}; if (d) seq.push_back(d); for (size_t k : seq) { const Op &o = A[k]; h += "; " + name(o); int r = 0; bool ok = true; bool okset = o.set >= 0 && o.set < 50;
        if (o.what == 0) { r = call(o.q, (k + c) % 2, o.set, o.des); ok = okset && valid(o.q) && !(t.q[o.set].use && t.q[o.set].des != !!o.des); if (ok) apply(t, o.set, o.des, (k + c) % 2 ? fortran(o.q) : o.q); }
        else if (o.what == 1) { r = C_requetes_reset(o.set, 0, 0, 0, 0, 0, 0, 0); ok = okset; if (ok) t.q[o.set] = Set(); }
        else if (o.what == 2) { r = C_requetes_reset(o.set, -1, -1, -1, -1, -1, -1, -1); t.q[o.set].use = t.q[o.set].sup = false; }
        else if (o.what == 3) { r = C_select_groupset(o.set, o.des); ok = okset && o.des < 50 && o.set <= o.des; if (ok) t.first = o.set, t.last = o.des; }
        else { C_requetes_init(nullptr, nullptr); t = Table(); } eval(); trans(); if ((r == 0) != ok) { fail("history%s: the last is answered %d", h.c_str(), r); return; } }
      if (!agree(t, U, "history" + h)) return; } if (too_many()) return; } }
// resets of some criteria only
static void resets() { vector<Rec> U; Rec b = base(); U.push_back(b); { Rec r = b; r.nom = "UU  "; U.push_back(r); } { Rec r = b; r.typ = "A "; U.push_back(r); } { Rec r = b; r.eti = "OTHER       "; U.push_back(r); } { Rec r = b; r.stamp = stamp(6); U.push_back(r); } for (int k = 0; k < 3; k++) { Rec r = b; r.ip[k] = 77; U.push_back(r); } { Rec r = b; r.ni = 99; U.push_back(r); }
  for (int m = 0; m < 128; m++) for (int des = 0; des < 2; des++) { if (!begin("reset of the criteria %02x of a set, which is used again", m)) continue; for (int again = 0; again < 9; again++) { RequetesInit(); Table t; vector<Req> Q = {{4, {}, {"TT"}}, {5, {}, {"P"}}, {6, {}, {"LABEL"}}, {3, {b.stamp}}, {0, {500}}, {1, {6}}, {2, {7}}, {7, {11, 12, 13, 21, 22, 23, 24}, {}, 'N'}}; for (auto &q : Q) { call(q, 0, 2, des); apply(t, 2, des, q); } int k[7]; for (int q = 0; q < 7; q++) k[q] = m >> q & 1 ? 0 : -1; C_requetes_reset(2, k[0], k[1], k[2], k[3], k[4], k[5], k[6]); Set &s = t.q[2]; s.use = s.sup = false; for (int q = 0; q < 3; q++) if (!k[q]) s.nstr[q] = -1; if (!k[3]) s.date = Crit(); for (int q = 0; q < 3; q++) if (!k[4 + q]) s.ip[q] = Crit();
      if (!agree(t, U, "after the reset")) return; if (again < 8) { call(Q[again], 0, 2, !des); apply(t, 2, !des, Q[again]); if (!agree(t, U, fmt("after request %d", again))) return; } } } }
static void bundles() { for (int n : {0, 1, 2, 49, 50, 51, 60}) for (int mix = 0; mix < 4; mix++) { if (!begin("%d bundles, kinds %d", n, mix)) continue; RequetesInit(); Table t; vector<Rec> U; for (int k = 0; k <= 60; k++) { Rec r = base(); r.ip[1] = 1000 + k; U.push_back(r); } int cur = -1; Req q0{1, {1000}}; if ((call(q0, 2 + (mix & 1), 0, 0) == 0)) { fail("a request before any bundle is accepted"); continue; }
    for (int k = 0; k < n; k++) { bool des = mix & 2 ? k % 3 : true; if (mix == 3) des = false; int r = des ? (mix & 1 ? f_filtre_desire_() : C_filtre_desire()) : (mix & 1 ? f_filtre_exclure_() : C_filtre_exclure()); cur = k; eval(); if ((r == 0) != (cur < 50)) { fail("bundle %d is answered %d", k, r); break; } Req q{1, {1000 + k, 1001 + k}}; r = call(q, 2 + (mix & 1), 0, 0); if ((r == 0) != (cur < 50)) { fail("a request of bundle %d is answered %d", k, r); break; } if (cur < 50) apply(t, k, des, q); } agree(t, U, "bundles"); DumpRequestTable(); }
  if (begin("limits")) if (XC_get_MAX_Nlist() != 50 || XC_get_MAX_requetes() != 50) fail("limits %d %d", XC_get_MAX_Nlist(), XC_get_MAX_requetes()); }
// ---- files of requests: several, cut anywhere, altered anywhere
static void files() { int d6 = stamp(6), d12 = stamp(12); vector<Rec> U; for (auto n : {"TT  ", "UU  "}) for (int ip : {500, 850}) for (int st : {stamp(0), d6}) { Rec r = base(); r.nom = n; r.ip[0] = ip; r.stamp = st; U.push_back(r); }
  vector<Req> Q = {{4, {}, {"TT  ", "UU"}}, {0, {500, 600}}, {0, {400, -2, 600}}, {0, {500, -2, 900, -3, 50}}, {3, {d6, d12}}, {3, {d6, -2, d12}}, {3, {stamp(0), -2, d12, -3, 6}}, {5, {}, {"P", "A "}}, {6, {}, {"LABEL       "}}, {7, {11, -1, -1, -1, -1, -1, 24}, {}, 'N'}};
  for (auto &a : Q) for (auto &b : Q) for (int k = 0; k < 4; k++) { if (!begin("a file of two requests, kinds %d: %s; %s", k, show(a).c_str(), show(b).c_str())) continue; string ta = text(a, k & 1, k & 2), tb = text(b, 1, k & 2); { RequetesInit(); Table t; int r = readback(ta + tb + (k == 3 ? "" : " 0\n")); if (r) { fail("answered %d", r); continue; } apply(t, k & 1, k & 2, a); apply(t, 1, k & 2, b); if (!agree(t, U, "the file")) continue; }
    if (k < 2 && &b != &Q[0] && !thorough) continue;
    for (size_t n = 0; n < (ta + tb).size(); n++) { RequetesInit(); Table t; string c = (ta + tb).substr(0, n); int r = readback(c); eval(); if (r != 0 && r != -1) { fail("cut after %zu bytes: answered %d", n, r); break; } if (n >= ta.size()) { size_t h = tb.find('\n') + 1; if (n > ta.size() + 1 && n - ta.size() <= h && r == 0) { fail("cut after %zu bytes, within a request: answered 0", n); break; } if (n - ta.size() < h) { apply(t, k & 1, k & 2, a); if (!agree(t, U, fmt("cut after %zu bytes", n))) break; } } } }
  for (auto &a : Q) { if (!begin("a file with any one character altered: %s", show(a).c_str())) continue; string ta = text(a, 1, true); for (size_t n = 0; n < ta.size(); n++) for (char c : string("\n\0', 9-x~", 10)) { string s = ta; s[n] = c; RequetesInit(); int r = readback(s + " 0\n"); eval(); if (r != 0 && r != -1) { fail("character %zu altered: answered %d", n, r); break; } for (auto &u : U) { r = lib(u); if (r < 0 || r > 50) { fail("character %zu altered: decision %d", n, r); break; } } } }
  if (begin("files that cannot be read")) { char f[] = "nothing/here"; if (ReadRequestTable(f) != -1) fail("no file"); if (ReadRequestTable(nullptr) != -1) fail("no name"); if (readback("") != 0) fail("empty file"); if (readback(" 0\n") != 0) fail("no request"); } RequetesInit(); }
// ---- searches in files go through the requests
static void searches() { struct R { const char *n; int ip; const char *t; double h; const char *e; int ni; }; vector<R> L = {{"TT", 500, "P", 0, "ONE", 3}, {"TT", 850, "P", 0, "ONE", 3}, {"UU", 500, "P", 6, "ONE", 4}, {"UU", 850, "A", 6, "TWO", 3}, {"GZ", 500, "P", 12, "TWO", 3}, {"GZ", 850, "P@", 12, "ONE", 3}, {">>", 500, "P", 0, "TWO", 5}, {"TT", 500, "P", 6, "TWO", 3}}; float v[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  for (int w = 0; w < 2; w++) { int iun = fst::opn(w ? "s1.fst" : "s0.fst", "STD+RND", "RND"); for (auto &r : L) { if (w && r.ip == 850) continue; c_fstecr(v, v, -32, iun, stamp(r.h), 0, 0, r.ni, 1, 1, r.ip, w, 0, r.t, r.n, r.e, "X", 0, 0, 0, 0, 5, 0); } fst::cls(iun); }
  int d6 = stamp(6); vector<vector<std::pair<int, Req>>> F = {{}, {{1, {4, {}, {"TT"}}}}, {{0, {4, {}, {"TT", "UU"}}}}, {{1, {0, {500}}}}, {{0, {0, {500, -2, 700}}}}, {{1, {3, {d6, -2}}}}, {{0, {5, {}, {"P "}}}}, {{0, {6, {}, {"TWO"}}}, {1, {0, {850}}}}, {{1, {4, {}, {"GZ"}}}, {1, {4, {}, {"TT"}}}}, {{1, {7, {4, -1, -1, -1, -1, -1, -1}, {}, ' '}}}, {{0, {1, {1}}}}, {{0, {4, {}, {" "}}}}};
  for (size_t f = 0; f < F.size(); f++) for (int linked = 0; linked < 2; linked++) for (int off = 0; off < 3; off++) { if (!begin("searches under requests %zu, files %s, filters %s", f, linked ? "linked" : "alone", off == 0 ? "on" : off == 1 ? "off" : "off then on")) continue; int u[2] = {fst::opn("s0.fst", "STD+RND+R/O", "RND+R/O"), fst::opn("s1.fst", "STD+RND+R/O", "RND+R/O")}; RequetesInit(); Table t; int s = 0; for (auto &x : F[f]) { call(x.second, 0, s, x.first); apply(t, s, x.first, x.second); s++; } if (off) { int o = fst_deactivate_filters(); if (o) fail("the filters were off"); if (off == 2 && fst_reactivate_filters() != 1) fail("the filters were on"); } if (linked) c_xdflnk(u, 2);
    auto rec = [&](const R &r, int w) { Rec x = base(); x.stamp = stamp(r.h); x.ni = r.ni; x.nj = x.nk = 1; x.ip[0] = r.ip; x.ip[1] = w; x.ip[2] = 0; x.typ = string(r.t) + string(2 - strlen(r.t), ' '); x.nom = string(r.n) + string(4 - strlen(r.n), ' '); x.eti = string(r.e) + string(12 - strlen(r.e), ' '); x.g = 'X'; for (int &q : x.ig) q = 0; return x; };
    for (int w = 0; w < (linked ? 1 : 2); w++) for (auto nm : {" ", "TT", "UU"}) for (int ip : {-1, 500, 850}) { vector<string> want, got; for (int q = w; q <= (linked ? 1 : w); q++) for (auto &r : L) { if (q && r.ip == 850) continue; if (*nm != ' ' && strcmp(nm, r.n)) continue; if (ip != -1 && ip != r.ip) continue; Rec x = rec(r, q); int y = off == 1 ? 1 : decide(t, x); if (y) want.push_back(fmt("%d %s", y, show(x).c_str())); }
      int ni, nj, nk; trans(); for (int h = c_fstinf(u[w], &ni, &nj, &nk, -1, " ", ip, -1, -1, " ", nm); h >= 0 && got.size() < 40; h = c_fstsui(u[w], &ni, &nj, &nk)) { fst::Meta m; fst::prm(h, m); Rec x = base(); x.stamp = m.datev; x.ni = m.ni; x.nj = m.nj; x.nk = m.nk; x.ip[0] = m.ip1; x.ip[1] = m.ip2; x.ip[2] = m.ip3; auto pad = [](string s, int n) { s.resize(n, ' '); return s; }; x.typ = pad(m.typvar, 2); x.nom = pad(m.nomvar, 4); x.eti = pad(m.etiket, 12); x.g = m.grtyp[0]; x.ig[0] = m.ig1; x.ig[1] = m.ig2; x.ig[2] = m.ig3; x.ig[3] = m.ig4; int y = C_fst_match_req(h), z = C_fstmatch_req(h), zf = f_fst_match_req_(&h); if (y != z || y != zf) fail("the forms of the question differ: %d %d %d", y, z, zf); got.push_back(fmt("%d %s", y, show(x).c_str())); }
      eval(); if (got != want) { fail("search of '%s' ip1 %d in file %d finds %zu records, should find %zu: first %s", nm, ip, w, got.size(), want.size(), got.empty() ? "none" : got[0].c_str()); break; } state(hash(fmt("%zu %d %d %d %s %d %zu", f, linked, off, w, nm, ip, got.size()))); int lst[40], n = 0; c_fstinl(u[w], &ni, &nj, &nk, -1, " ", ip, -1, -1, " ", nm, lst, &n, 40); if ((size_t)n != want.size()) { fail("fstinl finds %d records, should find %zu", n, want.size()); break; } }
    if (linked) ((int (*)(int *, int))c_xdfunl)(u, 2); fst_reactivate_filters(); RequetesInit(); for (int x : u) fst::cls(x); }
  // rewriting looks at all records whatever the requests
  if (begin("rewriting a record that the requests exclude")) { unlink("s2.fst"); int iun = fst::opn("s2.fst", "STD+RND", "RND"); RequetesInit(); Req q{4, {}, {"TT"}}; call(q, 0, 0, 0); for (int k = 0; k < 2; k++) c_fstecr(v, v, -32, iun, stamp(0), 0, 0, 3, 1, 1, 500, 0, 0, "P", "TT", "ONE", "X", 0, 0, 0, 0, 5, 1); int ni, nj, nk, a = c_fstinf(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", "TT"), n = c_fstnbrv(iun); RequetesInit(); int b = c_fstinf(iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", "TT"); eval(); if (a >= 0 || b < 0 || n != 1) fail("found %d under the request, %d without, %d records", a, b, n); fst::cls(iun); } }
int main(int c, char **v) { init(c, v); { int u = fst::opn("warm.fst", "STD+RND", "RND"); fst::cls(u); } histories(); resets(); bundles(); searches(); files(); grids(); strings(); dates(); ips(); return done(); }
