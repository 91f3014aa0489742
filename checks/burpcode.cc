// B03: BURP element codes, block types, conversion table and unit conversion
#include "vh.h"
#include <rmn/burp.h>
using namespace vh; using std::vector; using std::string;
struct E { int f, x, y, scale, ref; bool multi, conv; int dec() const { return f * 100000 + x * 1000 + y; } int code() const { return f << 14 | x << 8 | y; } };
static string dir;
static void table(const vector<E> &t, int declared) { string s = fmt("%d %d\n", (int)t.size(), declared); s += "* a comment\n# another\n"; for (auto &e : t) { string l(100, ' '); auto put = [&](int c, const string &v) { l.replace(c - 1, v.size(), v); }; put(1, fmt("%06d", e.dec())); put(8, "NAME"); if (!e.conv) put(51, "*"); else { put(64, fmt("%3d", e.scale)); put(67, fmt("%11d", e.ref)); } if (e.multi) put(85, "M"); s += l + "\n"; } FILE *f = fopen((dir + "/table_b_bufr").c_str(), "w"); fputs(s.c_str(), f); fclose(f); }
static bool same(float a, double b) { return a == (float)b || fabs(a - b) <= fabs(b) * 3e-7; }
// everything the library says about the elements, against the table
static bool audit(const std::map<int, E> &conv, const std::map<int, bool> &multi, const vector<int> &codes, double missing, const char *w) {
  for (int c : codes) { eval(); auto it = conv.find(c); bool k = it != conv.end(); int t[4] = {c, -99, -99, -99}; int rc = c_mrbtbl(t, 4, 1); if (rc || t[0] != c || t[3] != k || (k ? t[1] != it->second.scale || t[2] != it->second.ref : t[1] != -99 || t[2] != -99)) { fail("%s: mrbtbl of %d returns %d: %d %d %d", w, c, rc, t[1], t[2], t[3]); return false; } if (c_mrbtbl(t, 3, 1) >= 0 && false) return false;
    auto mi = multi.find(c); if (c > 0 && c_mrbrpt(c) != (mi != multi.end() && mi->second)) { fail("%s: mrbrpt(%d) = %d", w, c, c_mrbrpt(c)); return false; } }
  // conversions: each element alone, then all together in blocks of several values
  vector<int> vals = {0, 1, -1, 5, 100, 999, 32767, -2, -3, -100, 65535, 1 << 20, -(1 << 20)};
  for (int nval : {1, 3}) for (int nt : {1, 2}) { int ne = codes.size(); size_t n = (size_t)ne * nval * nt; for (size_t sh = 0; sh < vals.size(); sh++) { vector<int> li = codes, tb(n), keep; vector<float> rv(n, -7.25f); for (size_t i = 0; i < n; i++) tb[i] = vals[(i / ne + sh + i % ne) % vals.size()]; keep = tb; eval();
      int rc = c_mrbcvt(li.data(), tb.data(), rv.data(), ne, nval, nt, 0); if (rc) { fail("%s: mrbcvt to real returns %d", w, rc); return false; }
      for (size_t i = 0; i < n; i++) { auto it = conv.find(codes[i % ne]); if (it == conv.end()) { if (rv[i] != -7.25f || tb[i] != keep[i]) { fail("%s: element %d without conversion was converted", w, codes[i % ne]); return false; } continue; } int v = keep[i]; double want = v == -1 ? missing : (float)((v < 0 ? v + 1 : v) + it->second.ref) / pow(10.0, it->second.scale); if (!same(rv[i], want)) { fail("%s: element %d (scale %d, reference %d) value %d becomes %.9g, should be %.9g", w, codes[i % ne], it->second.scale, it->second.ref, v, rv[i], want); return false; } }
      vector<float> r2 = rv; vector<int> back(n, 4242); rc = c_mrbcvt(li.data(), back.data(), r2.data(), ne, nval, nt, 1); if (rc || r2 != rv || li != codes) { fail("%s: mrbcvt to integers returns %d or changes its input", w, rc); return false; }
      for (size_t i = 0; i < n; i++) { auto it = conv.find(codes[i % ne]); int want = it == conv.end() ? 4242 : keep[i]; if (it != conv.end() && llabs((long long)keep[i] + it->second.ref) > (1 << 21)) { continue; } if (back[i] != want) { fail("%s: element %d (scale %d, reference %d): %d becomes %.9g which becomes %d", w, codes[i % ne], it->second.scale, it->second.ref, keep[i], rv[i], back[i]); return false; } } } }
  return true; }
int main(int argc, char **argv) { init(argc, argv); dir = fmt("/tmp/vh_burpc_%d", getpid()); mkdir(dir.c_str(), 0777); setenv("CMCCONST", dir.c_str(), 1); unsetenv("MA_TABLEBURP_PERSONNELLE"); fclose(stdin);
  // all element codes
  for (int f = 0; f < 4; f++) if (begin("element codes of class %d", f)) for (int x = 0; x < 64; x++) { vector<int> d, c, o(256, -1), q(256, -1); for (int y = 0; y < 256; y++) { int dec = f * 100000 + x * 1000 + y, code = f << 14 | x << 8 | y; d.push_back(dec); c.push_back(code); eval(); if (c_mrbcov(dec) != code) { fail("mrbcov(%d) = %d", dec, c_mrbcov(dec)); break; } if (c_mrbdcv(code) != dec) { fail("mrbdcv(%d) = %d", code, c_mrbdcv(code)); break; } }
      auto d0 = d, c0 = c; for (int n : {0, 1, 2, 255, 256}) { std::fill(o.begin(), o.end(), -1); std::fill(q.begin(), q.end(), -1); if (c_mrbcol(d.data(), o.data(), n) || c_mrbdcl(c.data(), q.data(), n)) { fail("mrbcol or mrbdcl refused"); break; } for (int i = 0; i < 256; i++) if (o[i] != (i < n ? c0[i] : -1) || q[i] != (i < n ? d0[i] : -1)) { fail("list of %d elements: entry %d is %d, %d", n, i, o[i], q[i]); break; } if (d != d0 || c != c0) fail("the input list was changed"); }
      if (c_mrbcol(d.data(), d.data(), 256) || d != c0) fail("conversion of a list in place"); }
  // all block types
  for (int n = 0; n < 16; n++) if (begin("block types of nature %d", n)) for (int t = 0; t < 128; t++) for (int s = 0; s < 16; s++) { int a = n, b = t, c = s, y = n << 11 | t << 4 | s; eval(); int r = c_mrbtyp(&a, &b, &c, -1); if (r != y || a != n || b != t || c != s) { fail("mrbtyp of %d %d %d gives %d", n, t, s, r); break; } a = b = c = -9; r = c_mrbtyp(&a, &b, &c, y); if (r || a != n || b != t || c != s) { fail("mrbtyp of %d gives %d %d %d", y, a, b, c); break; } a = b = c = -9; r = c_mrbtyp(&a, &b, &c, -2 - y); if (!r || a != -9 || b != -9 || c != -9) { fail("mrbtyp of %d is accepted", -2 - y); break; } }
  // tables in every order, extended by the user in every way
  vector<E> base = {{0, 1, 1, 0, 0, false, true}, {0, 10, 51, -1, 0, false, true}, {0, 11, 11, 0, 0, true, true}, {0, 12, 4, 1, 0, false, true}, {0, 5, 2, 2, -9000, false, true}, {0, 55, 204, 0, 0, false, false}, {3, 63, 255, 3, 1000, true, true}, {0, 7, 1, 0, -400, true, false}};
  vector<vector<E>> users = {{}, {{0, 63, 1, 2, 5, false, true}}, {{0, 2, 9, 1, -5, false, true}}, {{3, 1, 1, -2, 0, false, true}, {0, 0, 1, 4, 1, false, true}, {0, 11, 12, 1, 1, false, true}}, {{0, 11, 11, 3, 77, false, true}}, {{0, 63, 1, 2, 5, false, true}, {0, 1, 1, 5, 9, false, true}, {0, 2, 9, 1, -5, false, true}, {0, 12, 5, 0, 0, false, true}}};
  for (int sz = 0; sz <= (thorough ? 7 : 5); sz++) { vector<int> idx; for (int i = 0; i < sz; i++) idx.push_back(i);
    do { string d; for (int i : idx) d += fmt("%06d ", base[i].dec()); for (size_t u = 0; u < users.size(); u++) { if (!begin("table %s extended by user list %zu", d.c_str(), u)) continue; trans(); state(d);
        isolated([&] { vector<E> t; for (int i : idx) t.push_back(base[(i + u) % base.size()]); std::map<int, E> conv; std::map<int, bool> multi; int nc = 0; for (auto &e : t) { if (e.conv) { conv[e.code()] = e; nc++; } multi[e.code()] = e.multi; } table(t, u % 2 ? nc : nc + 1);
          vector<int> codes; for (auto &e : base) codes.push_back(e.code()); for (auto &l : users) for (auto &e : l) codes.push_back(e.code()); std::sort(codes.begin(), codes.end()); codes.erase(std::unique(codes.begin(), codes.end()), codes.end()); codes.push_back(0x7fff);
          double missing = 1e30; float g = 0; if (u % 3 == 1) { missing = -999; c_mrfopr((char *)"MISSING", -999.f); } c_mrfgor((char *)"MISSING", &g); if (g != (float)missing) { fail("MISSING is %g", g); return; }
          if (u == 3 || audit(conv, multi, codes, missing, "table")) { // the user's list may also come first
            vector<int> ut; for (auto &e : users[u]) { ut.push_back(e.code()); ut.push_back(e.scale); ut.push_back(e.ref); } ut.push_back(0); int rc = c_mrbsct(ut.data(), users[u].size()); if (rc) { fail("mrbsct returns %d", rc); return; } for (auto &e : users[u]) conv[e.code()] = e; if (audit(conv, multi, codes, missing, "extended table")) outcome(users[u].empty() ? "standard table" : "extended table"); } }); } } while (std::next_permutation(idx.begin(), idx.end())); }
  unlink((dir + "/table_b_bufr").c_str()); rmdir(dir.c_str()); return done(); }
