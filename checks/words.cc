// X03: words: slices of bits, bytes of integers, orders of bytes, base-40 numbers, case, logical values, IBM numbers
#include "vh.h"
using namespace vh; using std::string; using std::vector;
extern "C" { void f_bits_get_(int32_t *, int32_t *, int32_t *, int32_t *); void f_bits_put_(int32_t *, int32_t *, int32_t *, int32_t *); void swap_buffer_endianness(uint32_t *, int32_t);
 void rah2char_(char *, int32_t *, const int32_t *, size_t); void char2rah_(char *, int32_t *, const int32_t *, size_t); int32_t ctob40_(const char *, size_t); void b40toc_(char *, size_t, int32_t *);
 void up2low_(const char *, char *, size_t, size_t); void low2up_(const char *, char *, size_t, size_t); void f_logical2int_(int32_t *, int32_t *, int32_t *); void f_int2logical_(int32_t *, int32_t *, int32_t *); void f_logical_move_(int32_t *, int32_t *, int32_t *); void c_ibm32_ieee(unsigned long *, int); }
static char *page() { static char *p = nullptr; if (!p) { p = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 4096, 4096, PROT_NONE); p += 4096; } return p; } // nothing can be touched from here on
static uint32_t pat(int w, int k) { uint32_t q[2] = {(uint32_t)w, (uint32_t)k}; uint64_t h = hash(q, 8); h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; return w == 0 ? 0xffffffffu : w == 1 ? 0x80000001u * (k + 1) : (uint32_t)(h >> 17); }
static const int WID[] = {0, 1, 3, 8, 13, 16, 24, 31, 32, 40, -2};
static bool slices(const vector<int> &w) {
  int total = 0; for (int x : w) total += std::max(0, std::min(x, 32)); int nw = (total + 31) / 32, n = w.size();
  for (int p = 0; p < 3; p++) {
    // taking slices out of words, the last word at the end of what can be read
    int32_t *b = (int32_t *)page() - nw; for (int k = 0; k < nw; k++) b[k] = pat(p, k); vector<int32_t> ww(w.begin(), w.end()), s(n + 1, 0x5a5a5a5a), want(n + 1, 0x5a5a5a5a); int at = 0; int32_t nn = n;
    for (int k = 0; k < n; k++) { uint32_t v = 0; for (int q = 0; q < std::min(32, w[k]); q++, at++) v = v << 1 | ((uint32_t)b[at / 32] >> (31 - at % 32) & 1); want[k] = v; }
    f_bits_get_(b, ww.data(), s.data(), &nn); trans(); eval(n); if (s != want) { int k = 0; while (s[k] == want[k]) k++; fail("slice %d of %d is %x, should be %x (pattern %d)", k, n, s[k], want[k], p); return false; }
    for (int k = 0; k < nw; k++) if ((uint32_t)b[k] != pat(p, k)) { fail("getting slices changes the words"); return false; }
    // putting slices in words: the bits of the slices in order, then zeros to the end of the word; bits of the values beyond the widths are ignored
    vector<uint32_t> ref(nw, 0); at = 0; for (int k = 0; k < n; k++) { s[k] = pat(2 - p, k + 7); int c = std::max(0, std::min(32, w[k])); for (int q = c - 1; q >= 0; q--, at++) ref[at / 32] |= (uint32_t)((uint32_t)s[k] >> q & 1) << (31 - at % 32); }
    auto s0 = s; for (int k = 0; k < nw; k++) b[k] = 0x77777777; f_bits_put_(b, ww.data(), s.data(), &nn); trans(); eval(nw);
    if (s != s0 || !std::equal(ww.begin(), ww.end(), w.begin())) { fail("putting slices changes the slices or the widths"); return false; }
    for (int k = 0; k < nw; k++) if ((uint32_t)b[k] != ref[k]) { fail("word %d is %x after putting the slices, should be %x (pattern %d)", k, b[k], ref[k], p); return false; }
    if (n < 5 || p == 2) state(hash(b, nw * 4)); }
  return true; }
static void seqs(int first, int second, int len) {
  vector<int> w = {WID[first], WID[second]}; std::function<bool(int)> go = [&](int left) { if (!slices(w)) { string d; for (int x : w) d += fmt(" %d", x); describe(string(sh->desc) + ", widths" + d); return false; } if (left) for (int x : WID) { w.push_back(x); bool ok = go(left - 1); w.pop_back(); if (!ok) return false; } return true; };
  if (second == 0) { vector<int> one = {WID[first]}; slices(one); if (first == 0) { one.clear(); slices(one); } }
  if (go(len - 2)) outcome("slices"); }
static void bytes() {
  for (int n = 1; n <= 4; n++) for (int k = 0; k < 65536; k++) { uint32_t v = n < 3 ? k : pat(k & 1 ? 2 : 1, k); char c[6]; memset(c, '#', 6); int32_t e = v, nn = n; rah2char_(c, &e, &nn, n); trans(); eval();
    for (int q = 0; q < n; q++) if ((unsigned char)c[q] != (v >> 8 * (n - 1 - q) & 255)) { fail("rah2char: character %d of %d of %x is %x", q, n, v, (unsigned char)c[q]); return; } if (c[n] != '#' || (uint32_t)e != v) { fail("rah2char changes something else"); return; }
    int32_t r = 0; char2rah_(c, &r, &nn, n); trans(); eval(); uint32_t want = n == 4 ? v : v & ((1u << 8 * n) - 1); if ((uint32_t)r != want) { fail("char2rah of the %d characters of %x gives %x", n, v, r); return; }
    if (n > 1 && k < 256) { memset(c, '#', 6); rah2char_(c, &e, &nn, n - 1); if (c[n - 1] != '#') { fail("rah2char writes past the string"); return; } }
    state(hash(&v, 4, n)); }
  outcome("bytes"); }
static void orders() {
  for (int n = 0; n <= 64; n++) for (int p = 0; p < 3; p++) { vector<uint32_t> b(n + 1); for (int k = 0; k <= n; k++) b[k] = pat(p, k + 3 * n); auto c = b; swap_buffer_endianness(b.data(), n); trans(); for (int k = 0; k <= n; k++) { eval(); if (b[k] != (k < n ? __builtin_bswap32(c[k]) : c[k])) { fail("word %d of %d: %x from %x", k, n, b[k], c[k]); return; } } swap_buffer_endianness(b.data(), n); trans(); if (b != c) { fail("swapping twice does not give the words back"); return; } state(hash(c.data(), 4 * n)); }
  outcome("orders"); }
static const char B40[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ/?: ";
static void base40(int top) {
  for (int v = top * (thorough ? 256000 : 64000); v < (top + 1) * (thorough ? 256000 : 64000); v++) { int32_t w = v; char s[9] = "########"; b40toc_(s, 8, &w); int x = v; string want(8, '0'); for (int k = 7; k >= 0; k--) { want[k] = B40[x % 40]; x /= 40; } trans(2); eval(3);
    if (w != v || memcmp(s, want.data(), 8)) { fail("%d in base 40 is '%.8s', should be '%s'", v, s, want.c_str()); return; } for (int n = 4; n <= 8; n++) if (int r = ctob40_(s + 8 - n, n); r != (n == 4 ? v % (40 * 64000) : v)) { if (n == 4 && v >= 40 * 64000) continue; fail("'%.*s' is %d in base 40, should be %d", n, s + 8 - n, r, v); return; } if (v % 64 == 0) state(hash(&v, 4)); }
  outcome("base 40"); }
static void letters() {
  for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b += (thorough ? 1 : 3)) for (int l1 = 0; l1 <= 3; l1++) for (int l2 = 0; l2 <= 3; l2++) { char s[4] = {(char)a, (char)b, (char)(a ^ b ^ 32), '!'}, u[5] = "####", l[5] = "####", t[4]; memcpy(t, s, 4); low2up_(s, u, l1, l2); up2low_(s, l, l1, l2); trans(2);
    for (int k = 0; k < 4; k++) { eval(2); unsigned char c = s[k]; char wu = k >= l2 ? '#' : k >= l1 ? ' ' : c >= 'a' && c <= 'z' ? c - 32 : c, wl = k >= l2 ? '#' : k >= l1 ? ' ' : c >= 'A' && c <= 'Z' ? c + 32 : c; if (u[k] != wu || l[k] != wl) { fail("characters %d %d, lengths %d %d: letter %d becomes %d and %d", a, b, l1, l2, k, (unsigned char)u[k], (unsigned char)l[k]); return; } } if (memcmp(s, t, 4)) { fail("the input changes"); return; } }
  outcome("letters"); }
static void logicals() {
  for (int n = 0; n <= 12; n++) for (int m = 0; m < 1 << n; m++) { vector<int32_t> l(n + 1, 99), i(n + 1, 99), b(n + 1, 99), c(n + 1, 99); for (int k = 0; k < n; k++) l[k] = m >> k & 1; int32_t nn = n; f_logical2int_(i.data(), l.data(), &nn); f_logical_move_(c.data(), l.data(), &nn); trans(2); eval(2);
    if (i != l || c != l) { fail("%d logical values %x are not those", n, m); return; } for (int k = 0; k < n; k++) if (i[k]) i[k] = k % 3 == 0 ? -1 : k % 3 == 1 ? 1 : 1 << k; auto i0 = i; f_int2logical_(b.data(), i.data(), &nn); trans(); eval(); if (i != i0 || b[n] != 99) { fail("something else changes"); return; } for (int k = 0; k < n; k++) if (b[k] != (m >> k & 1)) { fail("integer %d is %d as a logical value", i[k], b[k]); return; } state(hash(b.data(), 4 * n)); }
  outcome("logical values"); }
static void ibm(int e) {
  vector<uint32_t> M; for (int a = 0; a < 24; a++) for (int b = 0; b <= a; b++) { M.push_back(1u << a | 1u << b); M.push_back((1u << a) - (1u << b) + (1u << a)); } M.push_back(0); for (int k = 0; k < 400; k++) M.push_back(pat(2, k) & 0xffffff >> k % 24); vector<unsigned long> w; vector<double> v;
  for (uint32_t m : M) for (int s = 0; s < 2; s++) { double x = ldexp((m & 0xffffff) / 16777216., 4 * (e - 64)); if (x >= 3e38) continue; w.push_back((uint32_t)s << 31 | (uint32_t)e << 24 | (m & 0xffffff)); v.push_back(s ? -x : x); }
  auto w0 = w; if (w.empty()) { outcome("beyond IEEE"); return; } w.push_back(0x12345); c_ibm32_ieee(w.data(), w.size() - 1); trans(); if (w.back() != 0x12345) { fail("more numbers are converted than asked"); return; }
  for (size_t k = 0; k + 1 < w.size(); k++) { uint32_t r = w[k]; float f; memcpy(&f, &r, 4); double x = fabs(v[k]) < 1.1754943508222875e-38 ? 0 : v[k]; eval(); if (f != x) { fail("IBM number %08lx = %g becomes %g", w0[k], v[k], f); return; } state(hash(&r, 4)); } outcome("IBM"); }
int main(int argc, char **argv) {
  init(argc, argv); int n = sizeof WID / sizeof *WID;
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (begin("slices of bits, first widths %d %d", WID[a], WID[b])) isolated([&] { seqs(a, b, thorough ? 6 : 5); });
  if (begin("bytes of integers")) isolated(bytes); if (begin("orders of bytes")) isolated(orders); if (begin("letters")) isolated(letters); if (begin("logical values")) isolated(logicals);
  for (int t = 0; t < (thorough ? 400 : 80); t++) if (begin("base 40, block %d", t)) isolated([&] { base40(t); });
  for (int e = 0; e < 128; e++) if (begin("IBM numbers of exponent %d", e)) isolated([&] { ibm(e); });
  return done(); }
