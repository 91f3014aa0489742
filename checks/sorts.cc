// Sorting: every input shape of size n (all value patterns over {0..n-1}, i.e.
// every weak ordering) for small n, all 0/1 inputs up to a larger n and
// structured inputs for longer arrays; ten entry points.
#include "vh.h"
#include <climits>
#include <cfloat>
using namespace vh;
extern "C" {
void isort_(int *, int *); void sort_(float *, int *);
void ipsort_(int *, float *, int *); void ipsort8_(int *, double *, int *); void ipsorti_(int *, int *, int *);
void ipsortc_(int *, char *, int *, size_t); void csortr_(float *, int *, int *); void csortd_(double *, int *, int *);
void csorte_(int *, int *, int *); void csortc_(char *, int *, int *, size_t);
}
static const int PAD = 3;
// value maps: strictly increasing sequences, so that only order matters
static double vmap(int map, int v, int type) {
  if (map == 0) return v - 2;
  if (type == 0) { static const int t[] = {INT_MIN, INT_MIN + 1, -1, 0, 1, 65536, INT_MAX - 1, INT_MAX};  return v < 8 ? t[v] : 0; }
  if (type == 1) { static const float t[] = {-FLT_MAX, -1e10f, -1.5f, -FLT_MIN, 0, FLT_MIN, 1.0f, 1.0000001f}; return v < 8 ? t[v] : 0; }
  static const double t[] = {-DBL_MAX, -1e300, -1.0000000000001, -1.0, 0, 1e-300, 1.0, 1.0000000000001}; return v < 8 ? t[v] : 0;
}
template <class T> static void chk_vals(const char *nm, const std::vector<T> &in, std::vector<T> a, void (*f)(T *, int *), int n) {
  std::vector<T> buf(n + 2 * PAD, (T)77); std::copy(in.begin(), in.end(), buf.begin() + PAD);
  int nn = n; f(buf.data() + PAD, &nn);
  std::vector<T> ref = in; std::sort(ref.begin(), ref.end());
  eval();
  if (!std::equal(ref.begin(), ref.end(), buf.begin() + PAD)) fail("%s: result is not the input in non-decreasing order", nm);
  for (int i = 0; i < PAD; i++) if (buf[i] != (T)77 || buf[PAD + n + i] != (T)77) fail("%s wrote outside of the array", nm);
}
template <class C> static void chk_idx(const char *nm, int n, const std::vector<int> &idx, C less_eq) {
  eval();
  std::vector<char> seen(n, 0);
  for (int i = 0; i < PAD; i++) if (idx[i] != -9 || idx[PAD + n + i] != -9) { fail("%s wrote outside of the index", nm); return; }
  for (int i = 0; i < n; i++) { int k = idx[PAD + i]; if (k < 1 || k > n || seen[k - 1]) { fail("%s: index is not a permutation of 1..n", nm); return; } seen[k - 1] = 1; }
  for (int i = 0; i + 1 < n; i++) if (!less_eq(idx[PAD + i] - 1, idx[PAD + i + 1] - 1)) { fail("%s: list(index(%d)) > list(index(%d))", nm, i + 1, i + 2); return; }
}
static std::vector<int> fresh(int n, int mode) { // 0: garbage (non initialised), 1: reversed permutation, 2: rotated
  std::vector<int> x(n + 2 * PAD, -9);
  for (int i = 0; i < n; i++) x[PAD + i] = mode == 0 ? (i == 0 ? 0 : 1234567) : mode == 1 ? n - i : (i + n / 2) % n + 1;
  return x;
}
static void run(const std::vector<int> &v, int map) {
  int n = v.size();
  std::vector<int> iv(n); std::vector<float> rv(n); std::vector<double> dv(n); std::string cv;
  for (int i = 0; i < n; i++) { iv[i] = (int)vmap(map, v[i], 0); rv[i] = (float)vmap(map, v[i], 1); dv[i] = vmap(map, v[i], 2); }
  const int L = 3;
  for (int i = 0; i < n; i++) { char b[8]; if (map == 0) snprintf(b, 8, "%03d", v[i]); else { static const char *t[] = {"   ", " A ", "A  ", "A B", "AAZ", "ABA", "BAA", "ZZZ"}; strcpy(b, t[v[i]]); } cv += b; }
  chk_vals<int>("integer sort", iv, iv, isort_, n);
  chk_vals<float>("real sort", rv, rv, sort_, n);
  for (int m = 0; m < 3; m++) {
    int nn = n;
    auto x = fresh(n, m);
    auto le_r = [&](int a, int b) { return rv[a] <= rv[b]; };
    auto le_d = [&](int a, int b) { return dv[a] <= dv[b]; };
    auto le_i = [&](int a, int b) { return iv[a] <= iv[b]; };
    auto le_c = [&](int a, int b) { return cv.substr(a * L, L) <= cv.substr(b * L, L); };
    auto r2 = rv; auto d2 = dv; auto i2 = iv; auto c2 = cv; c2 += "ZZ";
    if (m == 0) {
      x = fresh(n, m); ipsort_(x.data() + PAD, r2.data(), &nn); chk_idx("real index sort", n, x, le_r);
      x = fresh(n, m); ipsort8_(x.data() + PAD, d2.data(), &nn); chk_idx("double index sort", n, x, le_d);
      x = fresh(n, m); ipsorti_(x.data() + PAD, i2.data(), &nn); chk_idx("integer index sort", n, x, le_i);
      x = fresh(n, m); ipsortc_(x.data() + PAD, &c2[0], &nn, L); chk_idx("character index sort", n, x, le_c);
    }
    x = fresh(n, m); csortr_(r2.data(), x.data() + PAD, &nn); chk_idx("real index sort (given order)", n, x, le_r);
    x = fresh(n, m); csortd_(d2.data(), x.data() + PAD, &nn); chk_idx("double index sort (given order)", n, x, le_d);
    x = fresh(n, m); csorte_(i2.data(), x.data() + PAD, &nn); chk_idx("integer index sort (given order)", n, x, le_i);
    x = fresh(n, m); csortc_(&c2[0], x.data() + PAD, &nn, L); chk_idx("character index sort (given order)", n, x, le_c);
    if (r2 != rv || d2 != dv || i2 != iv) fail("an index sort modified the list");
  }
}
int main(int argc, char **argv) {
  init(argc, argv);
  int nmax = thorough ? 8 : 6, bmax = thorough ? 19 : 14;
  for (int n = 1; n <= nmax; n++) {
    long tot = 1; for (int i = 0; i < n; i++) tot *= n;
    long chunk = 2000;
    for (long s = 0; s < tot; s += chunk) for (int map = 0; map < 2; map++) {
      if (!begin("all inputs over %d values, n=%d, numbers %ld.., value map %d", n, n, s, map)) continue;
      for (long k = s; k < tot && k < s + chunk; k++) {
        std::vector<int> v(n); long q = k; for (int i = 0; i < n; i++) { v[i] = q % n; q /= n; }
        run(v, map); state(hash(v.data(), n * 4, n + 1));
        if (k == s) { std::string t; for (int x : v) t += fmt("%d ", x); sample("n=%d input %s", n, t.c_str()); }
      }
      outcome(fmt("n=%d", n));
    }
  }
  for (int n = nmax + 1; n <= bmax; n++) for (long s = 0; s < (1L << n); s += 1024) {
    if (!begin("0/1 inputs n=%d from %ld", n, s)) continue;
    for (long k = s; k < s + 1024 && k < (1L << n); k++) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = k >> i & 1; run(v, 0); state(hash(v.data(), n * 4, n + 1)); }
    outcome(fmt("n=%d", n));
  }
  int lmax = thorough ? 400 : 130;
  for (int n = 9; n <= lmax; n++) {
    if (!begin("structured inputs n=%d", n)) continue;
    std::vector<int> a(n), v(n); for (int i = 0; i < n; i++) a[i] = i % 1000;
    auto go = [&](const std::vector<int> &w) { run(w, 0); state(hash(w.data(), n * 4, n + 1)); };
    go(a); v = a; std::reverse(v.begin(), v.end()); go(v);
    for (int r = 1; r < n; r++) { v = a; std::rotate(v.begin(), v.begin() + r, v.end()); go(v); }      // every rotation
    for (int r = 0; r < n; r++) { v = a; std::swap(v[r], v[(r * 7 + 3) % n]); go(v); v = a; std::reverse(v.begin() + r, v.end()); go(v); }
    for (int m = 2; m < 12; m++) { for (int i = 0; i < n; i++) v[i] = (i * m) % 11; go(v); for (int i = 0; i < n; i++) v[i] = (i * m) % n; go(v); }
    outcome(fmt("n=%d", n));
  }
  return done();
}
