// P01: the direct packers.  Every (element type, sign, token size, bit offset, count, stride,
// header use) within the bounds is packed into a buffer whose every other bit is watched, the
// packed bits are compared with a bit-array model, and unpacking is compared with what was packed.
// Buffers end at an inaccessible page, so that a word read or written beyond the packed words stops.
#include "vh.h"
using namespace vh;
extern "C" {
int compact_integer(void *, void *, void *, int, int, int, int, int);
int compact_short(void *, void *, void *, int, int, int, int, int);
int compact_char(void *, void *, void *, int, int, int, int, int);
int compact_rle(void *, void *, void *, int max, int min, int n, int bits, int off, int stride, int op);
void *compact_float(void *, void *, void *, const int, const int, const int, const int, const int, const int, const void *const);
void *compact_double(void *, void *, void *, const int, const int, const int, const int, const int, const int, const void *const);
void unpackWrapper(void *, void *, void *, int, void *);
int32_t c_float_packer(float *, int32_t, int32_t *, int32_t *, int32_t);
int32_t c_float_unpacker(float *, int32_t *, int32_t *, int32_t, int32_t *);
void c_float_packer_params(int32_t *, int32_t *, int32_t *, int32_t *, int32_t);
void iipak_(void *, void *, const int32_t *, const int32_t *, const int32_t *, const int32_t *, const int32_t *);
void xxpak_(void *, void *, const int32_t *, const int32_t *, const int32_t *, const int32_t *, const int32_t *);
}
typedef uint32_t u32;

// a buffer of exactly nbytes that ends at a page the process cannot touch
struct Guarded {
  char *base; size_t cap = 1 << 16;
  Guarded() {
    base = (char *)mmap(nullptr, cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(base + cap, 4096, PROT_NONE);
  }
  void *at(size_t nbytes) { return base + cap - nbytes; }
};
static Guarded ga, gb, gc;

// model: token i occupies bits [off+i*bits, off+(i+1)*bits) counted from the high bit of word 0
static void put(std::vector<u32> &w, long pos, int bits, u32 v) {
  for (int b = 0; b < bits; b++) {
    long p = pos + b; u32 m = 1u << (31 - p % 32);
    if ((v >> (bits - 1 - b)) & 1) w[p / 32] |= m; else w[p / 32] &= ~m;
  }
}
static std::string hexw(const u32 *w, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += fmt("%08x ", w[i]); return s; }
template <class T> static std::string vals(const std::vector<T> &v) { std::string s; for (auto x : v) s += fmt("%lld ", (long long)x); return s; }
static u32 mask(int b) { return b >= 32 ? ~0u : (1u << b) - 1; }

// ---- integers -----------------------------------------------------------------------------------
// kind: 0 unsigned int, 1 signed int, 2 short, 3 char
static const int PACKOP[4] = {1, 3, 5, 9};
static const size_t ESZ[4] = {4, 4, 2, 1};
static int callp(int kind, void *u, void *h, void *p, int n, int bits, int off, int st, int op) {
  trans();
  return kind < 2 ? compact_integer(u, h, p, n, bits, off, st, op) : kind == 2 ? compact_short(u, h, p, n, bits, off, st, op) : compact_char(u, h, p, n, bits, off, st, op);
}
static void sete(void *b, int kind, size_t i, int64_t v) {
  if (kind < 2) ((u32 *)b)[i] = (u32)v; else if (kind == 2) ((uint16_t *)b)[i] = (uint16_t)v; else ((uint8_t *)b)[i] = (uint8_t)v;
}
static int64_t gete(const void *b, int kind, size_t i) {
  return kind == 0 ? (int64_t)((const u32 *)b)[i] : kind == 1 ? (int64_t)((const int32_t *)b)[i] : kind == 2 ? (int64_t)((const uint16_t *)b)[i] : (int64_t)((const uint8_t *)b)[i];
}
static const int64_t GAP[4] = {0x5EED5EED, 0x5EED5EED, 0x5EED, 0x5E};

// the value vectors of one token size: every vector of palette values up to 3 elements, then longer runs
static std::vector<std::vector<int64_t>> vectors(int kind, int bits, int deep) {
  int64_t hi = kind == 1 ? (1LL << (bits - 1)) - 1 : (1LL << bits) - 1, lo = kind == 1 ? -(1LL << (bits - 1)) : 0;
  std::set<int64_t> ps = {lo, hi, 0, lo / 2, hi / 2, (hi & 0x55555555LL), std::min<int64_t>(1, hi)};
  if (kind == 1 && bits > 1) ps.insert(-1);
  std::vector<int64_t> p(ps.begin(), ps.end());
  std::vector<std::vector<int64_t>> r;
  for (auto a : p) r.push_back({a});
  for (auto a : p) for (auto b : p) r.push_back({a, b});
  if (deep) for (auto a : p) for (auto b : p) for (auto c : p) r.push_back({a, b, c});
  for (int n : {3, 4, 5, 9, 17, 33}) {
    std::vector<int64_t> v, w;
    for (int i = 0; i < n; i++) { v.push_back(p[(i * 5 + n) % p.size()]); w.push_back(lo + (int64_t)(((uint64_t)i * 0x9E3779B97F4A7C15ull) % (uint64_t)(hi - lo + 1))); }
    r.push_back(v); r.push_back(w); r.push_back(std::vector<int64_t>(n, hi));
  }
  return r;
}

static int64_t shiftdown(int64_t v, int64_t mn, int sh) { return mn + ((((u32)(v - mn)) >> sh) << sh); }

static bool intcase(int kind, const std::vector<int64_t> &v, int bits, int autob, int off, int st, bool header, u32 fill) {
  int n = v.size();
  // what the call is documented to use
  int64_t mn = v[0], mx = v[0]; u32 orv = 0;
  for (auto x : v) { mn = std::min(mn, x); mx = std::max(mx, x); orv |= (u32)x; }
  int range = 0; for (u32 r = (u32)(mx - mn); r; r >>= 1) range++;
  int b = bits, sh = 0;
  if (header) { if (autob) b = range; else sh = std::max(0, range - bits); }
  int room = kind == 1 && autob && !header ? std::min(bits + 1, 32) : bits;   // a sign bit may be added to a magnitude
  size_t nw = (off + (size_t)n * room + 31) / 32; if (!nw) nw = 1;
  size_t nu = (n - 1) * st + 1;
  void *u = ga.at(nu * ESZ[kind]); u32 *p = (u32 *)gb.at(nw * 4), hd[6];
  for (size_t i = 0; i < nu; i++) sete(u, kind, i, i % st ? GAP[kind] : v[i / st]);
  for (size_t i = 0; i < nw; i++) p[i] = fill;
  for (auto &x : hd) x = 0xDEADBEEF;
  auto what = [&](const char *m) { return fmt("%s: kind %d bits %d%s offset %d stride %d header %d fill %08x values %s", m, kind, bits, autob ? " auto" : "", off, st, header, fill, vals(v).c_str()); };
  int rc = callp(kind, u, header ? hd + 1 : nullptr, p, n, autob ? -1 : bits, off, st, PACKOP[kind]);
  if (autob) {
    if (rc < 0 || rc > room) { fail("%s returned %d", what("token size found").c_str(), rc); return false; }
    if (!header && kind != 1) { int need = 0; for (u32 r = orv; r; r >>= 1) need++; if (rc != need) { fail("%s returned %d, %d needed", what("token size found").c_str(), rc, need); return false; } }
    if (header && rc != b) { fail("%s returned %d, %d needed", what("token size found").c_str(), rc, b); return false; }
    b = rc;
    if (!header && b == 0) return true;   // all zero: nothing is stored, and the caller is told so
  } else if (rc != bits) { fail("%s returned %d", what("pack").c_str(), rc); return false; }
  for (size_t i = 0; i < nu; i++) if (gete(u, kind, i) != (i % st ? (kind == 0 ? (int64_t)(u32)GAP[kind] : GAP[kind]) : v[i / st])) { fail("%s: the source changed", what("pack").c_str()); return false; }
  std::vector<u32> m(nw, fill);
  for (int i = 0; i < n; i++) {
    u32 t = header ? (u32)(v[i] - mn) >> sh : kind == 1 ? (u32)(v[i] + (1LL << (b - 1))) : (u32)v[i];
    if (b) put(m, off + (long)i * b, b, t & mask(b));
  }
  if (memcmp(m.data(), p, nw * 4)) { fail("%s: packed %s expected %s", what("pack").c_str(), hexw(p, nw).c_str(), hexw(m.data(), nw).c_str()); return false; }
  if (header) {
    u32 e[6] = {0xDEADBEEF, 0xFD000000u | (u32)sh << 6 | (u32)b, (u32)n, (u32)mn, (u32)mx, 0xDEADBEEF};
    if (memcmp(e, hd, sizeof e)) { fail("%s: header %s expected %s", what("pack").c_str(), hexw(hd, 6).c_str(), hexw(e, 6).c_str()); return false; }
  }
  state(hash(p, nw * 4, hash(hd, 24)));
  // back
  size_t nq = std::max<size_t>((off + (size_t)n * b + 31) / 32, b ? 1 : off / 32 + 1);
  u32 *q = (u32 *)gb.at(nq * 4);
  memmove(q, p, std::min(nq, nw) * 4);
  void *d = gc.at(nu * ESZ[kind]);
  for (size_t i = 0; i < nu; i++) sete(d, kind, i, GAP[kind]);
  rc = callp(kind, d, header ? hd + 1 : nullptr, q, header ? -7 : n, header && !autob ? bits : header ? -1 : b, off, st, PACKOP[kind] + 1);
  for (size_t i = 0; i < nu; i++) {
    int64_t x = i % st ? GAP[kind] : header ? shiftdown(v[i / st], mn, sh) : v[i / st];
    if (gete(d, kind, i) != (kind == 0 ? (int64_t)(u32)x : x)) { fail("%s: element %zu comes back as %lld, not %lld", what("unpack").c_str(), i, (long long)gete(d, kind, i), (long long)x); return false; }
  }
  eval(nu + nw);
  return true;
}

static void integers() {
  for (int kind = 0; kind < 4; kind++)
    for (int bits = 1; bits <= (kind < 2 ? 32 : kind == 2 ? 16 : 8); bits++)
      for (int mode = 0; mode < 4; mode++) {      // plain, auto, header, header and auto
        if (too_many()) return;
        if (!begin("%s, %d-bit values, %s", kind == 0 ? "unsigned" : kind == 1 ? "signed" : kind == 2 ? "short" : "char", bits, mode == 0 ? "token size given" : mode == 1 ? "token size found" : mode == 2 ? "header, token size given" : "header, token size found")) continue;
        outcome(mode & 2 ? "header" : "plain");
        auto vs = vectors(kind, bits, thorough);
        bool ok = true;
        for (auto &v : vs) {
          for (int off = 0; off < (thorough ? 97 : 33) && ok; off += (v.size() > 5 && !thorough) ? 3 : 1)
            for (int st = 1; st <= 3 && ok; st++)
              for (u32 fill : {0xA5A5A5A5u, 0x5A5A5A5Au}) {
                if (!(ok = intcase(kind, v, bits, mode & 1, off, st, mode & 2, fill))) break;
                // a token narrower than the range: the header says how many low bits are dropped
                if (mode == 2) for (int less : {1, 2, 5}) if (bits > less && !(ok = intcase(kind, v, bits - less, 0, off, st, true, fill))) break;
                if (!ok) break;
              }
          if (!ok) break;
        }
        if (ok) count("integer layouts");
      }
  // values that do not fit leave the neighbouring tokens alone
  for (int kind = 0; kind < 4; kind++) for (int bits = 1; bits < (int)ESZ[kind] * 8; bits++) {
    if (!begin("kind %d: a value that does not fit %d bits", kind, bits)) continue;
    bool ok = true;
    for (int off = 0; off < 33 && ok; off++) for (int bad = 0; bad < 3 && ok; bad++) for (int64_t big : {(int64_t)1 << bits, (int64_t)-1, (int64_t)3 << bits}) {
      std::vector<u32> m(5, 0x33CC55AA); u32 *p = (u32 *)gb.at(20); for (int i = 0; i < 5; i++) p[i] = m[i];
      void *u = ga.at(3 * ESZ[kind]);
      for (int i = 0; i < 3; i++) { int64_t x = i == bad ? big : 0; sete(u, kind, i, x); put(m, off + i * bits, bits, (kind == 1 ? (u32)(x + (1LL << (bits - 1))) : (u32)x) & mask(bits)); }
      callp(kind, u, nullptr, p, 3, bits, off, 1, PACKOP[kind]);
      if (memcmp(m.data(), p, 20)) { fail("value %lld at %d, offset %d: packed %s expected %s", (long long)big, bad, off, hexw(p, 5).c_str(), hexw(m.data(), 5).c_str()); ok = false; break; }
      eval();
    }
    // an operation that does not exist touches nothing
    for (int op : {0, 7, 8, 11, 12, -1}) {
      u32 p[2] = {1, 2}, u[2] = {3, 4};
      int rc = callp(kind, u, nullptr, p, 1, bits, 0, 1, op);
      if (rc != 0 || p[0] != 1 || p[1] != 2 || u[0] != 3 || u[1] != 4) { fail("operation %d is not refused: returned %d", op, rc); break; }
    }
  }
}

// ---- the Fortran entry of the integer packer -----------------------------------------------------
static void iipak() {
  for (int op = 1; op <= 3; op += 2) for (int useoff = 0; useoff < 2; useoff++) for (int usest = 0; usest < 2; usest++) for (int hdr = 0; hdr < 2; hdr++) for (int inplace = 0; inplace < 2; inplace++) {
    if (too_many()) return;
    if (!begin("iipak mode %d%s", op + 10 * useoff + 100 * usest + 1000 * hdr, inplace ? " in place" : "")) continue;
    bool ok = true;
    for (int nb : {0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 40, -1, -2, -5, -8, -13, -16, -24, -31, -32}) {
      int bits = nb > 1 ? std::max(1, 32 / nb) : nb < 0 ? -nb : 32;
      for (int off : {0, 1, 7, 31, 32, 33, 64}) for (int n : {1, 2, 3, 6, 13}) for (int nj = 1; nj <= 3; nj++) {
        int st = usest ? nj : 1, tot = usest ? n : n * nj, eoff = hdr ? 128 : useoff ? off : 0;
        size_t nw = (eoff + (size_t)tot * bits + 31) / 32, nu = (tot - 1) * st + 1;
        size_t cap = inplace ? std::max(nw, nu) : nw;
        std::vector<int64_t> v(tot); int64_t lo = op == 3 ? -(1LL << (bits - 1)) : 0;
        for (int i = 0; i < tot; i++) v[i] = lo + (int64_t)(((uint64_t)(i + 1) * 0x9E3779B97F4A7C15ull >> 7) & mask(bits));
        u32 *p = (u32 *)gb.at(cap * 4), *u = inplace ? p : (u32 *)ga.at(nu * 4);
        for (size_t i = 0; i < cap; i++) p[i] = 0x77665544u + i;
        for (size_t i = 0; i < nu; i++) u[i] = i % st ? (u32)GAP[0] : (u32)v[i / st];
        std::vector<u32> m(p, p + nw);
        int64_t mn = v[0], mx = v[0]; for (auto x : v) { mn = std::min(mn, x); mx = std::max(mx, x); }
        if (hdr) { m[0] = 0xFD000000u | bits; m[1] = tot; m[2] = (u32)mn; m[3] = (u32)mx; }
        for (int i = 0; i < tot; i++) put(m, eoff + (long)i * bits, bits, (hdr ? (u32)(v[i] - mn) : op == 3 ? (u32)(v[i] + (1LL << (bits - 1))) : (u32)v[i]) & mask(bits));
        int32_t mode = op + 10 * useoff + 100 * usest + 1000 * hdr, n32 = n, nj32 = nj, nb32 = nb, off32 = off;
        trans(); iipak_(u, p, &n32, &nj32, &nb32, &off32, &mode);
        auto what = [&]() { return fmt("nbits %d offset %d ni %d nj %d", nb, off, n, nj); };
        if (memcmp(m.data(), p, nw * 4)) { fail("%s: packed %s expected %s", what().c_str(), hexw(p, nw).c_str(), hexw(m.data(), nw).c_str()); ok = false; break; }
        for (size_t i = nw; i < cap && inplace; i++) if (p[i] != (i < nu ? (i % st ? (u32)GAP[0] : (u32)v[i / st]) : 0x77665544u + (u32)i)) { fail("%s: word %zu after the packed words changed", what().c_str(), i); ok = false; break; }
        if (!ok) break;
        std::vector<u32> d0(cap); 
        if (!inplace) for (size_t i = 0; i < nu; i++) u[i] = (u32)GAP[0];
        else d0.assign(p, p + cap);
        mode++; trans(); iipak_(u, p, &n32, &nj32, &nb32, &off32, &mode);
        for (size_t i = 0; i < nu; i++) {
          u32 e = i % st ? (inplace ? d0[i] : (u32)GAP[0]) : (u32)v[i / st];
          if (u[i] != e) { fail("%s: element %zu comes back as %08x, not %08x", what().c_str(), i, u[i], e); ok = false; break; }
        }
        eval(nu + nw);
        if (!ok) break;
      }
      if (!ok) break;
    }
    if (ok) count("iipak modes");
  }
}

// ---- floats --------------------------------------------------------------------------------------
template <class T> struct F { static void *call(T *u, void *h, void *p, int n, int b, int off, int st, int op, int miss, T tag) {
  trans(); return sizeof(T) == 4 ? compact_float(u, h, p, n, b, off, st, op, miss, &tag) : compact_double(u, h, p, n, b, off, st, op, miss, &tag); } };
static const double FV[] = {0., 1., -1., 0.1, -0.1, 273.15, 1013.25, -1e5, 1e-20, 3e37, -7e37, 1. + 1. / 8388608., 1e-42};
// what one token stands for, from the documented layout: a power of two above the range, over 2^bits
static double stepof(double range, int bits, bool miss) { return (miss ? 4. : 2.) * range / std::ldexp(1., bits); }

template <class T> static void floats(const char *tn) {
  const T tag = sizeof(T) == 4 ? (T)9999.f : (T)0.1234567890123;
  std::vector<T> pal; for (double d : FV) pal.push_back((T)d);
  for (int miss = 0; miss < 2; miss++) for (int bits = 1 + miss; bits <= 32; bits++) for (int lay = 0; lay < 3; lay++) {
    // layouts: header of 3 words and data after it, header of 4 words and data after it, data elsewhere
    if (too_many()) return;
    if (!begin("%s, %d bits, layout %d%s", tn, bits, lay, miss ? ", missing values" : "")) continue;
    bool ok = true;
    auto one = [&](const std::vector<T> &v, int st, int doff) {
      int n = v.size(); size_t nu = (n - 1) * st + 1;
      int off = lay == 0 ? 24 : lay == 1 ? 128 : doff;
      size_t lead = lay == 0 ? 3 : 0, nw = lead + (off + (size_t)n * bits + 31) / 32;
      u32 *p = (u32 *)gb.at(nw * 4), hd[4]; for (size_t i = 0; i < nw; i++) p[i] = 0xC3C3C3C3;
      void *h = lay == 2 ? hd : p; u32 *data = p + lead;
      T *u = (T *)ga.at(nu * sizeof(T)), *d = (T *)gc.at(nu * sizeof(T));
      for (size_t i = 0; i < nu; i++) { u[i] = i % st ? (T)-7.5 : v[i / st]; d[i] = (T)-7.5; }
      auto what = [&]() { std::string s = fmt("stride %d offset %d values", st, off); for (auto x : v) s += fmt(" %.17g", (double)x); return s; };
      if (!F<T>::call(u, h, data, n, bits, off, st, 1, miss, tag)) { fail("%s: refused", what().c_str()); return false; }
      // bits that hold no token
      if (lay == 2) for (long b = 0; b < (long)nw * 32; b++) if ((b < off || b >= off + (long)n * bits) && ((p[b / 32] ^ 0xC3C3C3C3) >> (31 - b % 32) & 1)) { fail("%s: bit %ld outside the tokens changed: %s", what().c_str(), b, hexw(p, nw).c_str()); return false; }
      state(hash(p, nw * 4));
      F<T>::call(d, h, data, n, bits, off, st, 2, miss, tag);
      double mn = 0, mx = 0; bool any = false;
      for (auto x : v) if (!(miss && x == tag)) { mn = any ? std::min<double>(mn, x) : x; mx = any ? std::max<double>(mx, x) : x; any = true; }
      double eps = std::ldexp(std::max(std::fabs(mn), std::fabs(mx)), -22) + std::ldexp(1., -124), step = stepof(mx - mn, bits, miss) + eps;
      for (size_t i = 0; i < nu; i++) {
        double x = u[i], y = d[i];
        if (i % st) { if (y != -7.5) { fail("%s: element %zu between the elements changed", what().c_str(), i); return false; } continue; }
        if (miss && (u[i] == tag) != (d[i] == tag)) { fail("%s: element %zu %s", what().c_str(), i, u[i] == tag ? "was missing and comes back as a value" : "had a value and comes back missing"); return false; }
        if (miss && u[i] == tag) continue;
        if (!(y <= x + eps && y >= x - step)) { fail("%s: element %zu comes back as %.17g, the step is %.17g", what().c_str(), i, y, step); return false; }
        if (x == mn && sizeof(T) == 4 && (std::fabs(x) > 1e-30 || x == 0) && y != x) { fail("%s: the smallest value comes back as %.17g", what().c_str(), y); return false; }
      }
      // packing what came back gives the same values again
      eval(nu);
      return true;
    };
    auto all = [&](const std::vector<T> &v) {
      for (int st = 1; st <= 2; st++) for (int doff = 0; doff < (lay == 2 ? 33 : 1); doff += (thorough || v.size() < 2) ? 1 : 8) if (!one(v, st, doff)) return false;
      return true;
    };
    size_t np = pal.size();
    std::vector<T> q = pal; if (miss) q.push_back(tag);
    for (size_t a = 0; a < q.size() && ok; a++) {
      ok = all({q[a]});
      for (size_t b = 0; b < q.size() && ok; b++) { ok = all({q[a], q[b]}); for (size_t c = 0; c < q.size() && ok; c++) if (thorough || (a * 3 + b * 5 + c) % 4 == 0) ok = all({q[a], q[b], q[c]}); }
    }
    for (int n : {4, 7, 20, 33}) { std::vector<T> v; for (int i = 0; i < n && ok; i++) v.push_back(miss && i % 3 == n % 3 ? tag : (T)(std::sin(i * 1.7) * 300 + 20)); ok = ok && all(v); }
    // every token of the range in turn: 2^bits values one step apart come back (but for the packer's own rounding guard)
    if (ok && bits <= (thorough ? 12 : 8)) {
      std::vector<T> v; for (int i = 0; i < (1 << bits) - miss; i++) v.push_back((T)(i * 0.25 - 8));
      if ((int)v.size() > 1) {
        int n = v.size(); std::vector<u32> p(n * bits / 32 + 8); u32 hd[4]; std::vector<T> d(n);
        F<T>::call(v.data(), hd, p.data(), n, bits, 0, 1, 1, miss, tag); F<T>::call(d.data(), hd, p.data(), n, bits, 0, 1, 2, miss, tag);
        for (int i = 0; i < n && ok; i++) if (std::fabs((double)d[i] - v[i]) > 1e-12 * n) { fail("%d values one step apart: value %d is %g and comes back as %.17g", n, i, (double)v[i], (double)d[i]); ok = false; }
      }
    }
    (void)np;
    if (ok) count("float layouts");
  }
}

// the Fortran entry of the float packer
static void xxpak() {
  for (int dbl = 0; dbl < 2; dbl++) for (int inplace = 0; inplace < 2; inplace++) {
    if (!begin("xxpak %s%s", dbl ? "double" : "float", inplace ? " in place" : "")) continue;
    bool ok = true;
    for (int nb : {-1, -2, -5, -8, -16, -24, -31, -32, 1, 2, 4, 5, 8, 32, 0}) for (int ni = 1; ni <= 5 && ok; ni++) for (int nj = 1; nj <= 3 && ok; nj++) {
      int n = ni * nj, bits = nb > 1 ? std::max(1, 32 / nb) : nb < 0 ? -nb : 32;
      std::vector<double> v(n); double mn = 1e99, mx = -1e99;
      for (int i = 0; i < n; i++) { v[i] = (float)(std::cos(i * 2.1) * 50 - 12); mn = std::min(mn, v[i]); mx = std::max(mx, v[i]); }
      size_t cap = 64 + n; std::vector<double> bu(cap); std::vector<u32> bp(2 * cap, 0x11111111);
      void *u = bu.data(); void *p = inplace ? u : bp.data();
      auto setv = [&]() { for (int i = 0; i < n; i++) if (dbl) ((double *)u)[i] = v[i]; else ((float *)u)[i] = v[i]; };
      setv();
      int32_t i32 = ni, j32 = nj, nb32 = nb, un = 0, md = dbl ? 3 : 1, mu = md + 1;
      trans(2); xxpak_(u, p, &i32, &j32, &nb32, &un, &md);
      if (!inplace) std::fill(bu.begin(), bu.end(), 0.);
      xxpak_(u, p, &i32, &j32, &nb32, &un, &mu);
      for (int i = 0; i < n; i++) {
        double y = dbl ? ((double *)u)[i] : ((float *)u)[i];
        if (!(y <= v[i] + 1e-4 && y >= v[i] - stepof(mx - mn, bits, false) - 1e-4)) { fail("nbits %d ni %d nj %d: element %d was %g and comes back as %g", nb, ni, nj, i, v[i], y); ok = false; break; }
      }
      eval(n);
    }
    if (ok) count("xxpak modes");
  }
}

// the 16-bit float packer
static void floatpacker() {
  for (int nbits = 1; nbits <= 16; nbits++) {
    if (!begin("float_packer, %d bits", nbits)) continue;
    bool ok = true;
    auto one = [&](const std::vector<float> &v) {
      int n = v.size(); int32_t hs, ss, p1 = 9, p2 = 9;
      c_float_packer_params(&hs, &ss, &p1, &p2, n);
      if (hs != 12 || ss != (n + 1) / 2 * 4 || p1 || p2) { fail("sizes for %d values: %d %d", n, hs, ss); return false; }
      int32_t *h = (int32_t *)ga.at(hs), *s = (int32_t *)gb.at(ss); float *d = (float *)gc.at(n * 4);
      std::vector<float> c = v; int32_t nb = 0;
      int r1 = c_float_packer(c.data(), nbits, h, s, n);
      int r2 = c_float_unpacker(d, h, s, n, &nb);
      trans(2);
      auto what = [&]() { std::string t = "values"; for (auto x : v) t += fmt(" %.9g", x); return t; };
      if (r1 || r2 || nb != nbits) { fail("%s: returned %d, %d, %d bits", what().c_str(), r1, r2, nb); return false; }
      if (memcmp(c.data(), v.data(), n * 4)) { fail("%s: the source changed", what().c_str()); return false; }
      double mn = v[0], mx = v[0]; for (auto x : v) { mn = std::min<double>(mn, x); mx = std::max<double>(mx, x); }
      // one unit is the last mantissa bit of the largest magnitude; the step is the smallest power of
      // two units with which the range fits in the token
      double am = std::max(std::fabs(mn), std::fabs(mx)), unit = am < 1.1754944e-38 ? 1.2e-38 : std::ldexp(1., std::ilogb(am) - 23), step = unit;
      while (mx - mn > step * (std::ldexp(1., nbits) - 1)) step *= 2;
      for (int i = 0; i < n; i++) if (!(std::fabs((double)d[i] - v[i]) <= step + 2 * unit)) { fail("%s: value %d comes back as %.9g, the step is %g", what().c_str(), i, d[i], step); return false; }
      state(hash(s, ss, hash(h, 12)));
      // packing again what came back changes nothing
      std::vector<float> d1(d, d + n), d2(n);
      c_float_packer(d1.data(), nbits, h, s, n); c_float_unpacker(d2.data(), h, s, n, &nb);
      for (int i = 0; i < n; i++) if (!(std::fabs((double)d2[i] - d1[i]) <= step)) { fail("%s: value %d drifts from %.9g to %.9g when packed again", what().c_str(), i, d1[i], d2[i]); return false; }
      eval(n);
      // a count that is not the packed one is refused
      if (c_float_unpacker(d2.data(), h, s, n - 1, &nb) == 0) { fail("unpacking %d of %d values is not refused", n - 1, n); return false; }
      return true;
    };
    std::vector<float> p; for (double x : FV) p.push_back((float)x);
    for (size_t a = 0; a < p.size() && ok; a++) { ok = one({p[a]}); for (size_t b = 0; b < p.size() && ok; b++) { ok = one({p[a], p[b]}); for (size_t c = 0; c < p.size() && ok; c++) ok = one({p[a], p[b], p[c]}); } }
    for (int n : {4, 5, 16, 17, 100, 101}) { std::vector<float> v; for (int i = 0; i < n; i++) v.push_back(250.f + i * 0.37f); ok = ok && one(v); for (auto &x : v) x -= 270; ok = ok && one(v); }
    // ranges that end just below a power of two: the largest value rounds up past the last token
    for (int top = 14; top <= 24; top++) for (int k = 0; k < 64 && ok; k++) for (float off : {0.f, -0.75f, 0.25f}) {
      float big = off + (float)(std::ldexp(1., top) - 1 - k * std::ldexp(1., top > 18 ? top - 18 : 0)) / 16777216.f;
      ok = ok && one({off, big, (off + big) / 2}) && one({big, off});
    }
    int32_t h[3] = {0, 0, 0}, s[2]; float f = 1;
    if (ok && (c_float_packer(&f, 0, h, s, 1) == 0 || c_float_packer(&f, 17, h, s, 1) == 0)) { fail("token sizes 0 and 17 are not refused"); ok = false; }
    h[0] = 0; int32_t nb; if (ok && c_float_unpacker(&f, h, s, 1, &nb) == 0) { fail("a foreign header is not refused"); ok = false; }
    if (ok) count("float_packer token sizes");
  }
}

// ---- run lengths ---------------------------------------------------------------------------------
static void rle() {
  int maxlen = thorough ? 9 : 7;
  for (int bits = 3; bits <= 31; bits += (bits < 10 ? 1 : 7)) for (int range = 0; range <= 3; range++) for (int big = 0; big < 2; big++) {
    // three symbols: 0, range, and one between; "big" stretches the range to the largest the token size holds
    if (too_many()) return;
    u32 span = big ? mask(bits) - range : (u32)range;
    if (span == 0) continue;
    if (!begin("run lengths, %d bits, range %u", bits, span)) continue;
    bool ok = true;
    auto one = [&](const std::vector<u32> &v, u32 mn, int st, int off, bool given) {
      int n = v.size(); size_t nu = (n - 1) * st + 1, cap = (off + (size_t)(n + 1) * bits + 31) / 32;
      std::vector<u32> u(nu, 0x5EED5EED), p(cap + 2, 0x3C3C3C3C); u32 hd[4] = {0, 0, 0, 0};
      for (int i = 0; i < n; i++) u[i * st] = v[i];
      auto what = [&]() { std::string s = fmt("stride %d offset %d%s values", st, off, given ? " range given" : ""); for (auto x : v) s += fmt(" %u", x); return s; };
      int k = compact_rle(u.data(), hd, p.data(), given ? (int)(mn + span) : 0, given ? (int)mn : 0, n, bits, off, st, 1);
      trans(2);
      if (k < 1 || k > n || (hd[1] & 0x3FFFFFF) != (u32)k || (hd[1] >> 26) != (u32)bits) { fail("%s: %d tokens, header %s", what().c_str(), k, hexw(hd, 4).c_str()); return false; }
      for (long b = 0; b < (long)p.size() * 32; b++) if ((b < off || b >= off + (long)k * bits) && ((p[b / 32] ^ 0x3C3C3C3C) >> (31 - b % 32) & 1)) { fail("%s: bit %ld outside the tokens changed", what().c_str(), b); return false; }
      std::vector<u32> d(nu + 4, 0x5EED5EED);
      u32 *q = (u32 *)gb.at((off + (size_t)k * bits + 31) / 32 * 4); memcpy(q, p.data(), (off + (size_t)k * bits + 31) / 32 * 4);
      compact_rle(d.data(), hd, q, 0, 0, n, bits, off, st, 2);
      for (size_t i = 0; i < d.size(); i++) if (d[i] != (i < nu ? u[i] : 0x5EED5EED)) { fail("%s: element %zu comes back as %u", what().c_str(), i, d[i]); return false; }
      if (off == 128) {   // the dispatching routine finds the same from the header alone
        std::vector<u32> e(nu, 0x5EED5EED); u32 tag = 0;
        unpackWrapper(e.data(), hd, q, st, &tag);
        if (e != u) { fail("%s: unpackWrapper does not give the values back", what().c_str()); return false; }
      }
      state(hash(p.data(), p.size() * 4)); eval(nu);
      return true;
    };
    u32 sym[3] = {0, span, span / 2};
    for (u32 mn : {0u, 7u}) for (int given = 0; given < 2; given++)
      for (int n = 1; n <= maxlen && ok; n++) {
        long tot = 1; for (int i = 0; i < n; i++) tot *= 3;
        for (long c = 0; c < tot && ok; c++) {
          std::vector<u32> v; long x = c; bool lo = false, hi = false;
          for (int i = 0; i < n; i++, x /= 3) { v.push_back(mn + sym[x % 3]); lo |= x % 3 == 0; hi |= x % 3 == 1; }
          if (!given && !(lo && hi) && big) continue;
          ok = one(v, mn, 1 + c % 2, c % 5 == 0 ? 128 : (int)(c % 33), given);
        }
      }
    // long runs: around the longest repeat one token can say
    for (int run = 1; run <= (bits <= 8 ? 600 : 70) && ok; run++) for (int tail = 0; tail < 3 && ok; tail++) {
      std::vector<u32> v = {3, 3 + span}; v.insert(v.end(), run, 3 + span / 2); if (tail) v.push_back(tail == 1 ? 3 : 3 + span);
      ok = one(v, 3, 1, 5, run & 1);
    }
    if (ok) count("run-length codes");
  }
}

// the dispatching routine on the other headers
static void wrapper() {
  for (int kind = 0; kind < 6; kind++) {
    if (!begin("unpackWrapper, %s", kind == 0 ? "integers" : kind == 1 ? "signed integers" : kind == 2 ? "floats" : kind == 3 ? "floats with missing values" : kind == 4 ? "floats, short header" : "floats with missing values, short header")) continue;
    bool ok = true;
    for (int bits = 2; bits <= 32 && ok; bits++) for (int n = 1; n <= 9 && ok; n++) for (int st = 1; st <= 2 && ok; st++) {
      size_t nu = (n - 1) * st + 1; std::vector<u32> p(16 + n * st, 0x99999999), u(nu, 0x5EED5EED), d(nu, 0x5EED5EED);
      float tag = -999.5f;
      for (int i = 0; i < n; i++) if (kind < 2) u[i * st] = (kind ? -50 : 50) + (i * 37) % 4; else { float f = (kind & 1) && i % 3 == 1 ? tag : 0.5f * (i % 4) - 1; memcpy(&u[i * st], &f, 4); }
      if (kind < 2) compact_integer(u.data(), p.data(), p.data(), n, bits, 128, st, kind ? 3 : 1);
      else compact_float(u.data(), p.data(), p.data(), n, bits, kind < 4 ? 128 : 120, st, 1, kind & 1, &tag);
      unpackWrapper(d.data(), p.data(), p.data(), st, &tag);
      trans(2); eval(nu);
      if (kind >= 2) { for (int i = 0; i < n; i++) { float a, b; memcpy(&a, &u[i * st], 4); memcpy(&b, &d[i * st], 4); if (a == tag ? b != tag : std::fabs(a - b) > (bits < 4 ? 1.6 : 1e-9)) ok = false; } }
      else ok = d == u;
      for (size_t i = 0; i < nu; i++) if (i % st && d[i] != 0x5EED5EED) ok = false;
      if (!ok) fail("%d bits, %d elements, stride %d: %s comes back as %s", bits, n, st, hexw(u.data(), nu).c_str(), hexw(d.data(), nu).c_str());
    }
    if (ok) count("unpackWrapper headers");
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  integers(); iipak(); floats<float>("float"); floats<double>("double"); xxpak(); floatpacker(); rle(); wrapper();
  return done();
}
