// Checksums, digests and stream cipher: independent bit-level definitions,
// every length around the block sizes, every split of the stream into two (and
// three) calls.
#include "vh.h"
using namespace vh;
extern "C" {
typedef struct { int x, y; unsigned char m[256]; } arc4_context;
#include "md5.h"
void arc4_setup(arc4_context *, unsigned char *, int); void arc4_crypt(arc4_context *, unsigned char *, int);
int f_calc_crc(unsigned char *, int *, int *, int *); int f_calc_crc_(unsigned char *, int *, int *, int *);
unsigned f_crc32(unsigned *, const unsigned char *, unsigned *); unsigned f_crc32_(unsigned *, const unsigned char *, unsigned *);
uint32_t update_crc_ne(uint32_t, int, void *, int, int, int); uint32_t f_update_crc_ne(uint32_t *, int *, void *, int *, int *, int *);
int calc_crc(unsigned char *, int *, int *, int);
}
static std::string data(int kind, int n) {
  std::string s(n, 0);
  for (int i = 0; i < n; i++) s[i] = kind == 0 ? 0 : kind == 1 ? (char)0xff : kind == 2 ? (char)(i * 37 + (i >> 3) + 11) : (char)('a' + i % 26);
  return s;
}
static unsigned crc_ref(int width, uint32_t poly, uint32_t init_, bool refl, uint32_t xorout, const unsigned char *d, size_t n) {
  uint32_t mask = width == 32 ? 0xffffffffu : (1u << width) - 1, c = init_;
  for (size_t k = 0; k < n; k++) for (int b = 0; b < 8; b++) {
    int bit = refl ? d[k] >> b & 1 : d[k] >> (7 - b) & 1;
    int top = c >> (width - 1) & 1;
    c = (c << 1) & mask; if (top ^ bit) c ^= poly;
  }
  if (refl) { uint32_t r = 0; for (int i = 0; i < width; i++) if (c >> i & 1) r |= 1u << (width - 1 - i); c = r; }
  return c ^ xorout;
}
static void md5_ref(const std::string &m, unsigned char out[16]) {
  static const int S[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
  uint32_t K[64]; for (int i = 0; i < 64; i++) K[i] = (uint32_t)(int64_t)floor(fabs(sin((double)i + 1)) * 4294967296.0);
  std::string p = m; p += (char)0x80; while (p.size() % 64 != 56) p += (char)0;
  uint64_t bl = (uint64_t)m.size() * 8; for (int i = 0; i < 8; i++) p += (char)(bl >> (8 * i));
  uint32_t a0 = 0x67452301, b0 = 0xefcdab89, c0 = 0x98badcfe, d0 = 0x10325476;
  for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t w[16]; for (int i = 0; i < 16; i++) w[i] = (uint8_t)p[o + 4 * i] | (uint8_t)p[o + 4 * i + 1] << 8 | (uint8_t)p[o + 4 * i + 2] << 16 | (uint32_t)(uint8_t)p[o + 4 * i + 3] << 24;
    uint32_t A = a0, B = b0, C = c0, D = d0;
    for (int i = 0; i < 64; i++) {
      uint32_t F; int g;
      if (i < 16) F = (B & C) | (~B & D), g = i; else if (i < 32) F = (D & B) | (~D & C), g = (5 * i + 1) % 16;
      else if (i < 48) F = B ^ C ^ D, g = (3 * i + 5) % 16; else F = C ^ (B | ~D), g = (7 * i) % 16;
      F += A + K[i] + w[g]; A = D; D = C; C = B; B += F << S[i] | F >> (32 - S[i]);
    }
    a0 += A; b0 += B; c0 += C; d0 += D;
  }
  uint32_t r[4] = {a0, b0, c0, d0}; for (int i = 0; i < 16; i++) out[i] = r[i / 4] >> (8 * (i % 4));
}
static void hmac_ref(std::string key, const std::string &m, unsigned char out[16]) {
  if (key.size() > 64) { unsigned char k[16]; md5_ref(key, k); key.assign((char *)k, 16); }
  key.resize(64, 0); std::string i = key, o = key; for (int k = 0; k < 64; k++) { i[k] ^= 0x36; o[k] ^= 0x5c; }
  unsigned char t[16]; md5_ref(i + m, t); md5_ref(o + std::string((char *)t, 16), out);
}
static std::string arc4_ref(const std::string &key, std::string d) {
  unsigned char S[256]; for (int i = 0; i < 256; i++) S[i] = i;
  for (int i = 0, j = 0; i < 256; i++) { j = (j + S[i] + (uint8_t)key[i % key.size()]) & 255; std::swap(S[i], S[j]); }
  int i = 0, j = 0; auto nx = [&]() { i = (i + 1) & 255; j = (j + S[i]) & 255; std::swap(S[i], S[j]); return S[(S[i] + S[j]) & 255]; };
  for (int k = 0; k < 1024; k++) nx();
  for (auto &c : d) c ^= nx(); return d;
}
static std::string hex(const unsigned char *p, int n) { std::string s; for (int i = 0; i < n; i++) s += fmt("%02x", p[i]); return s; }
int main(int argc, char **argv) {
  init(argc, argv);
  int N = thorough ? 400 : 150;
  for (int kind = 0; kind < 4; kind++) for (int n = 0; n <= N; n++) {
    if (!begin("md5 kind %d length %d, all splits", kind, n)) continue;
    std::string d = data(kind, n); unsigned char ref[16], o[16]; md5_ref(d, ref);
    md5((unsigned char *)d.data(), n, o); eval(); state(hex(ref, 16));
    if (memcmp(o, ref, 16)) fail("md5 one shot: got %s expected %s", hex(o, 16).c_str(), hex(ref, 16).c_str());
    for (int a = 0; a <= n; a++) { md5_context c; memset(&c, 0x55, sizeof c); md5_starts(&c); md5_update(&c, (unsigned char *)d.data(), a); md5_update(&c, (unsigned char *)d.data() + a, n - a); md5_finish(&c, o); eval();
      if (memcmp(o, ref, 16)) fail("md5 split %d+%d", a, n - a);
      if (a % 7 == 0) for (int b = a; b <= n; b += 5) { md5_starts(&c); md5_update(&c, (unsigned char *)d.data(), a); md5_update(&c, (unsigned char *)d.data() + a, b - a); md5_update(&c, (unsigned char *)d.data() + b, n - b); md5_finish(&c, o); eval(); if (memcmp(o, ref, 16)) fail("md5 split %d+%d+%d", a, b - a, n - b); }
    }
    for (int kl : {0, 1, 16, 63, 64, 65, 100}) { std::string key = data(2, kl); hmac_ref(key, d, ref); md5_hmac((unsigned char *)key.data(), kl, (unsigned char *)d.data(), n, o); eval(); if (memcmp(o, ref, 16)) fail("hmac key length %d", kl);
      md5_context c; md5_hmac_starts(&c, (unsigned char *)key.data(), kl); md5_hmac_update(&c, (unsigned char *)d.data(), n / 3); md5_hmac_update(&c, (unsigned char *)d.data() + n / 3, n - n / 3); md5_hmac_finish(&c, o); eval(); if (memcmp(o, ref, 16)) fail("incremental hmac key length %d", kl); }
    outcome("md5"); sample("md5 kind %d n %d -> %s", kind, n, hex(ref, 16).c_str());
  }
  for (int kind = 1; kind < 4; kind++) for (int n : {0, 1, 63, 64, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 5000}) {
    if (!begin("md5 of a file kind %d length %d", kind, n)) continue;
    std::string d = data(kind, n); spit("f", d); unsigned char ref[16], o[16]; md5_ref(d, ref); int rc = md5_file((char *)"f", o); eval(); state(hex(ref, 16)); unlink("f");
    if (rc != 0 || memcmp(o, ref, 16)) fail("file digest rc %d", rc);
    if (md5_file((char *)"nosuchfile", o) == 0) fail("digest of a missing file reported success");
    outcome("md5file");
  }
  for (int kind = 0; kind < 4; kind++) for (int n = 0; n <= N; n++) {
    if (!begin("crc kind %d length %d, all splits", kind, n)) continue;
    std::string d = data(kind, n); unsigned char *p = (unsigned char *)d.data();
    // zlib crc32
    for (unsigned seed : {0u, 0xdeadbeefu, 0xffffffffu}) {
      unsigned z = seed; unsigned un = n; unsigned got = f_crc32(&z, p, &un), got2 = f_crc32_(&z, p, &un);
      uint32_t c = ~seed; for (int i = 0; i < n; i++) { c ^= p[i]; for (int b = 0; b < 8; b++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; } c = ~c;
      eval(); if (got != c || got2 != c) fail("crc32 seed %x: %x expected %x", seed, got, c);
      for (int a = 0; a <= n; a++) { unsigned l1 = a, l2 = n - a; unsigned m = f_crc32(&z, p, &l1); unsigned r = f_crc32(&m, p + a, &l2); eval(); if (r != c) fail("crc32 split at %d", a); }
      state(fmt("%x/%x", seed, c));
    }
    // ccitt
    for (int seed : {0, 0x1021, 0xffff, 0x12345}) for (int stride : {1, 2, 4}) {
      uint32_t c = seed & 0xffff; for (int i = 0; i < n; i += stride) { c ^= p[i] << 8; for (int b = 0; b < 8; b++) c = c & 0x8000 ? (c << 1 ^ 0x1021) & 0xffff : c << 1 & 0xffff; }
      int nn = n; eval(); if ((uint32_t)calc_crc(p, &nn, &seed, stride) != c) fail("crc ccitt seed %x stride %d", seed, stride);
      if (n % 4 == 0) { int w = n / 4; if ((uint32_t)f_calc_crc(p, &w, &seed, &stride) != c || (uint32_t)f_calc_crc_(p, &w, &seed, &stride) != c) fail("word crc seed %x stride %d", seed, stride); }
      if (stride == 1) for (int a = 0; a <= n; a++) { int l1 = a, l2 = n - a; int m = calc_crc(p, &l1, &seed, 1); if ((uint32_t)calc_crc(p + a, &l2, &m, 1) != c) fail("crc ccitt split %d", a); }
      state(fmt("%x/%x/%d", seed, c, stride));
    }
    // 16/24/32 bit crc on elements of 1,2,4,8 bytes; bytes of an element are taken most significant first
    static const int W[3] = {16, 24, 32};
    for (int w : W) for (int sz : {1, 2, 4, 8}) if (n % sz == 0) {
      std::string e = d; for (int i = 0; i < n; i += sz) std::reverse(e.begin() + i, e.begin() + i + sz);
      unsigned ref = w == 16 ? crc_ref(16, 0x8005, 0, true, 0, (unsigned char *)e.data(), n) : w == 24 ? crc_ref(24, 0x864cfb, 0xb704ce, false, 0, (unsigned char *)e.data(), n) : crc_ref(32, 0x04c11db7, 0xffffffff, true, 0xffffffff, (unsigned char *)e.data(), n);
      int ne = n / sz;
      for (int a = 0; a <= ne; a++) {
        uint32_t c = update_crc_ne(0, w, p, sz, a, 0); c = update_crc_ne(c, w, p + a * sz, sz, ne - a, 2); eval();
        if (c != ref) fail("%d bit crc of %d elements of %d bytes, split at %d: %x expected %x", w, ne, sz, a, c, ref);
        int m0 = 0, m1 = 1, m2 = 2, z = 0, ww = w, s2 = sz, l1 = a, l2 = ne - a; uint32_t q = 0; q = f_update_crc_ne(&q, &ww, p, &s2, &l1, &m0); q = f_update_crc_ne(&q, &ww, p + a * sz, &s2, &l2, &m1); q = f_update_crc_ne(&q, &ww, p, &s2, &z, &m2);
        if (q != ref) fail("%d bit crc init/update/finalize, element size %d split %d", w, sz, a);
      }
      state(fmt("%d/%x", w, ref)); outcome(fmt("crc%d", w));
    }
    sample("crc kind %d length %d", kind, n);
  }
  for (int kl = 1; kl <= (thorough ? 300 : 80); kl++) {
    if (!begin("cipher key length %d", kl)) continue;
    for (int kind = 0; kind < 4; kind++) for (int n = 0; n <= (thorough ? 300 : 90); n++) {
      std::string key = data(kind, kl), d = data(3 - kind, n), ref = arc4_ref(key, d);
      for (int a = 0; a <= n; a += (n > 60 ? 7 : 1)) { arc4_context c; memset(&c, 0x77, sizeof c); arc4_setup(&c, (unsigned char *)&key[0], kl); std::string e = d; arc4_crypt(&c, (unsigned char *)&e[0], a); arc4_crypt(&c, (unsigned char *)&e[0] + a, n - a); eval();
        if (e != ref) { fail("cipher key kind %d length %d data %d split %d", kind, kl, n, a); break; }
        arc4_setup(&c, (unsigned char *)&key[0], kl); arc4_crypt(&c, (unsigned char *)&e[0], n); if (e != d) { fail("decryption does not give back the text"); break; } }
      state(hash(ref) ^ kl * 1000003);
    }
    outcome("arc4");
  }
  return done();
}
