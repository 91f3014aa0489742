// S01: the serializer's jar, every sequence of operations against a reference model
#include "vh.h"
using namespace vh; using std::vector; using std::string;
extern "C" { int jw_new(int, int64_t, int); int jw_shape(int, const int64_t *, int); int jw_free(int); void jw_reset(int); int jw_put(int, const void *, int64_t, int64_t, int); int jw_get(int, void *, int64_t, int64_t, int);
 int jw_putstr(int, const char *, int, int64_t, int); int jw_getstr(int, char *, int, int64_t, int); void jw_info(int, int64_t *); void jw_scope(int, int, const int64_t *); }
struct Model { bool valid = false, owner = true; long size = 0, top = 0, bot = 0; vector<uint8_t> data, known; // contents below top, and which bytes are defined
  string key() const { return fmt("%d %d %ld %ld %ld", valid, owner, size, top, bot); } };
enum { NEW, SHAPE, FREE, RESET, PUT, GET, PUTS, GETS, SCOPE };
struct Op { int o; long a, pos; int has; string str() const { static const char *N[] = {"new", "shape_with", "free", "reset", "insert", "extract", "insert_string", "extract_string", "scope"}; return fmt("%s(%ld%s)", N[o], a, has ? fmt(",at %ld", pos).c_str() : ""); } };
static vector<vector<int64_t>> arrays; static int serial;
static bool info(const Model &m, const char *w) { int64_t v[10]; jw_info(1, v); eval();
  long size = m.valid ? m.size : -1, top = m.valid ? m.top : -1, bot = m.valid ? m.bot : -1, av = m.valid ? m.top - m.bot : -1, fa = m.valid && m.top > 0 ? m.top : -1, full = m.valid ? m.size : -1;
  if (v[0] != size || v[1] != top || v[2] != bot || v[3] != av || v[4] != (m.valid ? 1 : 0) || v[5] != fa || v[6] != full) { fail("%s: size,top,bot,available,valid,content,full content = %ld,%ld,%ld,%ld,%ld,%ld,%ld, should be %ld,%ld,%ld,%ld,%d,%ld,%ld", w, (long)v[0], (long)v[1], (long)v[2], (long)v[3], (long)v[4], (long)v[5], (long)v[6], size, top, bot, av, m.valid, fa, full); return false; }
  if ((v[7] != 0) != m.valid) { fail("%s: raw pointer %lx", w, (long)v[7]); return false; }
  if (!m.valid) return true;
  if ((v[8] && v[8] != v[7]) || (m.size > 0 && v[9] != v[7])) { fail("%s: the array and the raw pointer differ", w); return false; }
  const uint8_t *d = (const uint8_t *)v[7]; for (long i = 0; i < m.top * 8; i++) if (m.known[i] && d[i] != m.data[i]) { fail("%s: byte %ld of the jar is %d, should be %d", w, i, d[i], m.data[i]); return false; }
  return true; }
static bool step(Model &m, const Op &o, const char *w) { trans(); int r; string what = string(w) + " " + o.str(); const char *W = what.c_str();
  switch (o.o) {
    case NEW: r = jw_new(1, o.a, o.has); { int want = !m.valid && o.a >= 0; if (r != want) { fail("%s returns %d", W, r); return false; } if (want) { m = Model(); m.valid = true; m.size = o.a; m.data.assign(o.a * 8, 0); m.known.assign(o.a * 8, 0); } } break;
    case SHAPE: { arrays.emplace_back(); auto &a = arrays.back(); for (long i = 0; i < o.a; i++) a.push_back(0x1111111111111111LL * (++serial % 15 + 1)); a.reserve(1); auto keep = a; r = jw_shape(1, a.data(), o.a); if (r != !m.valid) { fail("%s returns %d", W, r); return false; } if (!m.valid) { m = Model(); m.valid = true; m.owner = false; m.size = m.top = o.a; m.data.assign((uint8_t *)a.data(), (uint8_t *)a.data() + o.a * 8); m.known.assign(o.a * 8, 1); } else if (a != keep) { fail("%s changed the array it refused", W); return false; } } break;
    case FREE: r = jw_free(1); if (r != (m.valid ? 0 : -1)) { fail("%s returns %d", W, r); return false; } m = Model(); break;
    case RESET: jw_reset(1); m.top = m.bot = 0; break;
    case SCOPE: { vector<int64_t> a(o.a + 1, 77); auto k = a; jw_scope(o.pos == 0 ? o.a : -1, o.pos == 1 ? o.a : -1, a.data()); if (a != k) { fail("%s changed the array", W); return false; } } break;
    case PUT: case PUTS: { long bits = o.o == PUT ? o.a : o.a * 8, bytes = (bits + 7) / 8, el = (bits + 63) / 64; vector<uint8_t> b(bytes); for (auto &c : b) c = ++serial * 37 + 1; auto keep = b; 
      if (o.o == PUT) r = jw_put(1, b.data(), bits, o.pos, o.has); else r = jw_putstr(1, (char *)b.data(), o.a, o.pos, o.has);
      if (b != keep) { fail("%s changed its input", W); return false; }
      long at = o.has ? o.pos - 1 : m.top; bool ok = m.valid && at >= 0 && at + el <= m.size; if (r != ok) { fail("%s %s", W, r ? "accepted" : "refused"); return false; }
      if (ok) { for (long i = m.top * 8; i < at * 8; i++) { m.data[i] = 0; m.known[i] = 1; } for (long i = 0; i < el * 8; i++) { m.known[at * 8 + i] = i < bytes; if (i < bytes) m.data[at * 8 + i] = b[i]; } m.top = at + el; } } break;
    case GET: case GETS: { long bits = o.o == GET ? o.a : o.a * 8, bytes = bits / 8, el = (bits + 63) / 64; vector<uint8_t> b(bytes + 1, 0xA5); b.resize(bytes); b.shrink_to_fit();
      if (o.o == GET) r = jw_get(1, b.data(), bits, o.pos, o.has); else r = jw_getstr(1, (char *)b.data(), o.a, o.pos, o.has);
      long at = o.has ? o.pos - 1 : m.bot; bool ok = m.valid && at >= 0 && at + el <= m.top; if (r != ok) { fail("%s %s", W, r ? "accepted" : "refused"); return false; }
      for (long i = 0; i < bytes; i++) if (ok ? (m.known[at * 8 + i] && b[i] != m.data[at * 8 + i]) : b[i] != 0xA5) { fail("%s: byte %ld is %d, should be %d", W, i, b[i], ok ? m.data[at * 8 + i] : 0xA5); return false; }
      if (ok) m.bot = at + el; } break;
  }
  return info(m, W); }
int main(int argc, char **argv) { init(argc, argv);
  long cap = thorough ? 6 : 4; vector<Op> ops;
  for (long n : {0L, 1L, 2L, 3L, cap}) { ops.push_back({NEW, n, 0, 0}); ops.push_back({NEW, n, 0, 1}); ops.push_back({SHAPE, n, 0, 0}); ops.push_back({SCOPE, n, 0, 0}); ops.push_back({SCOPE, n, 1, 0}); }
  ops.push_back({FREE, 0, 0, 0}); ops.push_back({RESET, 0, 0, 0});
  vector<long> bits = {0, 8, 16, 32, 56, 64, 72, 96, 128, 136, 192, 64 * cap - 8, 64 * cap, 64 * cap + 8}, lens = {0, 1, 3, 7, 8, 9, 16, 8 * cap, 8 * cap + 1};
  for (int put = 0; put < 2; put++) { for (long b : bits) { ops.push_back({put ? PUT : GET, b, 0, 0}); for (long p = -1; p <= cap + 3; p++) ops.push_back({put ? PUT : GET, b, p, 1}); ops.push_back({put ? PUT : GET, b, 100000, 1}); }
    for (long n : lens) { ops.push_back({put ? PUTS : GETS, n, 0, 0}); for (long p : {-1L, 0L, 1L, 2L, cap, cap + 1}) ops.push_back({put ? PUTS : GETS, n, p, 1}); } }
  // breadth first over the model's states; each is reached by its shortest path and every operation is tried there
  std::map<string, vector<int>> seen; vector<string> order; Model m0; seen[m0.key()] = {}; order.push_back(m0.key());
  vector<std::pair<string, int>> edges;
  for (size_t q = 0; q < order.size(); q++) { auto path = seen[order[q]]; 
    for (size_t k = 0; k < ops.size(); k++) { // the model alone decides what the successors are
      Model m; auto sim = [&](const Op &o) { long bb = o.o == PUT || o.o == GET ? o.a : o.a * 8, el = (bb + 63) / 64; switch (o.o) { case NEW: if (!m.valid) { m.valid = true; m.size = o.a; m.top = m.bot = 0; m.owner = true; } break; case SHAPE: if (!m.valid) { m.valid = true; m.owner = false; m.size = m.top = o.a; m.bot = 0; } break; case FREE: m = Model(); break; case RESET: m.top = m.bot = 0; break;
        case PUT: case PUTS: { long at = o.has ? o.pos - 1 : m.top; if (m.valid && at >= 0 && at + el <= m.size) m.top = at + el; } break; case GET: case GETS: { long at = o.has ? o.pos - 1 : m.bot; if (m.valid && at >= 0 && at + el <= m.top) m.bot = at + el; } break; } };
      for (int p : path) sim(ops[p]); sim(ops[k]);
      if (!seen.count(m.key())) { auto np = path; np.push_back(k); seen[m.key()] = np; order.push_back(m.key()); } } }
  for (auto &s : order) { if (!begin("state reached by %zu operations: %s", seen[s].size(), s.c_str())) continue; state(s);
    auto path = seen[s]; string d; for (int p : path) d += ops[p].str() + "; ";
    for (size_t k = 0; k < ops.size() && !failed_in_case; k++) for (int after = 0; after < (thorough ? (int)ops.size() : 1) && !failed_in_case; after++) {
      describe(d + ops[k].str()); jw_free(1); arrays.clear(); Model m; bool ok = info(m, "at the start"); for (int p : path) if (ok) ok = step(m, ops[p], "on the way:"); if (ok) ok = step(m, ops[k], "then"); if (ok && thorough) { describe(d + ops[k].str() + "; " + ops[after].str()); ok = step(m, ops[after], "then"); }
      // whatever happened, everything inserted can be extracted again
      if (ok && m.valid && m.top > 0) ok = step(m, {GET, m.top * 64, 1, 1}, "finally"); if (ok) outcome(m.valid ? m.owner ? "owner" : "not the owner" : "no container"); } jw_free(1); }
  return done(); }
