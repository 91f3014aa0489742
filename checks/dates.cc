// Dates: every calendar day, every hour, every 5-second interval and every stamp through every mode of newdate,
// against a proleptic Gregorian calendar; increments and differences in the three calendars.
#include "vh.h"
using namespace vh; using std::vector; using std::string;
typedef long long L;
extern "C" {
int newdate_(int *, int *, int *, int *);
void incdatr_(int *, int *, double *); void incdati_(int *, int *, double *); void difdatr_(int *, int *, double *); void difdati_(int *, int *, double *);
int idatmg2_(int *); void datmgp2_(int *);
void newdate_options_(char *, const char *, size_t, size_t); void get_calendar_status_(int *, int *); void get_leapyear_status_(int *);
void ignore_leapyear_(void); void accept_leapyear_(void);
void datec_(int *, int *, int *, int *); void jdatec_(int *, int *, int *, int *);
}
static const L TD1900 = -504904320, TDMAX = 1615714560, D1980 = 723180, D1900 = 693961, D2236 = 816682, D10K = 3652425; // days since 0000-01-01
static bool leap(L y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
static const int ML[2][13] = {{0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}, {0, 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}};
static int CUM[2][14];
static L ydays(L y) { return y <= 0 ? 0 : y * 365 + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 + 1; } // days before January 1st of year y >= 0
static L dayno(int y, int m, int d) { return ydays(y) + CUM[leap(y)][m] + d - 1; }
static void civil(L n, int &y, int &m, int &d) { y = n / 366; while (ydays(y + 1) <= n) y++; n -= ydays(y); int l = leap(y); m = 1; while (n >= ML[l][m]) n -= ML[l][m++]; d = n + 1; }
static bool okdate(int y, int m, int d) { return m >= 1 && m <= 12 && d >= 1 && d <= ML[leap(y)][m]; }
static int nd(int &a, int &b, int &c, int mode) { trans(); return newdate_(&a, &b, &c, &mode); }
static int newstamp(L td) { return 123200000 + td / 8 * 10 + td % 8; }
static int extstamp(L h) { return (int)(unsigned)(3000000000LL + h / 8 * 10 + h % 8); }
// the date an expected stamp designates: day number and second, or -1; unit: resolution in seconds
struct T { L day; int sec; bool operator==(const T &o) const { return day == o.day && sec == o.sec; } };
static bool decode(int s, T &t, int &run) {
  run = 0;
  if (s < -1) { L u = (L)(unsigned)s - 3000000000LL; if (u < 0 || u >= 109572750) return false; L h = u / 10 * 8 + u % 10; t = {h / 24, (int)(h % 24) * 3600}; return t.day < D10K; }
  if (s >= 123200000) { L td = (L)(s - 123200000) / 10 * 8 + (s - 123200000) % 10; if (td >= TDMAX) return false; t = {D1980 + td / 17280, (int)(td % 17280) * 5}; return true; }
  if (s < 0) return false;
  run = s % 10; int z = s / 10 % 100, y = s / 1000 % 100 + 1900, d = s / 100000 % 100, m = s / 10000000 % 100;
  if (z > 23 || !okdate(y, m, d)) return false; t = {dayno(y, m, d), z * 3600}; return true;
}
static int dt8(L day) { int y, m, d; civil(day, y, m, d); return y * 10000 + m * 100 + d; }
static int tm8(int sec) { return sec / 3600 * 1000000 + sec / 60 % 60 * 10000 + sec % 60 * 100; }
static bool good; // first failure in a case stops it
#define BAD(...) do { fail(__VA_ARGS__); good = false; return; } while (0)

// one valid instant, through every mode that concerns it
static void instant(L day, int sec) {
  eval(); int dt = dt8(day), tm = tm8(sec), y = dt / 10000, a, b, c, r; bool basic = day >= D1900 && day < D2236, after = day >= D1980, hour = sec % 3600 == 0; bool exc = dt == 19010101 && tm == 1000000;
  T t, want = {day, basic && after ? sec / 5 * 5 : sec / 3600 * 3600}, th = {day, sec / 3600 * 3600}; int run;
  // printable to stamp and back
  a = -7; b = dt; c = tm; r = nd(a, b, c, 3); if (r) BAD("printable %08d %08d to stamp: refused", dt, tm); int st = a; if (b != dt || c != tm) BAD("printable to stamp changes the printable date %d %d", b, c);
  if (!decode(st, t, run) || !(t == want) || run) BAD("printable %08d %08d gives stamp %d", dt, tm, st);
  bool ext = st < -1, neu = st >= 123200000; if (!exc && (ext != !basic || neu != (basic && (y >= 2000 || (after && !hour))))) BAD("printable %08d %08d gives stamp %d of the wrong style", dt, tm, st);
  a = st; b = c = -7; r = nd(a, b, c, -3); if (r || b != dt || c != tm8(want.sec)) BAD("stamp %d to printable: %d %08d %08d, should be %08d %08d", st, r, b, c, dt, tm8(want.sec));
  // extended forms
  a = -7; b = dt; c = tm; r = nd(a, b, c, 5); if (r || a != extstamp(day * 24 + sec / 3600)) BAD("printable %08d %08d to extended stamp: %d, %d", dt, tm, r, a); int es = a;
  a = es; b = c = -7; r = nd(a, b, c, -5); if (r || b != dt || c != tm8(th.sec)) BAD("extended stamp %d to printable: %d %08d %08d", es, r, b, c);
  a = es; b = c = -7; r = nd(a, b, c, -3); if (r || b != dt || c != tm8(th.sec)) BAD("extended stamp %d to printable in mode -3: %d %08d %08d", es, r, b, c);
  a = -7; b = dt; c = tm; r = nd(a, b, c, 7); if (r || a != day * 24 + sec / 3600) BAD("printable %08d %08d to extended true date: %d, %d", dt, tm, r, a); int et = a;
  a = et; b = c = -7; r = nd(a, b, c, -7); if (r || b != dt || c != tm8(th.sec)) BAD("extended true date %d to printable: %d %08d %08d", et, r, b, c);
  for (int s : {st, es}) { a = -7; b = s; c = -7; r = nd(a, b, c, 6); if (r || a != et || c != 0) BAD("stamp %d to extended true date: %d %d run %d, should be %d", s, r, a, c, et); }
  a = et; b = -7; c = 0; r = nd(a, b, c, -6); if (r || !decode(b, t, run) || !(t == th) || run) BAD("extended true date %d to stamp: %d %d", et, r, b); if (!exc && hour && b != st) BAD("extended true date %d to stamp: %d, should be %d", et, b, st);
  if (!basic || exc) return;
  // true dates
  L td = (day - D1980) * 17280 + sec / 5;
  a = -7; b = dt; c = tm; r = nd(a, b, c, 2); if (r || a != td) BAD("printable %08d %08d to true date: %d %d, should be %lld", dt, tm, r, a, td);
  if (!after && !hour) td = (day - D1980) * 17280 + sec / 3600 * 720;
  a = td; b = c = -7; r = nd(a, b, c, -2); if (r || b != dt || c != tm8(want.sec)) BAD("true date %lld to printable: %d %08d %08d", td, r, b, c);
  for (int n = 0; n < 10; n += 9) { a = td; b = -7; c = n; r = nd(a, b, c, -1); bool old = b < 123200000; if (r || (b != st + (old ? n : 0) && hour)) BAD("true date %lld run %d to stamp: %d %d, should be %d", td, n, r, b, st); int s = b;
    if (!decode(s, t, run) || !(t == want)) BAD("true date %lld to stamp %d", td, s); a = -7; b = s; c = -7; r = nd(a, b, c, 1); if (r || a != td || c != (old ? n : 0)) BAD("stamp %d to true date: %d %d run %d, should be %lld", s, r, a, c, td); }
  a = td; b = -7; c = 10; if (!nd(a, b, c, -1)) BAD("run number 10 is accepted");
}
// one stamp, whatever it is
static void stamp(int s) {
  eval(); T t; int run, a, b, c, r; bool ok = decode(s, t, run), ext = s < -1; if (ext && !ok && (unsigned)s % 10 >= 8) return; // not a stamp newdate makes
  a = s; b = c = -7; r = nd(a, b, c, -3); if (ok ? r || b != dt8(t.day) || c != tm8(t.sec) : r != 1) BAD("stamp %d to printable: %d %08d %08d, should be %s", s, r, b, c, ok ? fmt("%08d %08d", dt8(t.day), tm8(t.sec)).c_str() : "refused");
  a = -7; b = s; c = -7; r = nd(a, b, c, 1); L td = (t.day - D1980) * 17280 + t.sec / 5; if (ok && !ext ? r || a != td || c != run : r != 1) BAD("stamp %d to true date: %d %d run %d, should be %s", s, r, a, c, ok && !ext ? fmt("%lld run %d", td, run).c_str() : "refused");
  a = -7; b = s; c = -7; r = nd(a, b, c, 6); L et = t.day * 24 + t.sec / 3600; if (ok ? r || a != et || c != run : r != 1) BAD("stamp %d to extended true date: %d %d run %d, should be %s", s, r, a, c, ok ? fmt("%lld", et).c_str() : "refused");
  if (ext) { a = s; b = c = -7; r = nd(a, b, c, -5); if (ok ? r || b != dt8(t.day) || c != tm8(t.sec) : r != 1) BAD("extended stamp %d to printable: %d %08d %08d", s, r, b, c); }
}
// any integer as a true date
static void truedate(L v) {
  eval(); int a = v, b = -7, c = -7, r; bool ok = v < TDMAX && (v >= 0 || (v >= TD1900 && (v - TD1900) % 720 == 0)); L day = D1980 + (v - TD1900) / 17280 - (D1980 - D1900), sec = ok ? (v - TD1900) % 17280 * 5 : 0;
  r = nd(a, b, c, -2); if (ok ? r || b != dt8(day) || c != tm8(sec) : r != 1) BAD("true date %lld to printable: %d %08d %08d", v, r, b, c);
  a = v; b = -7; c = 0; r = nd(a, b, c, -1); T t; int run; if (ok ? r || !decode(b, t, run) || t.day != day || t.sec != sec || run : r != 1) BAD("true date %lld to stamp: %d %d", v, r, b);
}
static void exttrue(L v) {
  eval(); int a = v, b = -7, c = -7, r; bool ok = v >= 0 && v < D10K * 24;
  r = nd(a, b, c, -7); if (ok ? r || b != dt8(v / 24) || c != v % 24 * 1000000 : r != 1) BAD("extended true date %lld to printable: %d %08d %08d", v, r, b, c);
  a = v; b = -7; c = 0; r = nd(a, b, c, -6); T t; int run; if (ok ? r || !decode(b, t, run) || t.day != v / 24 || t.sec != v % 24 * 3600 : r != 1) BAD("extended true date %lld to stamp: %d %d", v, r, b);
}
static void printable(L y, int m, int d, int h) {
  eval(); L v = y * 10000 + m * 100 + d; if (v > 2147483647) return; bool ok = y >= 0 && y < 10000 && okdate(y, m, d) && h >= 0 && h < 24, ba = ok && y >= 1900 && y < 2236;
  int dt = v, tm = h * 1000000, a, b, c, r;
  for (int mode : {3, 5, 7, 2}) { a = -7; b = dt; c = tm; r = nd(a, b, c, mode); bool o = mode == 2 ? ba : ok; if ((r == 0) != o || (r && r != 1)) BAD("printable %d %08d in mode %d returns %d, the date is %s", dt, tm, mode, r, o ? "valid" : "not valid"); }
  if (y >= 100 && y <= 10000) { int g[14] = {0, m, d, (int)y, h, 0, 0, 0, 0, 0, 0, 0, 0, -7}; r = idatmg2_(g); T t; int run; if (r != g[13] || (ok ? !decode(r, t, run) || t.day != dayno(y, m, d) || t.sec != h * 3600 : r != 101010101)) BAD("date array %lld-%d-%d %dh: stamp %d", y, m, d, h, r); }
}
static const char *DAY[] = {"SUN", "MON", "TUE", "WED", "THU", "FRI", "SAT"}, *MON[] = {"", "JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"};
static void group(L day, int sec) { // 14-word date arrays
  eval(); int dt = dt8(day), a, b, c; a = -7; b = dt; c = tm8(sec); nd(a, b, c, 3); int st = a; bool basic = day >= D1980 && day < D2236; if (!basic) sec = sec / 3600 * 3600; else sec = sec / 5 * 5; int y = dt / 10000, m = dt / 100 % 100, d = dt % 100, wd = (day + 6) % 7;
  for (int via = 0; via < 2; via++) { int g[15]; for (int &x : g) x = 0x55555555; g[13] = st; if (via) { int md = -4, z = 0; g[13] = -1; if (newdate_(&st, g, &z, &md)) BAD("mode -4 refuses stamp %d", st); } else datmgp2_(g); trans();
    if (g[0] != wd + 1 || g[1] != m || g[2] != d || g[3] != y || g[4] != sec / 3600 || g[5] != sec % 3600 * 100 || g[13] != st || g[14] != 0x55555555) BAD("date array of stamp %d: %d %d %d %d %d %d %d, should be %d %d %d %d %d %d", st, g[0], g[1], g[2], g[3], g[4], g[5], g[13], wd + 1, m, d, y, sec / 3600, sec % 3600 * 100);
    char yy[8]; snprintf(yy, 8, "%4s", fmt("%02d", y).c_str()); string w = fmt(" %s %s %02d %s %02dZ%02d:%02d.00", DAY[wd], MON[m], d, yy, sec / 3600, sec / 60 % 60, sec % 60);
    if (memcmp(g + 6, w.data(), 28)) BAD("text of stamp %d: '%.28s', should be '%s'", st, (char *)(g + 6), w.c_str());
    if (y >= 100) { int md = 4, z = 0, s2 = -7; g[13] = -7; if (via) { newdate_(&s2, g, &z, &md); } else s2 = idatmg2_(g); if ((s2 != st || g[13] != st) && !(dt == 19010101 && sec == 3600)) BAD("stamp %d to date array and back: %d, %d", st, s2, g[13]); }
    if (y >= 1900 && y < 2000) { g[3] -= 1900; int s2 = idatmg2_(g); if (s2 != st && !(dt == 19010101 && sec == 3600)) BAD("stamp %d from a date array with a two-digit year: %d", st, s2); } }
  int j, i1, i2, i3, jj, mm = m, ddd = d, yy = y; jdatec_(&j, &yy, &mm, &ddd); if (j != day + 1721060) BAD("julian day of %d: %d", dt, j); jj = j; datec_(&jj, &i1, &i2, &i3); if (i1 != y || i2 != m || i3 != d) BAD("date of julian day %d: %d %d %d", j, i1, i2, i3);
}
// ---- calendars: an instant as seconds since year 0 in calendar k (0 gregorian, 1: 365 days, 2: 360 days)
static int CAL; static const char *CN[] = {"gregorian", "365_day", "360_day"};
static bool tocal(const T &t, L &s) { // false if the date does not exist in that calendar
  int y, m, d; civil(t.day, y, m, d); L n;
  if (CAL == 0) n = t.day; else if (CAL == 1) { if (m == 2 && d == 29) return false; n = y * 365LL + CUM[0][m] + d - 1; }
  else { if ((m == 2 && d > 28) || (m > 4 && d > 30)) return false; int q; // position in the year: January 30 days + the 31st, February 28, March all: 90 days in three months
    if (m <= 3) q = CUM[0][m] + d - 1; else q = (m - 1) * 30 + d - 1; n = y * 360LL + q; }
  s = n * 86400 + t.sec; return true;
}
static bool fromcal(L s, T &t) {
  if (s < 0) return false; L n = s / 86400; t.sec = s % 86400;
  if (CAL == 0) t.day = n; else { int len = CAL == 1 ? 365 : 360; L y = n / len; int q = n % len, m = 1, d; if (CAL == 1 || q < 90) { while (q >= ML[0][m]) q -= ML[0][m++]; d = q + 1; } else { m = q / 30 + 1; d = q % 30 + 1; } if (y > 9999) return false; t.day = dayno(y, m, d); }
  return t.day < D10K;
}
static int mkstamp(const T &t) { int a = -7, b = dt8(t.day), c = tm8(t.sec); nd(a, b, c, 3); return a; }
static string ts(const T &t) { return fmt("%08d.%06d", dt8(t.day), tm8(t.sec) / 100); }
static bool basicd(const T &t) { return t.day >= D1900 && t.day < D2236; }
static L rnd(L s) { return (s + 1800) / 3600 * 3600; } // to the nearest hour
static void inc(const T &t0, double h, bool rounding) {
  T t1 = t0; if (!basicd(t1) || t1.day < D1980) t1.sec = t1.sec / 3600 * 3600; int s0 = mkstamp(t1); T d0; int run; if (!decode(s0, d0, run)) return; L c0, c1; T want; int res = -7, in = s0; double hh = h; trans(); eval();
  if (rounding) incdati_(&res, &in, &hh); else incdatr_(&res, &in, &hh);
  if (in != s0 || hh != h) BAD("increment changes its inputs: %d %g", in, hh);
  if (!tocal(d0, c0)) return; // a date that does not exist in the calendar
  L add = llround(h * 720) * 5; bool coarse = rounding || d0.day < D1980; if (coarse) { c0 = s0 >= 0 && rounding ? rnd(c0) : c0; add = llround(h) * 3600; }
  bool ok = fabs(h) < 1e9 && fromcal(c0 + add, want); T g; bool gok = decode(res, g, run);
  bool basic = ok && basicd(d0) && basicd(want);
  if (ok && basic && want.day < D1980 && want.sec % 3600) { if (res == 101010101 && (d0.sec % 3600 || h != floor(h))) { outcome("refused: fraction of an hour before 1980"); return; } basic = false; }
  if (ok && !basic) { // the result has a resolution of one hour
    L x; T u; if (res == 101010101 && !fromcal(c0 + add + 3600, u)) return; if (!gok) BAD("%s plus %.9g hours (%s): stamp %d, should be near %s", ts(d0).c_str(), h, CN[CAL], res, ts(want).c_str()); if (!tocal(g, x) || llabs(x - (c0 + add)) > 3600 + (h != floor(h) ? 1800 : 0) || (h == floor(h) && d0.sec % 3600 == 0 && x != c0 + add)) { BAD("%s plus %.9g hours (%s): %s, should be %s", ts(d0).c_str(), h, CN[CAL], ts(g).c_str(), ts(want).c_str()); } outcome("extended"); return; }
  if (!ok) { if (res != 101010101) BAD("%s plus %.9g hours (%s): stamp %d, should be refused", ts(d0).c_str(), h, CN[CAL], res); outcome("refused"); return; }
  if (!gok || !(g == want) || run || (res != mkstamp(want) && !(dt8(want.day) == 19010101 && want.sec == 3600))) BAD("%s plus %.9g hours (%s%s): stamp %d = %s, should be %s", ts(d0).c_str(), h, CN[CAL], rounding ? ", rounded" : "", res, gok ? ts(g).c_str() : "?", ts(want).c_str());
  outcome("in range");
}
static void dif(const T &a0, const T &b0, bool rounding) {
  T a = a0, b = b0; for (T *t : {&a, &b}) if (!basicd(*t) || t->day < D1980) t->sec = t->sec / 3600 * 3600; int sa = mkstamp(a), sb = mkstamp(b), ia = sa, ib = sb; L ca, cb; double h = -7; trans(); eval();
  if (rounding) difdati_(&ia, &ib, &h); else difdatr_(&ia, &ib, &h); if (ia != sa || ib != sb) BAD("difference changes its inputs");
  T da, db; int run; decode(sa, da, run); decode(sb, db, run); if (!tocal(da, ca) || !tocal(db, cb)) return;
  double want; bool ext = sa < -1 || sb < -1; if (ext) { ca = ca / 3600 * 3600; cb = cb / 3600 * 3600; want = (ca - cb) / 3600.; } else if (rounding) want = (rnd(ca) - rnd(cb)) / 3600.; else want = (ca - cb) / 3600.;
  if (fabs(h - want) > 1e-6 * (1 + fabs(want) * 1e-3)) BAD("%s minus %s (%s%s): %.9g hours, should be %.9g", ts(da).c_str(), ts(db).c_str(), CN[CAL], rounding ? ", rounded" : "", h, want);
}
static void setcal(int k) { CAL = k; string v = string("year=") + CN[k]; vector<char> b(v.begin(), v.end()); newdate_options_(b.data(), "set", b.size(), 3); }
static string getcal() { char b[16]; memset(b, ' ', 16); memcpy(b, "year", 4); newdate_options_(b, "get", 16, 3); string r(b, 16); while (r.size() && r.back() == ' ') r.pop_back(); return r; }

int main(int argc, char **argv) {
  init(argc, argv); for (int l = 0; l < 2; l++) for (int m = 1; m <= 12; m++) CUM[l][m + 1] = CUM[l][m] + ML[l][m];
  int TIMES[] = {0, 3600, 82800, 5, 3595, 86395, 43200 + 61 * 5};
  // every day of years 0 to 9999
  for (int y0 = 0; y0 < 10000; y0 += 50) { if (!begin("all days of years %d to %d", y0, y0 + 49)) continue; good = true;
    for (L d = ydays(y0); d < ydays(y0 + 50) && good; d++) { for (int s : TIMES) { instant(d, s); if (!good) break; } instant(d, (int)(d % 24) * 3600); if (good) group(d, (int)(d % 17280) * 5); state(hash(&d, 8)); } }
  // every hour of 1900 to 2235, with the run numbers
  for (int y0 = 1900; y0 < 2236; y0 += 2) { if (!begin("all hours of %d and %d", y0, y0 + 1)) continue; good = true; for (L d = ydays(y0); d < ydays(y0 + 2) && good; d++) for (int h = 0; h < 24 && good; h++) { instant(d, h * 3600); if (thorough && good) group(d, h * 3600 + 5 * (int)(d % 720)); } }
  // every 5-second interval: of the days where something changes (quick), of all days since 1980 (thorough)
  { vector<L> ds; for (L y : {0, 4, 1582, 1899, 1900, 1901, 1979, 1980, 1999, 2000, 2004, 2100, 2235, 2236, 9999}) { ds.push_back(ydays(y)); ds.push_back(ydays(y + 1) - 1); ds.push_back(dayno(y, 2, 28)); ds.push_back(dayno(y, 3, 1) - 1); }
    for (L d : ds) { if (!begin("all seconds of %08d", dt8(d))) continue; good = true; for (int s = 0; s < 86400 && good; s++) instant(d, s); if (good) for (int s = 0; s < 86400 && good; s += 5) group(d, s); } }
  if (thorough) for (L v = 0; v < TDMAX; v += 17280 * 366) { if (!begin("true dates %lld to %lld", v, v + 17280 * 366)) continue; good = true; for (L k = v; k < v + 17280 * 366 && good; k++) truedate(k); }
  // every integer: stamps, true dates, extended true dates
  { struct R { L a, b; }; vector<R> st = {{-2147483647LL - 1, -2147483648LL + 300000}, {-1294967296 - 300000, -1294967296 + 2000000}, {-1294967296 + 107572750, -1294967296 + 109772750}, {-20000, 123200000 + 3000000}, {2142843190 - 3000000, 2147483647}};
    if (thorough) st = {{-2147483648LL, 2147483647}};
    for (auto &r : st) for (L v = r.a; v <= r.b; v += 2000000) { if (!begin("stamps from %lld", v)) continue; good = true; for (L k = v; k < v + 2000000 && k <= r.b && good; k++) stamp((int)k); }
    vector<R> td = {{-2147483648LL, -2147483648LL + 300000}, {TD1900 - 300000, TD1900 + 1000000}, {-200000, 1000000}, {126230400 - 20000, 126230400 + 20000}, {TDMAX - 1000000, TDMAX + 1000000}, {2147483647LL - 1000000, 2147483647}};
    if (thorough) td = {{-2147483648LL, -1}, {TDMAX, 2147483647}};
    for (auto &r : td) for (L v = r.a; v <= r.b; v += 2000000) { if (!begin("true dates from %lld", v)) continue; good = true; for (L k = v; k < v + 2000000 && k <= r.b && good; k++) truedate(k); }
    vector<R> et = {{-2147483648LL, -2147483648LL + 300000}, {-300000, 300000}, {D1900 * 24 - 20000, D1900 * 24 + 20000}, {D2236 * 24 - 20000, D2236 * 24 + 20000}, {D10K * 24 - 300000, D10K * 24 + 300000}, {2147483647LL - 300000, 2147483647}};
    if (thorough) et = {{-2147483648LL, -2147483648LL + 300000000}, {-300000, D10K * 24 + 3000000}, {1800000000, 2147483647}};
    for (auto &r : et) for (L v = r.a; v <= r.b; v += 2000000) { if (!begin("extended true dates from %lld", v)) continue; good = true; for (L k = v; k < v + 2000000 && k <= r.b && good; k++) exttrue(k); } }
  // every printable date, valid or not
  for (L y = -1; y <= 10001; y += (thorough || (y > 1890 && y < 2240)) ? 1 : 13) { if (!begin("printable dates of year %lld", y)) continue; good = true; for (int m = 0; m < 20 && good; m++) for (int d = 0; d < 40 && good; d++) for (int h : {0, 1, 23, 24, 30, 99}) { printable(y, m, d, h); if (!good) break; } }
  for (L y : {11900, 12000, 20000, 99999, 119800, 121990, 201999, 211900, 214747}) { if (!begin("printable dates of year %lld", y)) continue; good = true; printable(y, 1, 1, 0); printable(y, 12, 31, 12); }
  // invalid modes
  if (begin("modes")) { good = true; for (int m = -30; m <= 30; m++) if (m < -7 || m == 0 || m > 7) { int a = 0, b = 20000101, c = 0; int k = m; eval(); if (newdate_(&a, &b, &c, &k) != 1) fail("mode %d is accepted", m); } }
  // increments and differences
  vector<T> D; auto add = [&](int y, int m, int d, int s) { D.push_back({dayno(y, m, d), s}); };
  { int S[] = {0, 3600, 82800, 1795, 1800, 86395, 5}; int Y[] = {0, 3, 4, 100, 400, 1581, 1896, 1899, 1900, 1901, 1904, 1979, 1980, 1981, 1984, 1996, 1999, 2000, 2001, 2004, 2099, 2100, 2104, 2234, 2235, 2236, 2400, 5000, 9996, 9999};
    for (int y : Y) { int k = 0; for (auto md : {101, 102, 131, 201, 227, 228, 229, 301, 302, 331, 430, 501, 530, 630, 1130, 1229, 1230, 1231}) { int m = md / 100, d = md % 100; if (!okdate(y, m, d)) continue; for (int s : S) if (thorough || s == 0 || md == 228 || md == 301 || s == S[1 + k % 6]) add(y, m, d, s); k++; } } }
  vector<double> H = {0, 1, 2, 6, 23, 24, 25, 48, 24 * 27, 24 * 28, 24 * 29, 24 * 30, 24 * 31, 24 * 58, 24 * 59, 24 * 60, 24 * 90, 24 * 359, 24 * 360, 24 * 361, 24 * 364, 24 * 365, 24 * 366, 24 * 730, 24 * 1460, 24 * 1461, 24 * 3652, 24 * 36524, 24 * 146097, 24 * 1460000, 24 * 3000000., 24 * 3652424., 24 * 3652425., 87658200 - 24., 1e8, 3e9, 1e12, 1e300, 1. / 720, 0.5, 0.25, 1.5, 2.5, 23.75, 719. / 720, 719.5, 8759.5, 8783 + 1 / 3.};
  if (thorough) for (int k = 3; k < 800; k += 1) H.push_back(k * 24 + (k % 24));
  for (int cal = 0; cal < 3; cal++) {
    for (size_t i = 0; i < D.size(); i += 8) { if (!begin("increments of %s and the 7 next, %s", ts(D[i]).c_str(), CN[cal])) continue; isolated([&] { good = true; setcal(cal); if (getcal() != CN[cal]) { fail("calendar %s reads back as %s", CN[cal], getcal().c_str()); return; }
      for (size_t k = i; k < i + 8 && k < D.size(); k++) for (double h : H) for (int sg = -1; sg < 2; sg += 2) for (int r = 0; r < 2; r++) { inc(D[k], sg * h, r); if (!good) return; } }); }
    for (size_t i = 0; i < D.size(); i += 16) { if (!begin("differences with %s and the 15 next, %s", ts(D[i]).c_str(), CN[cal])) continue; isolated([&] { good = true; setcal(cal); for (size_t k = i; k < i + 16 && k < D.size(); k++) for (auto &b : D) for (int r = 0; r < 2; r++) { dif(D[k], b, r); if (!good) return; } }); }
    if (thorough || cal) for (int y : {1895, 1899, 1979, 1999, 2003, 2095, 2231}) { if (!begin("all days of 9 years from %d, %s", y, CN[cal])) continue; isolated([&] { good = true; setcal(cal); for (L d = ydays(y); d < ydays(y + 9); d++) for (int k = 0; k < 800; k += thorough ? 1 : 61) for (int sg = -1; sg < 2; sg += 2) { inc({d, 0}, sg * k * 24. + sg * (k % 24), false); if (!good) return; if (k % 61 == 0 && d + sg * k > 0) { dif({d, 7200}, {d + sg * k, 0}, false); if (!good) return; } } }); }
  }
  if (begin("differences and increments of stamps that are no dates")) isolated([&] { for (int s : {-1, 0, 13, 1, 10100240, 22990000, 22900000, 123139900, 43100100 - 100, 2147483647, -2147483647 - 1, -2}) { T t; int run; if (decode(s, t, run)) continue; double h = -7, h1 = 1; int ok = 10100000 + 80000, x = s, r = -7; eval(); 
      difdatr_(&x, &ok, &h); if (h != 1073741824.) { fail("difference between stamp %d and a date: %g", s, h); return; } h = -7; difdati_(&ok, &x, &h); if (h != 1073741824.) { fail("difference between a date and stamp %d: %g", s, h); return; } incdatr_(&r, &x, &h1); if (r != 101010101) { fail("stamp %d plus an hour: %d", s, r); return; } r = -7; incdati_(&r, &x, &h1); if (r != 101010101) { fail("stamp %d plus an hour, rounded: %d", s, r); return; }
      int g[14]; g[13] = s; datmgp2_(g); if (g[1] != 10 || g[2] != 10 || g[3] != 1910 || g[4] != 10 || g[5] != 0) { fail("date array of stamp %d is %d-%d-%d %d", s, g[3], g[1], g[2], g[4]); return; } } });
  // options: every history of settings, and the environment
  { struct O { const char *v; int to; }; O os[] = {{"year=365_day", 1}, {"year=360_day", 2}, {"year=gregorian", 0}, {"YEAR=365_DAY", 1}, {"debug,year=360_day", 2}, {"year=370_day", -1}, {"debug", -1}, {nullptr, 1}, {nullptr, 0}}; int n = 9;
    const char *env[] = {nullptr, "year=360_day", "debug,YEAR=365_day", "year=gregorian", "debug", "year=12"}; int ef[] = {-1, 2, 1, 0, -1, -1};
    for (int e = 0; e < 6; e++) for (int h = 0; h < n * n * n; h++) { if (!begin("options %d %d %d, environment %s", h / n / n, h / n % n, h % n, env[e] ? env[e] : "unset")) continue; isolated([&] { if (!freopen("/dev/null", "w", stdout)) return; if (env[e]) setenv("NEWDATE_OPTIONS", env[e], 1); else unsetenv("NEWDATE_OPTIONS"); int cur = ef[e] < 0 ? 0 : ef[e];
        for (int k = 0, q = h; k < 3; k++, q /= n) { O &o = os[q % n]; if (o.v) { string s = o.v; vector<char> b(s.begin(), s.end()); newdate_options_(b.data(), k == 1 ? "SET" : "set", b.size(), 3); if (string(b.begin(), b.end()) != s) { fail("setting changes its argument"); return; } } else if (o.to) ignore_leapyear_(); else accept_leapyear_(); trans();
          if (o.to >= 0 && ef[e] < 0) cur = o.to; int a = -7, b = -7, c = -7; get_calendar_status_(&a, &b); get_leapyear_status_(&c); eval(); state(hash(&h, 4) + k);
          if (getcal() != CN[cur] || !!a != (cur > 0) || !!b != (cur == 2) || !!c != (cur > 0)) { fail("after %d settings the calendar is %s (%d %d %d), should be %s", k + 1, getcal().c_str(), a, b, c, CN[cur]); return; } } }); } }
  return done();
}
