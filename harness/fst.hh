// Standard-file API and a small record model shared by the F* harnesses
#ifndef FST_HH
#define FST_HH
#include "vh.h"
extern "C" {
int c_fnom(int *, const char *, const char *, int); int c_fclos(int);
int c_fstouv(int, const char *); int c_fstfrm(int); int c_fstnbr(int); int c_fstnbrv(int); int c_fstckp(int);
int c_fstecr(void *, void *, int, int, int, int, int, int, int, int, int, int, int, const char *, const char *, const char *, const char *, int, int, int, int, int, int);
int c_fstinf(int, int *, int *, int *, int, const char *, int, int, int, const char *, const char *);
int c_fstinfx(int, int, int *, int *, int *, int, const char *, int, int, int, const char *, const char *);
int c_fstsui(int, int *, int *, int *);
int c_fstinl(int, int *, int *, int *, int, const char *, int, int, int, const char *, const char *, int *, int *, int);
int c_fstlir(void *, int, int *, int *, int *, int, const char *, int, int, int, const char *, const char *);
int c_fstlirx(void *, int, int, int *, int *, int *, int, const char *, int, int, int, const char *, const char *);
int c_fstlis(void *, int, int *, int *, int *);
int c_fstluk(void *, int, int *, int *, int *);
int c_fstlic(void *, int, int, int, int, int, const char *, int, int, int, const char *, const char *, int, int, int, int, const char *);
int c_fstprm(int, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, char *, char *, char *, char *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *);
int c_fsteff(int); int c_fst_edit_dir(int, unsigned, int, int, int, int, int, int, int, int, const char *, const char *, const char *, const char *, int, int, int, int, int);
int c_fst_edit_dir_plus(int, unsigned, int, int, int, int, int, int, int, int, const char *, const char *, const char *, const char *, int, int, int, int, int);
int c_fstmsq(int, int *, int *, int *, char *, int); int c_fst_data_length(int);
int c_fstopc(const char *, const char *, int); int c_fstopi(const char *, int, int); int c_fstopl(const char *, int, int);
int c_fstcheck(const char *); int c_xdfcheck(const char *); int c_xdflnk(int *, int); int c_xdfunl(int); int c_xdfuse(const char*);
int c_fstrwd(int); int c_fstskp(int, int); int c_fsteof(int); int c_fstweo(int, int); int c_fstapp(int, const char *);
int c_fstvoi(int, const char *);
int c_wkoffit(const char *, int);
}
namespace fst {
using std::string;
struct Meta {
  int dateo, deet, npas, ni, nj, nk, nbits, datyp, ip1, ip2, ip3; string typvar, nomvar, etiket, grtyp; int ig1, ig2, ig3, ig4, swa, lng, dltf, ubc, datev;
};
static inline string rtrim(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static inline int prm(int h, Meta &m) {
  char t[3] = "  ", n[5] = "    ", e[13] = "            ", g[2] = " "; int x2, x3;
  int r = c_fstprm(h, &m.dateo, &m.deet, &m.npas, &m.ni, &m.nj, &m.nk, &m.nbits, &m.datyp, &m.ip1, &m.ip2, &m.ip3, t, n, e, g, &m.ig1, &m.ig2, &m.ig3, &m.ig4, &m.swa, &m.lng, &m.dltf, &m.ubc, &m.datev, &x2, &x3);
  m.typvar = rtrim(t); m.nomvar = rtrim(n); m.etiket = rtrim(e); m.grtyp = g;
  return r;
}
static inline string str(const Meta &m) {
  return vh::fmt("%d/%d dateo=%d deet=%d npas=%d %dx%dx%d nb=%d dt=%d ip=%d,%d,%d '%s' '%s' '%s' '%s' ig=%d,%d,%d,%d", m.datev, 0, m.dateo, m.deet, m.npas, m.ni, m.nj, m.nk, m.nbits, m.datyp, m.ip1, m.ip2, m.ip3, m.typvar.c_str(), m.nomvar.c_str(), m.etiket.c_str(), m.grtyp.c_str(), m.ig1, m.ig2, m.ig3, m.ig4);
}
static inline int opn(const char *f, const char *type, const char *mode) {
  int iun = 0; if (c_fnom(&iun, f, type, 0) < 0) return -1000;
  int r = c_fstouv(iun, mode); if (r < 0) { c_fclos(iun); return r < 0 ? r : -1; }
  return iun;
}
static inline int cls(int iun) { int r = c_fstfrm(iun), q = c_fclos(iun); return r < 0 ? r : q < 0 ? q : 0; }
}
#endif
