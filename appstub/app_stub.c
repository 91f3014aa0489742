#include <stdarg.h>
#include <string.h>
#include "App.h"
static TApp app_instance = {{3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3}};
TApp *App = &app_instance;
#define lvl app_instance.LogLevel
long verif_log_count[16];
void Lib_Log(TApp_Lib lib, TApp_LogLevel level, const char *fmt, ...) {
    static int on = -1;
    if (on < 0) on = getenv("VERIF_LOG") != NULL;
    if ((int)level >= 0 && (int)level < 16) verif_log_count[level]++;
    if (on) { va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); }
}
int Lib_LogLevel(TApp_Lib lib, char *level) {
    static const char *n[] = {"ALWAYS","FATAL","SYSTEM","ERROR","WARNING","INFO","STAT","TRIVIAL","DEBUG","EXTRA","QUIET"};
    int old = lvl[lib & 15];
    if (level) for (int i = 0; i < 11; i++) if (!strncasecmp(level, n[i], strlen(n[i]))) lvl[lib & 15] = i;
    return old;
}
int Lib_LogLevelNo(TApp_Lib lib, TApp_LogLevel level) { int old = lvl[lib & 15]; lvl[lib & 15] = level; return old; }
