/* Stand-in for the App submodule's App.h (App is an empty directory here).
 * Only logging is used by librmn; the stub discards messages unless
 * VERIF_LOG is set in the environment, and never exits the process. */
#ifndef VERIF_APPSTUB_H
#define VERIF_APPSTUB_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
typedef enum { APP_MAIN=0, APP_LIBRMN=1, APP_LIBFST=2, APP_LIBWB=3, APP_LIBGMM=4, APP_LIBVGRID=5,
               APP_LIBINTERPV=6 } TApp_Lib;
typedef enum { APP_VERBATIM=-1, APP_ALWAYS=0, APP_FATAL=1, APP_SYSTEM=2, APP_ERROR=3, APP_WARNING=4,
               APP_INFO=5, APP_STAT=6, APP_TRIVIAL=7, APP_DEBUG=8, APP_EXTRA=9, APP_QUIET=10 } TApp_LogLevel;
typedef struct { int LogLevel[16]; } TApp;
extern TApp *App;
void Lib_Log(TApp_Lib lib, TApp_LogLevel level, const char *fmt, ...);
int  Lib_LogLevel(TApp_Lib lib, char *level);
int  Lib_LogLevelNo(TApp_Lib lib, TApp_LogLevel level);
#endif
