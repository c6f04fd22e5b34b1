/* Stand-in for the App submodule's header, which is absent from the tree.
 * Declarations only: just enough to type-check librmn sources for analysis. */
#ifndef VERIF_APP_H
#define VERIF_APP_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { APP_MAIN=0, APP_LIBRMN=1, APP_LIBFST=2, APP_LIBWB=3, APP_LIBGMM=4, APP_LIBVGRID=5, APP_LIBINTERPV=6, APP_LIBGEOREF=7, APP_LIBRPNMPI=8, APP_LIBIRIS=9 } TApp_Lib;
typedef enum { APP_VERBATIM=-1, APP_ALWAYS=0, APP_FATAL=1, APP_SYSTEM=2, APP_ERROR=3, APP_WARNING=4, APP_INFO=5, APP_TRIVIAL=6, APP_DEBUG=7, APP_EXTRA=8, APP_QUIET=9 } TApp_LogLevel;
typedef struct { int LogLevel[16]; int LibsVersionN; const char *LibsVersion[16]; } TApp;
extern TApp *App;
void Lib_Log(TApp_Lib Lib, TApp_LogLevel Level, const char *Format, ...) __attribute__((format(printf,3,4)));
int  Lib_LogLevel(TApp_Lib Lib, const char *Val);
int  Lib_LogLevelNo(TApp_Lib Lib, TApp_LogLevel Val);
#ifdef __cplusplus
}
#endif
#endif
