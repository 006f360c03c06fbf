/* stand-in: libgpkg is not available offline; the drivers only pass this function to sqlite3_auto_extension-like calls */
#pragma once
#include <sqlite3.h>
#ifdef __cplusplus
extern "C"
#endif
int sqlite3_gpkg_auto_init(sqlite3 *db, char **pzErrMsg, const sqlite3_api_routines *pThunk);
