#pragma once
#include <stdarg.h>
#include <stddef.h>
typedef struct { char*b; size_t cap, n; } gs_out;
#ifdef __cplusplus
extern "C" {
#endif
void gs_vformat(gs_out*o,const char*f,va_list ap,int sqlite);
char* gs_getenv(const char*n);
void gs_set_env(const char*n,const char*v);
#ifdef __cplusplus
}
#endif
