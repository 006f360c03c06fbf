// Symbolic build: the few SQLite utility functions used outside database access.
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "rt.h"
#include "gs.h"
void*sqlite3_malloc(int n){ if(n<=0) return 0; return malloc((size_t)n); }
void*sqlite3_malloc64(unsigned long n){ if(!n) return 0; return malloc(n); }
void*sqlite3_realloc(void*p,int n){ if(!p) return sqlite3_malloc(n); if(n<=0){ free(p); return 0; } return realloc(p,(size_t)n); }
void sqlite3_free(void*p){ free(p); }
char*sqlite3_vmprintf(const char*f,va_list ap){ gs_out o; va_list c; va_copy(c,ap); o.b=0; o.cap=0; o.n=0; gs_vformat(&o,f,c,1); va_end(c); size_t n=o.n+1; o.b=(char*)malloc(n); o.cap=n; o.n=0; gs_vformat(&o,f,ap,1); o.b[o.n]=0; return o.b; }
char*sqlite3_mprintf(const char*f,...){ va_list ap; va_start(ap,f); char*r=sqlite3_vmprintf(f,ap); va_end(ap); return r; }
char*sqlite3_vsnprintf(int n,char*b,const char*f,va_list ap){ if(n<=0) return b; gs_out o; o.b=b; o.cap=(size_t)n; o.n=0; gs_vformat(&o,f,ap,1); b[o.n<(size_t)n?o.n:(size_t)n-1]=0; return b; }
char*sqlite3_snprintf(int n,char*b,const char*f,...){ va_list ap; va_start(ap,f); sqlite3_vsnprintf(n,b,f,ap); va_end(ap); return b; }
int sqlite3_config(int op,...){ return 0; }
int sqlite3_initialize(void){ return 0; }
