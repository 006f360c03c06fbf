// Native build only: harness API driven by a values file, on the real file system and libraries.
#include "gs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <iostream>
#include <sstream>
#include <new>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
namespace { struct Rec { char k; std::string name,val; int bits; }; std::vector<Rec> recs; size_t pos; std::map<std::string,uint64_t> params; int failed; std::string scratch; }
static std::string us(const char*n){ std::string s(n); for(auto&c:s) if(c==' ') c='_'; return s; }
static Rec* take(char k,const char*n){ if(pos>=recs.size()||recs[pos].k!=k||recs[pos].name!=us(n)){ printf("DESYNC %s (have %s)\n",n,pos<recs.size()?recs[pos].name.c_str():"none"); fflush(stdout); _exit(failed?42:43); } return &recs[pos++]; }
static unsigned long live;
void* operator new(size_t n){ void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); live++; return p; } void* operator new[](size_t n){ return operator new(n); }
void operator delete(void*p) noexcept { if(p) live--; free(p); } void operator delete[](void*p) noexcept { operator delete(p); } void operator delete(void*p,size_t) noexcept { operator delete(p); } void operator delete[](void*p,size_t) noexcept { operator delete(p); }
extern "C" {
uint64_t gs_sym(const char*n,int){ return strtoull(take('S',n)->val.c_str(),0,10); }
int gs_choice(const char*n,int){ return atoi(take('S',n)->val.c_str()); }
void gs_bytes(void*p,size_t n,const char*nm){ Rec*r=take('B',nm); for(size_t i=0;i<n&&2*i+1<r->val.size();i++) ((unsigned char*)p)[i]=(unsigned char)strtoul(r->val.substr(2*i,2).c_str(),0,16); }
void gs_assume(int c){ if(!c){ printf("ASSUME\n"); fflush(stdout); _exit(failed?42:43); } }
void gs_check(int c,const char*l){ if(!c){ printf("CHECKFAIL %s\n",l); fflush(stdout); failed=1; } }
void gs_cover(const char*){}
void gs_log(const char*n,uint64_t v){ printf("LOG %s %llu\n",us(n).c_str(),(unsigned long long)v); }
void gs_log_bytes(const char*n,const void*p,size_t k){ printf("LOG %s ",us(n).c_str()); for(size_t i=0;i<k;i++) printf("%02x",((const unsigned char*)p)[i]); printf("\n"); }
uint64_t gs_conc(uint64_t v){ return v; }
uint64_t gs_param(const char*n,uint64_t d){ auto i=params.find(n); return i!=params.end()?i->second:d; }
void gs_unsupported(const char*w){ printf("UNSUPPORTED %s\n",w); fflush(stdout); _exit(failed?42:43); }
void gs_end_path(const char*){ fflush(stdout); _exit(failed?42:0); }
uint64_t gs_heap_live(void){ return live; }
void gs_print(const char*s){ printf("# %s\n",s); }
const char* gs_path(const char*n){ std::string s=scratch+"/"+n; return strdup(s.c_str()); }
void gs_put_file(const char*p,const void*d,size_t n){ FILE*f=fopen(p,"wb"); if(n) fwrite(d,1,n,f); fclose(f); }
long gs_file_size(const char*p){ struct stat st; if(stat(p,&st)||S_ISDIR(st.st_mode)) return -1; return st.st_size; }
long gs_get_file(const char*p,void*b,long max){ struct stat st; if(stat(p,&st)||S_ISDIR(st.st_mode)) return -1; FILE*f=fopen(p,"rb"); if(!f) return -1; long n=fread(b,1,max,f); fclose(f); return n; }
void gs_file_limit(long n){ signal(SIGXFSZ,SIG_IGN); fflush(stdout); struct rlimit r; getrlimit(RLIMIT_FSIZE,&r); r.rlim_cur=n<0?r.rlim_max:(rlim_t)n; setrlimit(RLIMIT_FSIZE,&r); }
void gs_make_dir(const char*p){ mkdir(p,0755); }
static int cnt(const std::string&d){ int c=0; DIR*D=opendir(d.c_str()); if(!D) return 0; while(dirent*e=readdir(D)){ if(!strcmp(e->d_name,".")||!strcmp(e->d_name,"..")) continue; std::string p=d+"/"+e->d_name; struct stat st; if(stat(p.c_str(),&st)) continue; if(S_ISDIR(st.st_mode)) c+=cnt(p); else c++; } closedir(D); return c; }
int gs_count_files(void){ return cnt(scratch); }
static int capFd=-1; static FILE*capF;
void gs_capture(void){ fflush(stdout); std::cout.flush(); capF=tmpfile(); capFd=dup(1); dup2(fileno(capF),1); }
size_t gs_captured(char*b,size_t max){ fflush(stdout); std::cout.flush(); dup2(capFd,1); close(capFd); rewind(capF); size_t n=fread(b,1,max,capF); fclose(capF); return n; }
int gs_native(void){ return 1; }
unsigned long gs_values_pos(void){ return pos; } void gs_values_skip(unsigned long p){ pos=p; }
int gs_is_symbolic(uint64_t){ return 0; }
void gs_set_env(const char*n,const char*v){ if(v) setenv(n,v,1); else unsetenv(n); }
struct E{ const char*n; void(*f)(); }; extern E gs_entries[];
}
static void exactSqlite();
int main(int c,char**v){ if(c<3) return 2; exactSqlite(); if(getenv("GS_SCRATCH")) scratch=getenv("GS_SCRATCH"); std::ifstream f(v[2]); std::string line; while(std::getline(f,line)){ std::istringstream s(line); char k; s>>k; Rec r; r.k=k; if(k=='P'){ std::string n; uint64_t x; s>>n>>x; params[n]=x; continue; } s>>r.name; if(k=='S') s>>r.bits>>r.val; else { s>>r.val; if(r.val=="-") r.val=""; } recs.push_back(r); }
  for(E*e=gs_entries;e->n;e++) if(!strcmp(e->n,v[1])){ e->f(); fflush(stdout); _exit(failed?42:0); }
  printf("no entry\n"); return 2; }
#include <sqlite3.h>
// SQLite takes exactly the memory asked for, so that ASan sees accesses beyond it
#include <malloc.h>
static void* mMalloc(int n){ return malloc(n); } static void* mRealloc(void*p,int n){ return realloc(p,n); } static int mSize(void*p){ return p?(int)malloc_usable_size(p):0; } static int mRound(int n){ return n; } static int mInit(void*){ return 0; } static void mEnd(void*){}
static void exactSqlite(){ static sqlite3_mem_methods m={mMalloc,free,mRealloc,mSize,mRound,mInit,mEnd,nullptr}; sqlite3_config(SQLITE_CONFIG_MALLOC,&m); }
// stand-in for libgpkg: the functions the drivers and GeoPackage triggers use
static void initMeta(sqlite3_context*c,int,sqlite3_value**){ const char*sql=
#include "gpkg_meta.inc"
; int rc=sqlite3_exec(sqlite3_context_db_handle(c),sql,0,0,0); if(rc) sqlite3_result_error(c,"metadata",-1); else sqlite3_result_null(c); }
static void isEmpty(sqlite3_context*c,int,sqlite3_value**v){ sqlite3_result_int(c,sqlite3_value_bytes(v[0])==0); }
extern "C" int sqlite3_gpkg_auto_init(sqlite3*db,const char**,const void*){ int rc=sqlite3_create_function(db,"InitSpatialMetadata",1,SQLITE_UTF8,0,initMeta,0,0); if(!rc) rc=sqlite3_create_function(db,"ST_IsEmpty",1,SQLITE_UTF8,0,isEmpty,0,0); return rc; }
