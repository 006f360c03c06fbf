// Symbolic build only: in-memory file system behind stdio and stat.
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <sys/stat.h>
#include <new>
#include "gs.h"
#include "rt.h"
#include "gs_iostream_base.h"
struct GFile { char name[300]; unsigned char*d; long n,cap; bool used,dir; };
static const int NF=96; static GFile F[NF]; static long gLimit=-1; static bool inited;
static void init(){ if(inited) return; inited=true; const char*dirs[]={"/gs","/tmp","/gs/tmp"}; for(int i=0;i<3;i++){ strcpy(F[i].name,dirs[i]); F[i].used=F[i].dir=true; } }
static int find(const char*p){ init(); char b[300]; size_t n=strlen(p); if(n>=sizeof b) return -1; size_t k=0; for(size_t i=0;i<n;i++){ if(p[i]=='/'&&k&&b[k-1]=='/') continue; b[k++]=p[i]; } bool slash=k>1&&b[k-1]=='/'; if(slash) k--; b[k]=0; for(int i=0;i<NF;i++) if(F[i].used&&!strcmp(F[i].name,b)) return (slash&&!F[i].dir)?-1:i; return -1; }
static bool parentOk(const char*p){ char b[300]; strcpy(b,p); char*s=strrchr(b,'/'); if(!s) return true; if(s==b) return true; *s=0; int i=find(b); return i>=0&&F[i].dir; }
static int create(const char*p,bool dir){ init(); if(strlen(p)>=300||!*p) return -1; for(int i=0;i<NF;i++) if(!F[i].used){ memset(&F[i],0,sizeof F[i]); size_t n=strlen(p),k=0; for(size_t j=0;j<n;j++){ if(p[j]=='/'&&k&&F[i].name[k-1]=='/') continue; F[i].name[k++]=p[j]; } F[i].name[k]=0; F[i].used=true; F[i].dir=dir; return i; } gs_unsupported("too many files"); return -1; }
// writes data at offset, honouring the size limit; returns bytes written
static long fwriteAt(GFile*f,long off,const void*p,long n){ long m=n; if(gLimit>=0&&off+n>gLimit){ m=gs_is_symbolic((uint64_t)gLimit)?0:gLimit>off?gLimit-off:0; } if(m>0){ if(off+m>f->cap){ long nc=(off+m)*2+64; unsigned char*q=(unsigned char*)malloc(nc); if(f->n) memcpy(q,f->d,f->n); free(f->d); f->d=q; f->cap=nc; } if(off>f->n) memset(f->d+f->n,0,off-f->n); memcpy(f->d+off,p,m); if(off+m>f->n) f->n=off+m; } return m; }
struct GStream { int magic; int fi; long pos; bool rd,wr,app,err,eof; unsigned char*wb; long wn,wcap; int unget; };
static const int MAGIC=0x46494c45;
static GStream* gst(FILE*f){ GStream*s=(GStream*)f; return s; }
static bool flushS(GStream*s){ if(!s->wn) return true; GFile*f=&F[s->fi]; if(s->app) s->pos=f->n; long k=fwriteAt(f,s->pos,s->wb,s->wn); s->pos+=k; bool ok=k==s->wn; if(!ok){ s->err=true; errno=EFBIG; } s->wn=0; return ok; }
extern "C" {
void (*gs_open_hook)(const char*)=0;
FILE* fopen(const char*p,const char*m){ init(); if(gs_open_hook) gs_open_hook(p); bool rd=false,wr=false,app=false,tr=false; if(m[0]=='r') rd=true; else if(m[0]=='w'){ wr=true; tr=true; } else if(m[0]=='a'){ wr=true; app=true; } for(const char*q=m+1;*q;q++) if(*q=='+') rd=wr=true; int i=find(p);
  if(i<0){ size_t n=strlen(p); if(m[0]=='r'||!n||p[n-1]=='/'||!parentOk(p)){ errno=ENOENT; return 0; } i=create(p,false); if(i<0){ errno=ENOENT; return 0; } } else if(F[i].dir&&wr){ errno=EISDIR; return 0; }
  if(tr) F[i].n=0; GStream*s=(GStream*)malloc(sizeof(GStream)); memset(s,0,sizeof *s); s->magic=MAGIC; s->fi=i; s->rd=rd; s->wr=wr; s->app=app; s->unget=-1; return (FILE*)s; }
FILE* fopen64(const char*p,const char*m){ return fopen(p,m); }
int fflush(FILE*f){ if(!f||f==stdout||f==stderr) return 0; return flushS(gst(f))?0:EOF; }
int fclose(FILE*f){ GStream*s=gst(f); bool ok=flushS(s); free(s->wb); s->magic=0; free(s); return ok?0:EOF; }
static int gs_capturing; static char gs_outb[16384]; static size_t gs_outn; static void gs_toOut(const void*p,size_t n){ if(!gs_capturing||!n) return; if(gs_outn+n>sizeof gs_outb) gs_unsupported("long output"); memcpy(gs_outb+gs_outn,p,n); gs_outn+=n; }
void gs_capture(void){ gs_capturing=1; gs_outn=0; } size_t gs_captured(char*b,size_t max){ gs_capturing=0; size_t n=gs_outn<max?gs_outn:max; if(n) memcpy(b,gs_outb,n); return n; } 
size_t fwrite(const void*p,size_t z,size_t c,FILE*f){ if(f==stdout||f==stderr){ if(f==stdout) gs_toOut(p,z*c); return c; } GStream*s=gst(f); size_t n=z*c; if(!n) return 0; if(!s->wr){ s->err=true; errno=EBADF; return 0; } if(s->wn+(long)n>s->wcap){ long nc=(s->wn+n)*2+256; unsigned char*q=(unsigned char*)malloc(nc); if(s->wn) memcpy(q,s->wb,s->wn); free(s->wb); s->wb=q; s->wcap=nc; } memcpy(s->wb+s->wn,p,n); s->wn+=n; if(s->wn>=4096){ long had=s->wn-n; long before=F[s->fi].n; (void)before; long want=s->wn; if(!flushS(s)){ (void)want; (void)had; return 0; } } return c; }
size_t fread(void*p,size_t z,size_t c,FILE*f){ GStream*s=gst(f); size_t n=z*c; if(!n) return 0; if(!s->rd||F[s->fi].dir){ s->err=true; errno=F[s->fi].dir?EISDIR:EBADF; return 0; } flushS(s); size_t k=0; unsigned char*o=(unsigned char*)p; if(s->unget>=0){ o[k++]=s->unget; s->unget=-1; } GFile*g=&F[s->fi]; long av=g->n-s->pos; if(av<0) av=0; size_t m=n-k; if((size_t)av<m){ m=av; s->eof=true; } if(m) memcpy(o+k,g->d+s->pos,m); s->pos+=m; return (k+m)/z; }
int fgetc(FILE*f){ unsigned char c; return fread(&c,1,1,f)==1?c:EOF; } int getc(FILE*f){ return fgetc(f); } int ungetc(int c,FILE*f){ gst(f)->unget=c; gst(f)->eof=false; return c; }
char* fgets(char*b,int n,FILE*f){ int i=0; while(i<n-1){ int c=fgetc(f); if(c==EOF) break; b[i++]=c; if(c=='\n') break; } if(!i) return 0; b[i]=0; return b; }
int fputc(int c,FILE*f){ unsigned char x=c; return fwrite(&x,1,1,f)==1?x:EOF; } int putc(int c,FILE*f){ return fputc(c,f); } int fputs(const char*t,FILE*f){ size_t n=strlen(t); if(!n) return 0; return fwrite(t,1,n,f)==n?0:EOF; } int puts(const char*t){ gs_toOut(t,strlen(t)); gs_toOut("\n",1); return 0; } int putchar(int c){ char x=(char)c; gs_toOut(&x,1); return c; } int vprintf(const char*fm,va_list ap){ if(!gs_capturing) return 0; char b[4096]; int n=vsnprintf(b,sizeof b,fm,ap); if(n>=(int)sizeof b) gs_unsupported("long printf"); gs_toOut(b,n); return n; } int printf(const char*fm,...){ va_list ap; va_start(ap,fm); int n=vprintf(fm,ap); va_end(ap); return n; } int fprintf(FILE*f,const char*fm,...){ if(f==stderr) return 0; va_list ap; if(f==stdout){ va_start(ap,fm); int n=vprintf(fm,ap); va_end(ap); return n; } va_start(ap,fm); char b[4096]; int n=vsnprintf(b,sizeof b,fm,ap); va_end(ap); if(n>=(int)sizeof b) gs_unsupported("long fprintf"); return fwrite(b,1,n,f)==(size_t)n?n:-1; } int vfprintf(FILE*f,const char*fm,va_list ap){ if(f==stdout) return vprintf(fm,ap); if(f==stderr) return 0; char b[4096]; int n=vsnprintf(b,sizeof b,fm,ap); return fwrite(b,1,n,f)==(size_t)n?n:-1; }
int fseek(FILE*f,long o,int w){ GStream*s=gst(f); if(!flushS(s)) return -1; long b=w==SEEK_SET?0:w==SEEK_CUR?s->pos-(s->unget>=0):F[s->fi].dir?0x7fffffffffffffffL:F[s->fi].n; if(b+o<0){ errno=EINVAL; return -1; } s->unget=-1; s->pos=b+o; s->eof=false; return 0; } int fseeko(FILE*f,long o,int w){ return fseek(f,o,w); } void rewind(FILE*f){ fseek(f,0,SEEK_SET); gst(f)->err=false; }
long ftell(FILE*f){ GStream*s=gst(f); return s->pos+s->wn-(s->unget>=0); } long ftello(FILE*f){ return ftell(f); } int feof(FILE*f){ return gst(f)->eof; } int ferror(FILE*f){ return gst(f)->err; } void clearerr(FILE*f){ gst(f)->err=gst(f)->eof=false; } int fileno(FILE*){ return 3; }
int remove(const char*p){ int i=find(p); if(i<0){ errno=ENOENT; return -1; } if(F[i].dir){ size_t n=strlen(F[i].name); for(int k=0;k<NF;k++) if(F[k].used&&!strncmp(F[k].name,F[i].name,n)&&F[k].name[n]=='/'){ errno=ENOTEMPTY; return -1; } } free(F[i].d); F[i].d=0; F[i].used=false; return 0; } int unlink(const char*p){ return remove(p); }
int rename(const char*a,const char*b){ int i=find(a); if(i<0||!parentOk(b)){ errno=ENOENT; return -1; } int j=find(b); if(j==i) return 0; if(j>=0&&F[j].dir!=F[i].dir){ errno=F[j].dir?EISDIR:ENOTDIR; return -1; } if(j>=0&&remove(b)) return -1; strcpy(F[i].name,b); return 0; }
int stat(const char*p,struct stat*st){ int i=find(p); if(i<0){ errno=ENOENT; return -1; } memset(st,0,sizeof *st); st->st_size=F[i].n; st->st_mode=F[i].dir?S_IFDIR|0755:S_IFREG|0644; return 0; } int stat64(const char*p,struct stat64*st){ return stat(p,(struct stat*)st); } int lstat(const char*p,struct stat*st){ return stat(p,st); } int access(const char*p,int){ if(find(p)<0){ errno=ENOENT; return -1; } return 0; }
int mkstemp(char*t){ size_t n=strlen(t); for(int k=0;k<1000;k++){ t[n-1]=(char)('0'+k%10); t[n-2]=(char)('0'+k/10%10); t[n-3]=(char)('0'+k/100); t[n-4]=t[n-5]=t[n-6]='m'; if(find(t)<0&&parentOk(t)){ create(t,false); return 99; } } errno=EEXIST; return -1; } int close(int){ return 0; }
int mkdir(const char*p,mode_t){ if(find(p)>=0||!parentOk(p)){ errno=EEXIST; return -1; } create(p,true); return 0; }
FILE *stdout=(FILE*)1,*stderr=(FILE*)2,*stdin=(FILE*)3;
// harness side
const char* gs_path(const char*n){ char*b=(char*)malloc(strlen(n)+8); strcpy(b,"/gs/"); strcat(b,n); return b; }
void gs_put_file(const char*p,const void*d,size_t n){ int i=find(p); if(i<0) i=create(p,false); F[i].n=0; long l=gLimit; gLimit=-1; fwriteAt(&F[i],0,d,n); gLimit=l; }
long gs_file_size(const char*p){ int i=find(p); return i<0||F[i].dir?-1:F[i].n; }
long gs_get_file(const char*p,void*b,long max){ int i=find(p); if(i<0||F[i].dir) return -1; long n=F[i].n<max?F[i].n:max; if(n) memcpy(b,F[i].d,n); return n; }
void gs_file_limit(long n){ gLimit=n; }
void gs_make_dir(const char*p){ if(find(p)<0) create(p,true); }
int gs_count_files(void){ init(); int c=0; for(int i=0;i<NF;i++) if(F[i].used&&!F[i].dir) c++; return c; }
int gs_native(void){ return 0; }
static char envN[8][64],envV[8][128]; static int nEnv;
void gs_set_env(const char*n,const char*v){ for(int i=0;i<nEnv;i++) if(!strcmp(envN[i],n)){ if(v) strcpy(envV[i],v); else envN[i][0]=0; return; } if(v){ strcpy(envN[nEnv],n); strcpy(envV[nEnv],v); nEnv++; } }
char* gs_getenv(const char*n){ for(int i=0;i<nEnv;i++) if(!strcmp(envN[i],n)) return envV[i]; return 0; }
}
// console streams discard their output
namespace { struct NullBuf : std::streambuf { bool o; NullBuf(bool x):o(x){} int overflow(int c) override { char x=(char)c; if(o&&c!=-1) gs_toOut(&x,1); return c==-1?0:c; } std::gs_ssz xsputn(const char*p,std::gs_ssz n) override { if(o) gs_toOut(p,n); return n; } }; NullBuf nb(false),ob(true); }
namespace std { ostream cout(&ob), cerr(&nb), clog(&nb); istream cin(&nb); }
