// C37: the command line tool (the real main of geodiffinfo.cpp) over recording stand-ins of the library's functions.
#include "h.h"
#include "geodiff.h"
#include <string>
#include <vector>
int gs_tool_main(int argc,char*argv[]);
struct Call { std::string f; std::vector<const char*> a; };
static std::vector<Call> calls; static int levels,lastLevel,inits,callbacks; static int rcOf;
static int rec(const char*f,std::vector<const char*> a,int optional=-1){ Call c; c.f=f; c.a=a; calls.push_back(c); for(size_t i=0;i<a.size();i++) if(!a[i]&&(int)i!=optional) return 1; return rcOf; }
static const char VER[]="7.6.5-test";
extern "C" {
const char*GEODIFF_version(){ return VER; }
void GEODIFF_init(){ inits++; }
void GEODIFF_setMaximumLoggerLevel(GEODIFF_LoggerLevel l){ levels++; lastLevel=l; }
void GEODIFF_setLoggerCallback(GEODIFF_LoggerCallback){ callbacks++; }
int GEODIFF_driverCount(){ return rec("driverCount",{}); }
int GEODIFF_driverNameFromIndex(int,char*){ return rec("driverNameFromIndex",{}); }
int GEODIFF_driverIsRegistered(const char*a){ return rec("driverIsRegistered",{a}); }
int GEODIFF_createChangeset(const char*a,const char*b,const char*c){ return rec("createChangeset",{a,b,c}); }
int GEODIFF_invertChangeset(const char*a,const char*b){ return rec("invertChangeset",{a,b}); }
int GEODIFF_createRebasedChangeset(const char*a,const char*b,const char*c,const char*d,const char*e){ return rec("createRebasedChangeset",{a,b,c,d,e}); }
int GEODIFF_rebase(const char*a,const char*b,const char*c,const char*d){ return rec("rebase",{a,b,c,d}); }
int GEODIFF_applyChangeset(const char*a,const char*b){ return rec("applyChangeset",{a,b}); }
int GEODIFF_hasChanges(const char*a){ return rec("hasChanges",{a}); }
int GEODIFF_changesCount(const char*a){ return rec("changesCount",{a}); }
int GEODIFF_listChanges(const char*a,const char*b){ return rec("listChanges",{a,b}); }
int GEODIFF_listChangesSummary(const char*a,const char*b){ return rec("listChangesSummary",{a,b}); }
int GEODIFF_makeCopy(const char*a,const char*b,const char*c,const char*d,const char*e,const char*f){ return rec("makeCopy",{a,b,c,d,e,f}); }
int GEODIFF_createChangesetEx(const char*a,const char*b,const char*c,const char*d,const char*e){ return rec("createChangesetEx",{a,b,c,d,e}); }
int GEODIFF_applyChangesetEx(const char*a,const char*b,const char*c,const char*d){ return rec("applyChangesetEx",{a,b,c,d}); }
int GEODIFF_createRebasedChangesetEx(const char*a,const char*b,const char*c,const char*d,const char*e,const char*f,const char*g){ return rec("createRebasedChangesetEx",{a,b,c,d,e,f,g}); }
int GEODIFF_rebaseEx(const char*a,const char*b,const char*c,const char*d,const char*e,const char*f){ return rec("rebaseEx",{a,b,c,d,e,f}); }
int GEODIFF_dumpData(const char*a,const char*b,const char*c,const char*d){ return rec("dumpData",{a,b,c,d}); }
}
struct Mode { const char*name; int n; };
static const Mode M[]={{"createChangeset",3},{"createRebasedChangeset",5},{"applyChangeset",2},{"listChanges",2},{"listChangesSummary",2},{"makeCopy",6},{"createChangesetEx",5},{"applyChangesetEx",4},{"rebaseEx",6},{"dumpData",4}};
static const int NM=sizeof M/sizeof*M;
static const int MAXA=12;
struct Line { std::vector<char*> v; void add(const std::string&s){ char*b=(char*)malloc(s.size()+1); memcpy(b,s.c_str(),s.size()+1); v.push_back(b); }
 void symbolic(const char*name,int n){ char*b=(char*)malloc(n+1); gs_bytes(b,n,name); for(int i=0;i<n;i++) gs_assume(b[i]!=0); b[n]=0; v.push_back(b); }
 // argv is exactly argc+1 long, so that a read beyond the closing NULL is seen
 int run(std::string&out){ int argc=(int)v.size(); char**a=(char**)malloc(sizeof(char*)*(argc+1)); for(int i=0;i<argc;i++) a[i]=v[i]; a[argc]=nullptr; gs_capture(); int rc=gs_tool_main(argc,a); static char buf[16384]; size_t n=gs_captured(buf,sizeof buf); out.assign(buf,n); free(a); return rc; } };
static void setEnv(){ gs_set_env("GEODIFF_LOGGER_LEVEL",gs_choice("level set",2)?"4":nullptr); }
static void envChecked(bool){ bool set=getenv("GEODIFF_LOGGER_LEVEL")!=nullptr; gs_check(inits==1,"the library is not initialized once"); gs_check(callbacks==0,"a logger callback is set"); if(set) gs_check(levels==0,"the level from the environment is overridden"); else gs_check(levels>=1&&lastLevel==LevelWarning,"default verbosity"); }
extern "C" {
// every mode, every number of arguments, any texts, any result
void h_tool_modes(){ int m=gs_choice("mode",NM),n=gs_choice("arguments",MAXA+1); setEnv(); rcOf=(int)gs_u32("result"); Line l; l.add("geodiffinfo"); l.add(M[m].name); int len=(int)gs_param("arglen",2); for(int i=0;i<n;i++) l.symbolic(nm("argument",i).c_str(),i<8?gs_choice(nm("empty",i).c_str(),i<2?2:1)?0:len:1); std::string out; int rc=l.run(out); envChecked(true); gs_log("rc",(uint32_t)rc);
  if(n<M[m].n){ gs_check(rc!=0,"missing arguments are reported as success"); for(size_t k=0;k<calls.size();k++) gs_check(calls[k].f==M[m].name,"another function is called"); gs_cover("missing"); return; }
  gs_check(calls.size()==1&&calls[0].f==M[m].name,"the mode's function is not called once"); if(calls.size()!=1) return; const Call&c=calls[0]; bool ok=(int)c.a.size()==M[m].n; for(int i=0;ok&&i<M[m].n;i++){ if(!c.a[i]){ ok=false; break; } gs_check(!strcmp(c.a[i],l.v[2+i]),"an argument does not arrive in its place"); } gs_check(ok,"arguments are missing"); gs_check(rc==rcOf,"the exit code is not the library's result"); gs_cover("called"); }
// any mode text
void h_tool_unknown(){ setEnv(); rcOf=0; int n=gs_choice("length",(int)gs_param("modelen",24)); Line l; l.add("geodiffinfo"); l.symbolic("mode",n); for(int i=0;i<7;i++) l.add("a"); std::string out; bool known=!strcmp(l.v[1],"version"); int m=-1; for(int i=0;i<NM;i++) if(!strcmp(l.v[1],M[i].name)){ known=true; m=i; } int rc=l.run(out); envChecked(true); if(!known){ gs_check(rc!=0,"an unknown mode is reported as success"); gs_check(calls.empty(),"an unknown mode does something"); gs_check(out.find("ERROR")!=std::string::npos,"an unknown mode prints no error"); gs_cover("unknown"); } else { gs_check(rc==0&&(m<0?calls.empty():calls.size()==1&&calls[0].f==M[m].name),"a known mode is not run"); gs_cover("known"); } }
void h_tool_none(){ setEnv(); rcOf=0; Line l; if(gs_choice("name",2)) l.add("geodiffinfo"); std::string out; int rc=l.run(out); gs_check(rc!=0&&calls.empty(),"no mode is reported as success"); gs_check(out.find("ERROR")!=std::string::npos,"no mode prints no error"); for(int i=0;i<NM;i++) gs_check(out.find(M[i].name)!=std::string::npos,"the help lacks a mode"); gs_cover("done"); }
void h_tool_version(){ setEnv(); Line l; l.add("geodiffinfo"); l.add("version"); int n=gs_choice("more",3); for(int i=0;i<n;i++) l.symbolic(nm("argument",i).c_str(),1); std::string out; int rc=l.run(out); envChecked(true); gs_check(rc==0&&calls.empty(),"version fails"); gs_check(out==VER||out==std::string(VER)+"\n","the version printed is not the library's"); gs_cover("done"); }
}
