// C35: temporary files of calls that run at the same time.
#include "sq.h"
#include "proc.h"
static std::string P(int w,const char*n){ return std::string(gs_path(nm("p",w).c_str()))+n; }
static ST table(){ return sqTab("t","id INTEGER,a INTEGER",1); }
static Row row(int id,int a){ Row r; r.push_back(ovInt(id)); r.push_back(ovInt(a)); return r; }
static int gOp[2],gRc[2];
static OC theirs(int w){ OC c(1,pkTable("t",2,1)); OE e; e.op=OP_INS; e.w.push_back(ovInt(7)); e.w.push_back(ovInt(70+w)); c[0].e.push_back(e); return c; }
static void prepare(int w){ ST t=table(); t.rows.push_back(row(1,1)); sqMake(P(w,"base").c_str(),SDb(1,t)); t.rows.push_back(row(3,30+w)); sqMake(P(w,"mod").c_str(),SDb(1,t)); putFile(P(w,"cs").c_str(),encode(theirs(w))); }
// op 0: rebase (several temporary files); 1: a copy
static void call(int w){ gs_tmp_who(w); gRc[w]=gOp[w]==0?GEODIFF_rebaseEx("sqlite","",P(w,"base").c_str(),P(w,"mod").c_str(),P(w,"cs").c_str(),P(w,"conf").c_str()):GEODIFF_makeCopy("sqlite","",P(w,"base").c_str(),"sqlite","",P(w,"copy").c_str()); if(gOp[w]==0){ gs_check(gRc[w]==0,"C35 rebase failed next to another call"); ST t=table(); t.rows.push_back(row(1,1)); t.rows.push_back(row(3,30+w)); t.rows.push_back(row(7,70+w)); SDb want(1,t); gs_check(sqSame(sqRead(P(w,"mod").c_str(),want),want),"C35 another call changed the result of a rebase"); } gs_tmp_who(1-w); }
static void disjoint(){ int n=gs_tmp_count(),k[2]={0,0}; for(int i=0;i<n;i++){ k[gs_tmp_by(i)]++; for(int j=0;j<i;j++) if(gs_tmp_by(i)!=gs_tmp_by(j)){ std::string a=gs_tmp_name(i),b=gs_tmp_name(j); gs_check(a!=b,"C35 two calls use the same temporary file"); } } if(k[0]&&k[1]) gs_cover("both used temporary files"); }
static void start(){ gs_make_dir(gs_path("tmp")); gs_set_env("TMPDIR",gs_path("tmp")); prepare(0); prepare(1); gOp[0]=gs_choice("operation",2); gOp[1]=gs_choice("other operation",2); }
static uint64_t pidA,pidB;
static void pids(){ int b=(int)gs_param("pidbits",10); uint64_t lo=gs_param("pidmin",100),hi=gs_param("pidmax",999); pidA=gs_sym("pid",b); pidB=gs_sym("other pid",b); gs_assume((pidA>=lo)&(pidA<=hi)); gs_assume((pidB>=lo)&(pidB<=hi)); gs_assume(pidA!=pidB); }
// processes start from here: everything they need is set
static void go(){ gs_tmp_watch((std::string(gs_path("tmp"))+"/").c_str()); }
static void other(int mode){ if(mode) gs_as_thread(2,call,1); else gs_as_process(pidB,call,1); gs_tmp_who(0); }
static void stopped(int k){ gs_tmp_at(k,other,0); call(0); }
static void count(){ for(int w=0;w<2;w++) gs_check(gs_count_files()>=6,"C35 inputs disappeared"); }
extern "C" {
// one after the other in two processes: nothing but the process tells them apart
void h_tmp_processes(){ start(); pids(); go(); gs_as_process(pidA,call,0); gs_as_process(pidB,call,1); disjoint(); }
// a process runs a whole call while another one is about to open its k-th temporary file
void h_tmp_interleaved(){ start(); pids(); int k=gs_choice("moment",(int)gs_param("moments",6)); go(); gs_as_process(pidA,stopped,k); disjoint(); count(); }
// the same in two threads of one process
void h_tmp_threads(){ start(); int k=gs_choice("moment",(int)gs_param("moments",6)); go(); gs_tmp_at(k,other,1); call(0); disjoint(); count(); }
// successive calls of one process, whatever rand() returns
void h_tmp_rand(){ start(); go(); gs_any_rand(1); call(0); call(1); disjoint(); }
}
