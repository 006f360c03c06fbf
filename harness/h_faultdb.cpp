// C08, C20, C21: any single database call fails. Success means the full result, an error leaves the databases as they were.
#include "sq.h"
#include "changesetutils.h"
#include "geodiffrebase.hpp"
#include <functional>
#ifndef GS_SYMBOLIC
#include <unistd.h>
#include <sys/wait.h>
#endif
extern "C" { extern void (*gs_crash_fn)(void); extern int gs_fault_at, gs_fault_kind, gs_fault_count, gs_fault_hit; std::string gs_stub_entry_json(const ChangesetEntry&){ return std::string("{}"); } }
static void arm(int n){ gs_fault_kind=gs_choice("kind",2); gs_fault_count=0; gs_fault_hit=0; gs_fault_at=gs_choice("fault at",n); }
static void disarm(){ gs_fault_at=-1; if(!gs_fault_hit) gs_end_path("no such call"); gs_fault_hit=0; }
static OV textCell(const char*t){ OV v; v.t=T_TEXT; v.s.push_back(gs_u8(nm(t,gsCtr++).c_str())); return v; }
static OV blobCell(const char*t){ OV v=textCell(t); v.t=T_BLOB; return v; }
static SDb base(const char*tag){ SDb B; B.push_back(sqTab("t","id INTEGER,a",1)); B.push_back(sqTab("u","k TEXT,b BLOB",1)); Row r; r.push_back(symCell(M_INT,0,tag)); r.push_back(symCell(M_INT,0,tag)); B[0].rows.push_back(r); Row q; q.push_back(textCell(tag)); q.push_back(blobCell(tag)); B[1].rows.push_back(q); return B; }
static SDb other(const SDb&B,const char*tag){ SDb M=B; M[0].rows[0][1]=symCell(M_INT,0,tag); Row r; r.push_back(symCell(M_INT,0,tag)); r.push_back(symCell(M_INT,0,tag)); gs_assume(r[0].n!=B[0].rows[0][0].n); M[0].rows.push_back(r); if(gs_choice((std::string(tag)+".del").c_str(),2)) M[1].rows.clear(); return M; }
static const char*CS(){ return gs_path("cs"); }
static void applyCase(SDb&B,OC&c){ B=base("b"); c.push_back(pkTable("t",2,1)); c.push_back(pkTable("u",2,1)); OE i; i.op=OP_INS; i.w.push_back(symCell(M_INT,0,"i")); i.w.push_back(symCell(M_INT,0,"i")); OE u; u.op=OP_UPD; u.o=B[0].rows[0]; u.w.resize(2); u.w[1]=symCell(M_INT,0,"u"); OE d; d.op=OP_DEL; d.o=B[1].rows[0]; int ord=gs_choice("order",3); if(ord==0){ c[0].e.push_back(i); c[0].e.push_back(u); } else if(ord==1){ c[0].e.push_back(u); c[0].e.push_back(i); } else { OE x; x.op=OP_DEL; x.o=B[0].rows[0]; c[0].e.push_back(x); c[0].e.push_back(i); } c[1].e.push_back(d); }
static void rebaseCase(SDb&B,SDb&M,SDb&T){ B.assign(1,sqTab("t","id INTEGER,a,b",1));  Row r; for(int i=0;i<3;i++) r.push_back(symCell(M_INT,0,"b")); gs_assume((int64_t)r[0].n>0); gs_assume((int64_t)r[0].n<1000); B[0].rows.push_back(r); M=T=B; if(gs_choice("ours",2)) M[0].rows[0][1]=symCell(M_INT,0,"m"); else { Row q=r; q[0].n=r[0].n+1; q[1]=symCell(M_INT,0,"mi"); M[0].rows.push_back(q); } if(gs_choice("theirs",2)) T[0].rows[0][2]=symCell(M_INT,0,"t"); else { Row q=r; q[0].n=r[0].n+1; T[0].rows.push_back(q); } }
// the process dies at a database call: what is left is what the next connection finds
static std::function<void(bool)> gAfter;
static void crashed(){
#ifdef GS_SYMBOLIC
  gs_fault_at=-1; gAfter(true); gs_end_path("crashed");
#else
  fflush(stdout); _exit(7);
#endif
}
static void inProcess(std::function<int()> f,int calls){ gs_crash_fn=crashed; gs_fault_kind=2; gs_fault_count=0; gs_fault_hit=0; gs_fault_at=gs_choice("dies at",calls);
#ifdef GS_SYMBOLIC
  int rc=f(); gs_fault_at=-1; gs_check(rc==0,"fails without faults"); gAfter(false);
#else
  fflush(stdout); int pid=fork(); if(!pid){ int rc=f(); fflush(stdout); _exit(rc); } int st=0; waitpid(pid,&st,0); gs_fault_at=-1; if(!WIFEXITED(st)) gs_check(0,"crash"); else if(WEXITSTATUS(st)==7) gAfter(true); else { gs_check(WEXITSTATUS(st)==0,"fails without faults"); gAfter(false); }
#endif
}
extern "C" {
void h_fault_apply(){ SDb B; OC c; applyCase(B,c);
  std::vector<std::string> more; more.push_back("CREATE TRIGGER tr AFTER INSERT ON t BEGIN DELETE FROM u; END"); more.push_back("CREATE TRIGGER \"o 2\" AFTER DELETE ON u BEGIN DELETE FROM t; END");
  const char*p=gs_path("db"); sqMake(p,B,more); putFile(CS(),encode(c)); std::vector<std::string> s0=sqSchema(p); Db want=plain(B); bool ok=applyAll(want,c);
  arm((int)gs_param("calls",70)); int rc=GEODIFF_applyChangeset(p,CS()); disarm();
  if(rc==0){ gs_check(ok&&sqSame(sqRead(p,B),withRows(B,want)),"C08,C18,C20 success without the full result"); gs_cover("survived"); } else { gs_check(sqSame(sqRead(p,B),B),"C08 content changed by a failed apply"); gs_cover("failed"); } gs_check(sqSchema(p)==s0,"C08,C11 schema or triggers changed"); gs_log("rc",rc!=0); }
void h_fault_create(){ SDb B=base("b"),M=other(B,"m"); const char*pb=gs_path("base.db"),*pm=gs_path("mod.db"); sqMake(pb,B); sqMake(pm,M); Bytes b0=readFile(pb),m0=readFile(pm); int rc0=GEODIFF_createChangeset(pb,pm,gs_path("ref")); gs_check(rc0==0,"C20,C06,C07 create without faults"); if(rc0) return; int files=gs_count_files();
  arm((int)gs_param("calls",70)); int rc=GEODIFF_createChangeset(pb,pm,CS()); disarm(); if(rc==0){ gs_check(fileIs(CS(),readFile(gs_path("ref"))),"C06,C07,C18,C20 success with an incomplete changeset"); gs_cover("survived"); } else gs_cover("failed"); gs_check(fileIs(pb,b0)&&fileIs(pm,m0),"C21 input modified"); gs_check(gs_count_files()<=files+1,"C21 files left behind"); gs_log("rc",rc!=0); }
void h_fault_dump(){ SDb B=base("b"); const char*pb=gs_path("base.db"); sqMake(pb,B); Bytes b0=readFile(pb); int rc0=GEODIFF_dumpData("sqlite",nullptr,pb,gs_path("ref")); gs_check(rc0==0,"C20,C32 dump without faults"); if(rc0) return; int files=gs_count_files();
  arm((int)gs_param("calls",60)); int rc=GEODIFF_dumpData("sqlite",nullptr,pb,CS()); disarm(); if(rc==0){ gs_check(fileIs(CS(),readFile(gs_path("ref"))),"C32,C18,C20 success with an incomplete dump"); gs_cover("survived"); } else gs_cover("failed"); gs_check(fileIs(pb,b0),"C21 input modified"); gs_check(gs_count_files()<=files+1,"C21 files left behind"); gs_log("rc",rc!=0); }
void h_fault_rebase(){ SDb B,M,T; rebaseCase(B,M,T);
  const char*pb=gs_path("base.db"),*pm=gs_path("mod.db"),*pt=gs_path("their.db"),*pr=gs_path("ref.db"); sqMake(pb,B); sqMake(pm,M); sqMake(pt,T); sqCopy(pm,pr); Bytes b0=readFile(pb),t0=readFile(pt); int rc0=GEODIFF_rebase(pb,pt,pr,gs_path("conf")); gs_check(rc0==0,"C16,C20 rebase without faults"); if(rc0) return; SDb want=sqRead(pr,M); bool conf=gs_file_size(gs_path("conf"))>=0; int files=gs_count_files();
  arm((int)gs_param("calls",250)); int rc=GEODIFF_rebase(pb,pt,pm,gs_path("conf2")); disarm(); if(rc==0){ gs_check(sqSame(sqRead(pm,M),want),"C16,C18,C20 success without the full result"); gs_check((gs_file_size(gs_path("conf2"))>=0)==conf,"C15,C20 success without the conflict file"); gs_cover("survived"); } else { gs_check(sqSame(sqRead(pm,M),M),"C16 failed rebase changed the database"); gs_cover("failed"); } gs_check(fileIs(pb,b0)&&fileIs(pt,t0),"C21 input modified"); gs_check(gs_count_files()<=files+1,"C21 files left behind"); gs_log("rc",rc!=0); }
void h_fault_concat(){ OC a(1,pkTable("t",2,1)),b; OE e; e.op=OP_INS; e.w.push_back(symCell(M_INT,0,"i")); e.w.push_back(symCell(M_INT,0,"i")); a[0].e.push_back(e); b.push_back(pkTable("t",2,1)); OE u; u.op=OP_UPD; u.o=e.w; u.w.resize(2); u.w[1]=symCell(M_INT,0,"u"); b[0].e.push_back(u); gs_assume(u.w[1].n!=e.w[1].n); putFile(gs_path("a"),encode(a)); putFile(gs_path("b"),encode(b)); bool e0=concatChangesets(gs_path("a"),gs_path("b"),gs_path("b"),gs_path("ref")); (void)e0; arm((int)gs_param("calls",12)); bool err=true; try { err=concatChangesets(gs_path("a"),gs_path("b"),gs_path("b"),CS()); } catch(GeoDiffException&){ err=true; } disarm(); if(!err){ gs_check(fileIs(CS(),readFile(gs_path("ref"))),"C17,C18,C20 success with an incomplete changeset"); gs_cover("survived"); } else gs_cover("failed"); gs_log("err",err); }
void h_crash_apply(){ SDb B; OC c; applyCase(B,c); std::vector<std::string> more; more.push_back("CREATE TRIGGER tr AFTER INSERT ON t BEGIN DELETE FROM u; END"); more.push_back("CREATE TRIGGER \"o 2\" AFTER DELETE ON u BEGIN DELETE FROM t; END"); const char*p=gs_path("db"); sqMake(p,B,more); putFile(CS(),encode(c)); std::vector<std::string> s0=sqSchema(p); Db want=plain(B); if(!applyAll(want,c)) gs_end_path("conflict"); SDb W=withRows(B,want);
  gAfter=[=](bool died){ SDb now=sqRead(p,B); bool isNew=sqSame(now,W); gs_check(isNew||(died&&sqSame(now,B)),"C08 a process that dies leaves a partly applied changeset"); gs_check(sqSchema(p)==s0,"C08,C11 a process that dies leaves the schema or triggers changed"); gs_log("died",died); if(died&&isNew) gs_cover("applied"); else gs_cover(died?"not applied":"lived"); };
  inProcess([=]{ return GEODIFF_applyChangeset(p,CS()); },(int)gs_param("calls",80)); }
void h_crash_rebase(){ SDb B,M,T; rebaseCase(B,M,T); const char*pb=gs_path("base.db"),*pm=gs_path("mod.db"),*pt=gs_path("their.db"),*pr=gs_path("ref.db"); sqMake(pb,B); sqMake(pm,M); sqMake(pt,T); sqCopy(pm,pr); Bytes b0=readFile(pb),t0=readFile(pt); int rc0=GEODIFF_rebase(pb,pt,pr,gs_path("conf")); gs_check(rc0==0,"C16 rebase without faults"); if(rc0) return; SDb want=sqRead(pr,M);
  gAfter=[=](bool died){ SDb now=sqRead(pm,M); bool isNew=sqSame(now,want); gs_check(isNew||(died&&sqSame(now,M)),"C16 a process that dies leaves a partly rebased database"); gs_check(fileIs(pb,b0)&&fileIs(pt,t0),"C16,C21 input modified"); gs_log("died",died); gs_cover(died?"died":"lived"); };
  inProcess([=]{ return GEODIFF_rebase(pb,pt,pm,gs_path("conf2")); },(int)gs_param("calls",250)); }
// a database that must not be rebased is refused also if the database's tables cannot be read
void h_fault_rebasable(){ int k=gs_choice("what",5); SDb M=base("m"),B=M; B[0].rows.clear(); std::vector<std::string> more; if(k==1) M.push_back(sqTab("v","id INTEGER,a INTEGER REFERENCES t(id)",1)); if(k==2) M.push_back(sqTab("v","k TEXT,l,a REFERENCES u",3)); if(k==3) M.push_back(sqTab("a","a TEXT REFERENCES nosuch(x)",1)); if(k==4) more.push_back("CREATE TRIGGER tr AFTER INSERT ON t BEGIN DELETE FROM u; END"); if(k>=1&&k<=3) B.push_back(M.back()); const char*pb=gs_path("base.db"),*pm=gs_path("mod.db"); sqMake(pb,B); sqMake(pm,M,more); OC th(1,pkTable("t",2,1)); OE e; e.op=OP_INS; e.w.push_back(symCell(M_INT,0,"theirs")); e.w.push_back(ovInt(1)); th[0].e.push_back(e); putFile(gs_path("theirs.diff"),encode(th)); int rc0=GEODIFF_createRebasedChangeset(pb,pm,gs_path("theirs.diff"),gs_path("ref"),gs_path("conf")); gs_check((rc0==0)==(k==0),"C38 refused exactly for foreign keys and unknown triggers"); if((rc0==0)!=(k==0)) return; int files=gs_count_files();
  arm((int)gs_param("calls",130)); int rc=GEODIFF_createRebasedChangeset(pb,pm,gs_path("theirs.diff"),CS(),gs_path("conf2")); disarm(); if(k) { gs_check(rc!=0,"C38 accepted when the tables could not be read"); gs_cover("refused"); } else if(rc==0){ gs_check(fileIs(CS(),readFile(gs_path("ref"))),"C38,C20 success with an incomplete changeset"); gs_cover("survived"); } else gs_cover("failed"); gs_check(gs_count_files()<=files+2,"C21 files left behind"); gs_log("rc",rc!=0); }
}
