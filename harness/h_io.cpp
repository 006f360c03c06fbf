// C18: bad arguments of the C API; C20: outputs that cannot be written completely; C21: inputs and temporary files.
#include "sq.h"
#include "changesetutils.h"
#include "geodiffrebase.hpp"
#include "changesetwriter.h"
#include <functional>
static std::string P(const char*n){ return gs_path(n); }
static OC sample(int seed){ OC c(1,pkTable("t",3,1)); OE i; i.op=OP_INS; i.w.push_back(ovInt(7+seed)); i.w.push_back(ovInt(gs_u64("i"))); i.w.push_back(ovStr(T_TEXT,"new")); OE u; u.op=OP_UPD; u.o.resize(3); u.w.resize(3); u.o[0]=ovInt(1); u.o[1]=ovInt(5); u.w[1]=ovInt(50+seed); OE d; d.op=OP_DEL; d.o.push_back(ovInt(2)); d.o.push_back(ovInt(5)); d.o.push_back(ovStr(T_TEXT,"old")); c[0].e.push_back(i); c[0].e.push_back(u); if(!seed) c[0].e.push_back(d); return c; }
static OC fixedSample(int seed){ OC c=sample(seed); c[0].e[0].w[1]=ovInt(9); return c; }
static SDb sampleDb(int which){ SDb D(1,sqTab("t","id INTEGER,a INTEGER,b TEXT",1)); for(int i=1;i<3;i++){ Row r; r.push_back(ovInt(i)); r.push_back(ovInt(which&&i==1?100+which:5)); r.push_back(ovStr(T_TEXT,"old")); D[0].rows.push_back(r); } return D; }
static void dbs(){ sqMake(P("base.db").c_str(),sampleDb(0)); sqMake(P("mod.db").c_str(),sampleDb(1)); sqMake(P("their.db").c_str(),sampleDb(2)); }
struct Op { const char*name; const char*args; };  // args: b database, m modified/target database, t theirs, c changeset, e other changeset, o output, f conflict output, d driver, x extra
static const Op OPSL[]={{"createChangeset","bmo"},{"invertChangeset","co"},{"createRebasedChangeset","bmcof"},{"rebase","btmf"},{"applyChangeset","mc"},{"hasChanges","c"},{"changesCount","c"},{"listChanges","co"},{"listChangesSummary","co"},{"makeCopy","dxbdxo"},{"createChangesetEx","dxbmo"},{"applyChangesetEx","dxmc"},{"createRebasedChangesetEx","dxbceof"},{"rebaseEx","dxbmcf"},{"dumpData","dxbo"}};
static const int NOPS=sizeof OPSL/sizeof*OPSL;
static int call(int op,const char**a){ switch(op){ case 0: return GEODIFF_createChangeset(a[0],a[1],a[2]); case 1: return GEODIFF_invertChangeset(a[0],a[1]); case 2: return GEODIFF_createRebasedChangeset(a[0],a[1],a[2],a[3],a[4]); case 3: return GEODIFF_rebase(a[0],a[1],a[2],a[3]); case 4: return GEODIFF_applyChangeset(a[0],a[1]); case 5: return GEODIFF_hasChanges(a[0])<0; case 6: return GEODIFF_changesCount(a[0])<0; case 7: return GEODIFF_listChanges(a[0],a[1]); case 8: return GEODIFF_listChangesSummary(a[0],a[1]); case 9: return GEODIFF_makeCopy(a[0],a[1],a[2],a[3],a[4],a[5]); case 10: return GEODIFF_createChangesetEx(a[0],a[1],a[2],a[3],a[4]); case 11: return GEODIFF_applyChangesetEx(a[0],a[1],a[2],a[3]); case 12: return GEODIFF_createRebasedChangesetEx(a[0],a[1],a[2],a[3],a[4],a[5],a[6]); case 13: return GEODIFF_rebaseEx(a[0],a[1],a[2],a[3],a[4],a[5]); default: return GEODIFF_dumpData(a[0],a[1],a[2],a[3]); } }
static std::string good(char k){ switch(k){ case 'b': return P("base.db"); case 'm': return P("mod.db"); case 't': return P("their.db"); case 'c': return P("cs"); case 'e': return P("cs2"); case 'o': return P("out"); case 'f': return P("conf"); case 'd': return "sqlite"; default: return ""; } }
struct Files { std::string n[6]; Bytes b[6]; bool have[6]; Files(){ static const char*N[]={"base.db","mod.db","their.db","cs","cs2","garbage"}; for(int i=0;i<6;i++){ n[i]=P(N[i]); have[i]=gs_file_size(n[i].c_str())>=0; if(have[i]) b[i]=readFile(n[i].c_str()); } } void same(const char*l,int except=-1)const{ for(int i=0;i<6;i++) if(have[i]&&i!=except) gs_check(fileIs(n[i].c_str(),b[i]),l); } };
static OC csFor(int op){ OC c=fixedSample(0); if(op==12||op==13||op==2){ c[0].e.erase(c[0].e.begin()); } return c; }
extern "C" {
// one argument NULL, missing, a directory, malformed or empty
void h_bad_args(){ int op=gs_choice("function",NOPS); const Op&o=OPSL[op]; int n=(int)strlen(o.args),arg=gs_choice("argument",n); char k=o.args[arg]; if(k=='x') gs_end_path("optional"); static const char*const KINDS[]={"null","missing","directory","garbage","cut","empty name"}; (void)KINDS; int kind=gs_choice("kind",6); bool db=k=='b'||k=='m'||k=='t',cs=k=='c'||k=='e',out=k=='o'||k=='f'; if(k=='d'&&(kind==2||kind==3||kind==4)) gs_end_path("n/a"); if(kind==4&&!cs) gs_end_path("n/a"); if(kind==3&&!(db||cs)) gs_end_path("n/a");
  dbs(); putFile(P("cs").c_str(),encode(csFor(op))); OC c2=fixedSample(1); c2[0].e.erase(c2[0].e.begin()); putFile(P("cs2").c_str(),encode(c2)); gs_make_dir(P("dir").c_str()); putFile(P("dir/x").c_str(),Bytes(1,'x')); Bytes gb(40,'z'); if(kind==3){ if(db) gs_bytes(gb.data(),3,"garbage"); else { gb.resize(3); gs_bytes(gb.data(),3,"garbage"); } gs_assume(gb[0]!='S'&&gb[0]!='T'); } if(kind==4){ gb=encode(csFor(op)); gb.resize(gb.size()-1-gs_choice("cut",3)); } putFile(P("garbage").c_str(),gb);
  std::string s[8]; const char*a[8]; for(int i=0;i<n;i++){ s[i]=good(o.args[i]); a[i]=o.args[i]=='x'&&gs_choice(nm("null extra",i).c_str(),2)?nullptr:s[i].c_str(); } if(op==13||op==3){ } std::string bad=kind==1?(out?P("nodir/x"):k=='d'?"nosuch":P("nofile")):kind==2?P("dir"):kind==3||kind==4?P("garbage"):""; a[arg]=kind==0?nullptr:bad.c_str(); if(op==12&&(k=='b'||k=='d')&&kind) gs_end_path("base and driver are not used"); if((op==5||(op==9&&out))&&kind==4) gs_end_path("only the first entry is read"); 
  Files before; SDb m0=sampleDb(1); int files=gs_count_files(); int rc=call(op,a); gs_check(rc!=0,"C18 a bad argument is not reported"); gs_log("rc",rc!=0); before.same("C18,C21 a failed call modified its input",1); gs_check(sqSame(sqRead(P("mod.db").c_str(),m0),m0),"C16,C18,C21 a failed call modified the database"); int extra=0; for(const char*f:{"out","conf"}) extra+=gs_file_size(P(f).c_str())>=0; gs_check(gs_count_files()==files+extra,"C21 temporary files left behind"); gs_cover("done"); }
// valid arguments: inputs stay, no temporary files
void h_good_args(){ int op=gs_choice("function",NOPS); const Op&o=OPSL[op]; dbs(); OC c=csFor(op); if(op==4||op==11){ c=OC(1,pkTable("t",3,1)); OE e; e.op=OP_INS; e.w.push_back(ovInt(9)); e.w.push_back(ovInt(gs_u64("v"))); e.w.push_back(ovNull()); c[0].e.push_back(e); } putFile(P("cs").c_str(),encode(c)); OC c2=fixedSample(1); c2[0].e.erase(c2[0].e.begin()); putFile(P("cs2").c_str(),encode(c2)); int n=(int)strlen(o.args); std::string s[8]; const char*a[8]; for(int i=0;i<n;i++){ s[i]=good(o.args[i]); a[i]=o.args[i]=='x'&&gs_choice(nm("null extra",i).c_str(),2)?nullptr:s[i].c_str(); } if(gs_choice("stale",2)) for(const char*f:{"out","conf"}) putFile(P(f).c_str(),Bytes(700,'x')); Files before; int extra=0; for(const char*f:{"out","conf"}) extra+=gs_file_size(P(f).c_str())>=0; int files=gs_count_files()-extra; int rc=call(op,a); if(op!=9) gs_check(rc==0,"C18,C20 a valid call failed"); before.same("C21 a call modified its input",op==3||op==4||op==11||op==13?1:-1); extra=0; for(const char*f:{"out","conf"}) extra+=gs_file_size(P(f).c_str())>=0; gs_check(gs_count_files()==files+extra,"C21 temporary files left behind"); gs_log("rc",rc!=0); gs_cover("done"); }
}
// runs f twice, without and with the fault; success must give the same output
static void cutOff(const char*outName,int mode,long limit,std::function<int(const char*)> f){ std::string ref=P("ref"),out=P(outName); int rc0=f(ref.c_str()); gs_check(rc0==0,"C20 fails without faults"); if(rc0) return; Bytes want=readFile(ref.c_str()); int files; if(mode==0){ long l=limit; if(l<0){ l=(long)gs_u64("written"); gs_assume(l>=0&&l<=(long)want.size()+1); } if(gs_choice("stale",2)) putFile(out.c_str(),Bytes(want.size()+9,'y')); files=gs_count_files(); bool had=gs_file_size(out.c_str())>=0; gs_file_limit(l); int rc=f(out.c_str()); gs_file_limit(-1); gs_check((rc==0)==((long)want.size()<=l),"C20 result of a write cut short"); if(rc==0){ gs_check(fileIs(out.c_str(),want),"C20 success with incomplete output"); gs_cover("written"); } else gs_cover("failed"); gs_check(gs_count_files()<=files+!had,"C21 files left behind"); gs_log("rc",rc!=0); }
  else { std::string o=mode==1?P("nodir/out"):mode==2?P("dir"):std::string(); if(mode==2){ gs_make_dir(o.c_str()); putFile((o+"/x").c_str(),Bytes(1,'x')); } files=gs_count_files(); int rc=f(o.c_str()); gs_check(rc!=0,"C20 output that cannot be opened is not reported"); gs_check(gs_count_files()==files,"C21 files left behind"); gs_cover("not opened"); } }
extern "C" {
void h_out_create(){ dbs(); cutOff("out",gs_choice("mode",4),-1,[](const char*o){ return GEODIFF_createChangeset(P("base.db").c_str(),P("mod.db").c_str(),o); }); }
void h_out_dump(){ dbs(); cutOff("out",gs_choice("mode",4),-1,[](const char*o){ return GEODIFF_dumpData("sqlite",nullptr,P("base.db").c_str(),o); }); }
void h_out_invert(){ putFile(P("cs").c_str(),encode(sample(0))); cutOff("out",gs_choice("mode",4),-1,[](const char*o){ return GEODIFF_invertChangeset(P("cs").c_str(),o); }); }
void h_out_json(){ putFile(P("cs").c_str(),encode(fixedSample(0))); bool sum=gs_choice("summary",2); cutOff("out",gs_choice("mode",4),-1,[sum](const char*o){ return sum?GEODIFF_listChangesSummary(P("cs").c_str(),o):GEODIFF_listChanges(P("cs").c_str(),o); }); }
void h_out_rebase(){ OC a=csFor(12),b=fixedSample(1); b[0].e.erase(b[0].e.begin()); b[0].e[0].o[1]=ovInt(5); bool cf=gs_choice("conflict file",2); if(!cf){ b[0].e[0].o[1]=b[0].e[0].w[1]=OV(); b[0].e[0].o[2]=ovNull(); b[0].e[0].w[2]=ovStr(T_TEXT,"x"); } putFile(P("cs").c_str(),encode(a)); putFile(P("cs2").c_str(),encode(b)); if(cf) cutOff("out",gs_choice("mode",4),-1,[](const char*o){ return GEODIFF_createRebasedChangesetEx("sqlite","",P("base.db").c_str(),P("cs").c_str(),P("cs2").c_str(),P("rebased").c_str(),o); }); else cutOff("out",gs_choice("mode",4),-1,[](const char*o){ int rc=GEODIFF_createRebasedChangesetEx("sqlite","",P("base.db").c_str(),P("cs").c_str(),P("cs2").c_str(),o,P("conf").c_str()); if(rc==0) remove(P("conf").c_str()); return rc; }); }
void h_out_copyside(){ bool theirs=gs_choice("theirs empty",2); OC a=sample(0); putFile(P("cs").c_str(),theirs?encode(a):Bytes()); putFile(P("cs2").c_str(),theirs?Bytes():encode(a)); cutOff("out",gs_choice("mode",4),-1,[](const char*o){ return GEODIFF_createRebasedChangesetEx("sqlite","",P("base.db").c_str(),P("cs").c_str(),P("cs2").c_str(),o,P("conf").c_str()); }); }
void h_out_concat(){ putFile(P("a").c_str(),encode(sample(0))); putFile(P("b").c_str(),encode(OC(1,pkTable("t",3,1)))); cutOff("out",gs_choice("mode",4),-1,[](const char*o){ bool e=true; guarded([&]{ e=concatChangesets(P("a"),P("b"),P("b"),o); }); return e?1:0; }); }
// output larger than any buffer
void h_out_large(){ int n=5000; OC c(1,pkTable("t",2,1)); for(int k=0;k<2;k++){ OE e; e.op=OP_INS; e.w.push_back(ovInt(k)); OV v; v.t=T_BLOB; v.s.assign(n,(unsigned char)'q'); v.s[0]=gs_u8(nm("first",k).c_str()); v.s[n-1]=gs_u8(nm("last",k).c_str()); e.w.push_back(v); c[0].e.push_back(e); } putFile(P("cs").c_str(),encode(c)); static const long L[]={0,1,4095,4096,4097,5000,8191,8192,8193,10025,10026,100000}; cutOff("out",0,L[gs_choice("limit",12)],[](const char*o){ return GEODIFF_invertChangeset(P("cs").c_str(),o); }); }
// rebase of databases whose temporary files cannot be written completely
void h_out_full(){ dbs(); int pre=gs_choice("ours",2); if(pre) sqMake(P("m2.db").c_str(),sampleDb(0)); std::string m=P(pre?"m2.db":"mod.db"); SDb M=sampleDb(pre?0:1); Bytes b0=readFile(P("base.db").c_str()),t0=readFile(P("their.db").c_str()); int files=gs_count_files(); gs_file_limit(gs_choice("written",(int)gs_param("full",90))); int rc=GEODIFF_rebase(P("base.db").c_str(),P("their.db").c_str(),m.c_str(),P("conf").c_str()); gs_file_limit(-1); if(rc==0){ SDb w=sampleDb(pre?2:1); gs_check(sqSame(sqRead(m.c_str(),M),w),"C16,C20 success with a wrong database"); gs_cover("written"); } else { gs_check(sqSame(sqRead(m.c_str(),M),M),"C16 failed rebase changed the database"); gs_cover("failed"); } gs_check(fileIs(P("base.db").c_str(),b0)&&fileIs(P("their.db").c_str(),t0),"C21 input modified"); bool cf=gs_file_size(P("conf").c_str())>=0; gs_check(gs_count_files()==files+cf,"C21 files left behind"); }
}
