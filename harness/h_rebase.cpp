// Rebase (C13 merge, C14 conflicts, C15 empty sides), conflict file (C22).
#include "db.h"
#include "json.h"
#include "geodiffrebase.hpp"
struct Conf { std::string table; uint64_t pk; int col; OV b,t,o; };
// per-side edit of a base row: bits of changed columns, or deleted
struct Edit { bool del; Row w; Edit():del(false){} };
static OE entryOf(const OT&t,const Row&base,const Edit&x,bool&any){ OE e; any=true; if(x.del){ e.op=OP_DEL; e.o=base; return e; } e.op=OP_UPD; e.o.resize(base.size()); e.w.resize(base.size()); any=false; for(size_t i=0;i<base.size();i++){ if(t.pk[i]) e.o[i]=base[i]; else if(x.w[i].t!=T_UNDEF){ e.o[i]=base[i]; e.w[i]=x.w[i]; any=true; } } return e; }
static Row merged(const Row&b,const Edit&t,const Edit&o){ Row r=b; for(size_t i=0;i<b.size();i++){ if(t.w[i].t!=T_UNDEF) r[i]=t.w[i]; if(o.w[i].t!=T_UNDEF) r[i]=o.w[i]; } return r; }
static const char *FT="theirs.diff",*FO="ours.diff",*FR="rebased.diff",*FC="conf.json";
// runs the rebase through the C++ function and the C API; checks inputs stay, outputs agree; returns rebased changeset
static bool runRebase(const OC&T,const OC&O,OC&R,std::vector<ConflictFeature>&cf,const std::vector<Conf>&want,bool viaApi){
  const char*ft=gs_path(FT),*fo=gs_path(FO),*fr=gs_path(FR),*fc=gs_path(FC); Bytes tb=encode(T),ob=encode(O); putFile(ft,tb); putFile(fo,ob);
  if(viaApi){ if(gs_choice("stale",2)) putFile(fc,Bytes(3,'x')); int rc=GEODIFF_createRebasedChangesetEx("sqlite","","base",fo,ft,fr,fc); gs_check(rc==GEODIFF_SUCCESS,"C13 rebasing succeeds"); if(rc) return false; bool have=gs_file_size(fc)>=0; gs_check(have==!want.empty(),"C14 conflict file exists exactly when there are conflicts"); if(have&&!want.empty()){ Bytes js=readFile(fc); JV v; bool ok=jsonParse(js,v); gs_check(ok,"C14,C22 conflict file is valid JSON"); const JV*l=ok?v.get("geodiff"):nullptr; gs_check(l&&l->k=='[',"C14,C22 conflict file has the list"); if(l){ size_t n=0; for(auto&f:l->a){ const JV*tn=f.get("table"),*fid=f.get("fid"),*ch=f.get("changes"); gs_check(tn&&fid&&ch&&fid->k=='$'&&ch->k=='[',"C14,C22 conflict has table, fid and changes"); if(!(tn&&fid&&ch)) continue; for(auto&q:ch->a){ n++; bool found=false; for(auto&w:want) if(w.table==tn->s&&std::to_string((int)w.pk)==fid->s&&q.get("column")&&q.get("column")->s==std::to_string(w.col)) found=jsonIs(q.get("base"),w.b)&&jsonIs(q.get("old"),w.t)&&jsonIs(q.get("new"),w.o); gs_check(found,"C14,C22 conflict item names row, column and the three values"); } } gs_check(n==want.size(),"C14,C22 number of conflict items in file"); } } }
  else { int rc=-1; int g=guarded([&]{ rc=rebase(ft,fr,fo,cf); }); gs_check(g==0&&rc==GEODIFF_SUCCESS,"C13 rebasing succeeds"); if(g||rc) return false; }
  gs_check(fileIs(ft,tb)&&fileIs(fo,ob),"C15,C21 input changesets unchanged"); gs_check(gs_file_size(fr)>=0,"C15 output file is produced"); Bytes rb=readFile(fr); logFile("rebased",fr); bool ok=decode(rb.data(),rb.size(),R); gs_check(ok,"C13 rebased changeset is well-formed"); return ok; }
static void checkConf(const std::vector<ConflictFeature>&cf,const std::vector<Conf>&want){ size_t n=0; for(auto&f:cf){ gs_check(!f.items().empty(),"C14 reported conflicts have items"); for(auto&i:f.items()){ n++; bool found=false; for(auto&w:want) if(w.table==f.tableName()&&w.col==i.column()&&(int)w.pk==f.pk()) found=ovEq(fromValue(i.base()),w.b)&&ovEq(fromValue(i.theirs()),w.t)&&ovEq(fromValue(i.ours()),w.o); gs_check(found,"C14 conflict names row, column and the three values"); } } gs_check(n==want.size(),"C14 exactly the real conflicts are reported"); }
static uint64_t sx32(const char*n){ int32_t v=(int32_t)gs_u32(n); gs_assume(v<2147483000); return (uint64_t)(int64_t)v; }
static bool gAscii; static OV val(unsigned m,const char*id){ OV v=symValue(m,1,id); if(gAscii&&v.t==T_TEXT) for(unsigned char c:v.s) gs_assume(c<0x80); return v; }
static void edits(const OT&t,const Row&b,Edit&x,const char*id,unsigned mask){ int nc=b.size(); int k=gs_choice((std::string(id)+".edit").c_str(),(1<<(nc-1))+1); x.w.resize(nc); if(k==1<<(nc-1)){ x.del=true; return; } int bit=0; for(int i=0;i<nc;i++) if(!t.pk[i]) if(k>>bit++&1){ x.w[i]=val(mask,(std::string(id)+nm(".w",i)).c_str()); gs_assume(!ovEq(x.w[i],b[i])); } }
static void expectConf(const OT&t,const Row&b,const Edit&x,const Edit&y,std::vector<Conf>&want){ if(x.del||y.del) return; uint64_t pk=0; for(size_t i=0;i<b.size();i++) if(t.pk[i]) pk=b[i].n; for(size_t i=0;i<b.size();i++) if(x.w[i].t!=T_UNDEF&&y.w[i].t!=T_UNDEF&&!ovEq(x.w[i],y.w[i])&&!(t.name=="gpkg_contents"&&i==4)){ Conf c; c.table=t.name; c.pk=pk; c.col=i; c.b=b[i]; c.t=x.w[i]; c.o=y.w[i]; want.push_back(c); } }
static void judge(Db base,const OC&T,const OC&O,const OC&R,const Db&want){ Db s=base; bool ok=applyAll(s,T); if(!ok){ gs_end_path("theirs does not apply to base"); } ok=applyAll(s,R); gs_check(ok,"C13 rebased changeset applies on top of theirs without conflict"); if(!ok) return; for(size_t i=0;i<want.size();i++) gs_check(sameRows(s[i],want[i]),"C13 result has both sides' edits"); gs_cover("merged"); }
// one row edited by both sides, next to an untouched row, and rows edited by one side only
static void oneRow(int nc,int pkcol,unsigned mask,const char*name,bool api){ gAscii=api; OT t=pkTable(name,nc,1<<pkcol); Row b(nc); static const int KEYS[]={7,-1,2147482999}; uint64_t key=api?(uint64_t)(int64_t)KEYS[gs_choice("key",3)]:sx32("key"); for(int i=0;i<nc;i++) b[i]=i==pkcol?ovInt(key):val(mask,nm("base",i).c_str()); Edit x,y; edits(t,b,x,"theirs",mask); edits(t,b,y,"ours",mask); OC T,O; OT tt=t,ot=t; bool a1,a2; OE e1=entryOf(t,b,x,a1),e2=entryOf(t,b,y,a2); if(a1) tt.e.push_back(e1); if(a2) ot.e.push_back(e2); if(a1) T.push_back(tt); if(a2) O.push_back(ot); std::vector<Conf> want; expectConf(t,b,x,y,want); gs_log("conflicts",want.size()); OC R; std::vector<ConflictFeature> cf; if(!runRebase(T,O,R,cf,want,api)) return; if(!api) checkConf(cf,want); Db base(1),w(1); base[0].name=w[0].name=name; base[0].pk=w[0].pk=t.pk; base[0].rows.push_back(b); if(!x.del&&!y.del) w[0].rows.push_back(merged(b,x,y)); judge(base,T,O,R,w); if(!want.empty()) gs_cover("conflict"); }
extern "C" void h_rebase_row(){ oneRow(3,gs_choice("pkcol",3),M_INT,"t",false); }
extern "C" void h_rebase_types(){ oneRow(2,gs_choice("pkcol",2),M_INT|M_TEXT|M_NULL,"t",false); }
extern "C" void h_rebase_file(){ oneRow(2,0,gs_choice("text",2)?M_TEXT:M_NULL|M_BLOB,gs_choice("quoted",2)?"q\"":"t",true); }
extern "C" void h_rebase_conf(){ OT t=pkTable("t",3,1); Row b(3); b[0]=ovInt(gs_choice("key",2)?7:-1); b[1]=ovInt(1); b[2]=ovStr(T_TEXT,"b"); Edit x,y; x.w.resize(3); y.w.resize(3); int k=gs_choice("cols",4); if(k&1){ x.w[1]=ovInt(2); y.w[1]=gs_choice("same1",2)?ovInt(2):ovInt(3); } if(k&2){ x.w[2]=ovStr(T_TEXT,"t"); y.w[2]=gs_choice("same2",2)?ovStr(T_TEXT,"t"):ovStr(T_BLOB,"t"); } OC T,O; OT tt=t,ot=t; bool a; OE e=entryOf(t,b,x,a); if(a) tt.e.push_back(e); e=entryOf(t,b,y,a); if(a) ot.e.push_back(e); T.push_back(tt); O.push_back(ot); std::vector<Conf> want; expectConf(t,b,x,y,want); OC R; std::vector<ConflictFeature> cf; runRebase(T,O,R,cf,want,true); gs_cover("done"); }
// gpkg_contents: only column 4 is exempt
extern "C" void h_rebase_gpkg(){ int nc=6; static const char*N[]={"gpkg_contents","gpkg_content","t","gpkg_contents2","xgpkg_contents","gpkg_Contents"}; OT t=pkTable(N[gs_choice("name",6)],nc,1); Row b(nc); for(int i=0;i<nc;i++) b[i]=ovInt(i); Edit x,y; x.w.resize(nc); y.w.resize(nc); int k=1+gs_choice("cols",7); for(int j=0;j<3;j++) if(k>>j&1){ x.w[3+j]=ovInt(100+gs_sym("t",8)); y.w[3+j]=ovInt(100+gs_sym("o",8)); } OC T,O; OT tt=t,ot=t; bool a; tt.e.push_back(entryOf(t,b,x,a)); ot.e.push_back(entryOf(t,b,y,a)); T.push_back(tt); O.push_back(ot); std::vector<Conf> want; expectConf(t,b,x,y,want); OC R; std::vector<ConflictFeature> cf; if(!runRebase(T,O,R,cf,want,false)) return; checkConf(cf,want); Db base(1),w(1); base[0].name=w[0].name=t.name; base[0].pk=w[0].pk=t.pk; base[0].rows.push_back(b); w[0].rows.push_back(merged(b,x,y)); judge(base,T,O,R,w); }
// inserts with arbitrary keys on both sides, plus edits of base rows
static void inserts(OT t,int nb,int nt,int no){ int pkc=t.pk[0]?0:1,vc=1-pkc; std::vector<uint64_t> bk,tk,ok; for(int i=0;i<nb;i++) bk.push_back(sx32(nm("bk",i).c_str())); for(int i=0;i<nt;i++) tk.push_back(sx32(nm("tk",i).c_str())); for(int i=0;i<no;i++) ok.push_back(sx32(nm("ok",i).c_str()));
  // distinct keys within a side; base rows are not inserted again; no base row above the largest key theirs inserted
  for(int i=0;i<nt;i++) for(int j=0;j<i;j++) gs_assume(tk[i]!=tk[j]); for(int i=0;i<no;i++) for(int j=0;j<i;j++) gs_assume(ok[i]!=ok[j]); for(int b=0;b<nb;b++){ for(auto k:tk) gs_assume(k!=bk[b]); for(auto k:ok) gs_assume(k!=bk[b]); if(nt){ bool some=false; for(auto k:tk) some|=(int64_t)k>(int64_t)bk[b]; gs_assume(some); } }
  auto row=[&](uint64_t k,int tag,OV v){ Row r(3); r[pkc]=ovInt(k); r[vc]=ovInt(tag); r[2]=v; return r; };
  OC T,O; OT tt=t,ot=t; Db base(1); base[0].name="t"; base[0].pk=t.pk; for(int i=0;i<nb;i++) base[0].rows.push_back(row(bk[i],10+i,ovNull())); for(int i=0;i<nt;i++){ OE e; e.op=OP_INS; e.w=row(tk[i],20+i,ovStr(T_TEXT,"t")); tt.e.push_back(e); } std::vector<Row> orow; OV sv=val(M_INT|M_NULL,"content"); for(int i=0;i<no;i++){ OE e; e.op=OP_INS; e.w=row(ok[i],30+i,sv); orow.push_back(e.w); ot.e.push_back(e); }
  int be=nb?gs_choice("baseEdit",4):0; if(be==1||be==3){ OE e; e.op=OP_DEL; e.o=base[0].rows[0]; (be==1?tt:ot).e.push_back(e); } else if(be==2){ OE e; e.op=OP_UPD; e.o.resize(3); e.w.resize(3); e.o[pkc]=base[0].rows[0][pkc]; e.o[2]=ovNull(); e.w[2]=ovInt(5); ot.e.push_back(e); }
  if(!tt.e.empty()) T.push_back(tt); O.push_back(ot); OC R; std::vector<ConflictFeature> cf; std::vector<Conf> none; if(!runRebase(T,O,R,cf,none,false)) return; gs_check(cf.empty(),"C14 inserts are not conflicts");
  Db s=base; if(!applyAll(s,T)) gs_end_path("theirs does not apply"); Db th=s; bool good=applyAll(s,R); gs_check(good,"C13 rebased changeset applies on top of theirs without conflict"); if(!good) return; size_t wantRows=th[0].rows.size()+no-(be==3); gs_check(s[0].rows.size()==wantRows,"C13 no row is lost or invented"); for(auto&r:th[0].rows){ if(nb&&r[vc].n==10&&be==3) continue; Row w=r; if(nb&&r[vc].n==10&&be==2) w[2]=ovInt(5); gs_check(hasRow(s[0],w),"C13 rows of theirs are kept"); }
  for(int i=0;i<no;i++){ const Row*f=nullptr; for(auto&r:s[0].rows) if(r[vc].t==T_INT&&r[vc].n==30u+i) f=&r; gs_check(f!=nullptr&&ovEq((*f)[2],sv),"C13 inserted rows keep their content"); if(!f) continue; bool same=(*f)[pkc].t==T_INT&&(*f)[pkc].n==ok[i]; if(!same){ bool taken=false; for(auto k:tk) taken|=k==ok[i]; for(auto&r:s[0].rows) if(&r!=f&&r[vc].n>=30&&r[vc].n<30u+no) taken|=ovEq(r[pkc],ovInt(ok[i])); gs_check(taken,"C13 an inserted row whose key is free keeps it"); gs_cover("moved"); } } gs_cover("merged"); }
extern "C" void h_rebase_insert(){ OT t=pkTable("t",3,1<<gs_choice("pkcol",2)); int nb=gs_choice("base",2),nt=gs_choice("theirs",(int)gs_param("theirs",2)+1),no=1+gs_choice("ours",(int)gs_param("ours",2)); inserts(t,nb,nt,no); }
// moved keys that push further inserts out of the way
extern "C" void h_rebase_chain(){ int nt=1+gs_choice("theirs",(int)gs_param("chaint",1)); inserts(pkTable("t",3,1),0,nt,(int)gs_param("chaino",3)); }
// two tables, both sides editing different sets of them; several entries per table
extern "C" void h_rebase_tables(){ static const char*N[]={"a","b"}; OC T,O; Db base(2),want(2); std::vector<Conf> conf; int order=gs_choice("order",2); OT tt[2],ot[2]; for(int i=0;i<2;i++){ OT t=pkTable(N[i],2,1); base[i].name=want[i].name=N[i]; base[i].pk=want[i].pk=t.pk; tt[i]=ot[i]=t; for(int r=0;r<2;r++){ Row b(2); b[0]=ovInt(r+1); b[1]=ovInt(10*i+r); base[i].rows.push_back(b); Edit x,y; x.w.resize(2); y.w.resize(2); int a=gs_choice(nm("theirs",i*10+r).c_str(),3),c=gs_choice(nm("ours",i*10+r).c_str(),3); if(a==1) x.w[1]=ovInt(100+i); else if(a==2) x.del=true; if(c==1) y.w[1]=ovInt(r?100+i:200); else if(c==2) y.del=true; bool any; OE e=entryOf(t,b,x,any); if(any) tt[i].e.push_back(e); e=entryOf(t,b,y,any); if(any) ot[i].e.push_back(e); expectConf(t,b,x,y,conf); if(!x.del&&!y.del) want[i].rows.push_back(merged(b,x,y)); } } for(int k=0;k<2;k++){ int i=order?1-k:k; if(tt[i].e.size()) T.push_back(tt[i]); if(ot[i].e.size()) O.push_back(ot[i]); } OC R; std::vector<ConflictFeature> cf; if(!runRebase(T,O,R,cf,conf,false)) return; checkConf(cf,conf); judge(base,T,O,R,want); }
// empty sides
extern "C" void h_rebase_empty(){ OC X; int n=gs_choice("tables",3); for(int i=0;i<n;i++){ OT t=pkTable(i?"b":"a",2,1+(i==1&&gs_choice("pk",2))); int k=gs_choice(nm("n",i).c_str(),3); for(int j=0;j<k;j++) t.e.push_back(wfEntry(t,OPS[gs_choice(nm("op",i*10+j).c_str(),3)],M_INT|M_NULL,0,nm("e",i*10+j),false)); X.push_back(t); } bool theirsEmpty=gs_choice("side",2); OC none; OC R; const char*ft=gs_path(FT),*fo=gs_path(FO),*fr=gs_path(FR),*fc=gs_path(FC); Bytes xb=encode(X),eb; putFile(ft,theirsEmpty?eb:xb); putFile(fo,theirsEmpty?xb:eb); if(gs_choice("existing",2)) putFile(fr,Bytes(9,'z')); int rc=GEODIFF_createRebasedChangesetEx("sqlite","","base",fo,ft,fr,fc); gs_check(rc==GEODIFF_SUCCESS,"C15 rebasing with an empty side succeeds"); gs_check(fileIs(ft,theirsEmpty?eb:xb)&&fileIs(fo,theirsEmpty?xb:eb),"C15,C21 input changesets unchanged"); gs_check(gs_file_size(fr)>=0,"C15 output file is produced"); Bytes rb=readFile(fr); bool ok=decode(rb.data(),rb.size(),R); gs_check(ok,"C15 output is a well-formed changeset"); if(ok) checkSame(theirsEmpty?X:none,R,"C15 "); gs_check(gs_file_size(fc)<0,"C14 no conflict file without conflicts"); gs_cover("done"); }
// tables with many columns
extern "C" void h_rebase_wide(){ static const int C[]={1,7,8,31,32,63,64,69}; int nc=70; OT t; t.name="t"; for(int i=0;i<nc;i++) t.pk.push_back(i==0); Row b(nc); for(int i=0;i<nc;i++) b[i]=ovInt(i); Edit x,y; x.w.resize(nc); y.w.resize(nc); x.w[C[gs_choice("theirs",8)]]=ovInt(100+gs_sym("t",8)); y.w[C[gs_choice("ours",8)]]=ovInt(100+gs_sym("o",8)); OC T,O; OT tt=t,ot=t; bool a; tt.e.push_back(entryOf(t,b,x,a)); ot.e.push_back(entryOf(t,b,y,a)); T.push_back(tt); O.push_back(ot); std::vector<Conf> want; expectConf(t,b,x,y,want); OC R; std::vector<ConflictFeature> cf; if(!runRebase(T,O,R,cf,want,false)) return; checkConf(cf,want); Db base(1),w(1); base[0].name=w[0].name=t.name; base[0].pk=w[0].pk=t.pk; base[0].rows.push_back(b); w[0].rows.push_back(merged(b,x,y)); judge(base,T,O,R,w); }
// long values: same, changed by one side, by both sides
extern "C" void h_rebase_big(){ int len=BIGLEN[gs_choice("len",12)]; OT t=pkTable("t",3,1); Row b(3); b[0]=ovInt(4); b[1]=bigCell("v",len); b[2]=ovInt(1); OV other=bigOther(b[1],"other"),third=b[1]; third.s[0]^=2; Edit x,y; x.w.resize(3); y.w.resize(3); int k=gs_choice("who",4); if(k!=1) x.w[1]=other; if(k==1||k==2) y.w[1]=other; if(k==3) y.w[1]=third; y.w[2]=ovInt(9); OC T,O; OT tt=t,ot=t; bool a; tt.e.push_back(entryOf(t,b,x,a)); ot.e.push_back(entryOf(t,b,y,a)); T.push_back(tt); O.push_back(ot); std::vector<Conf> want; expectConf(t,b,x,y,want); OC R; std::vector<ConflictFeature> cf; if(!runRebase(T,O,R,cf,want,false)) return; checkConf(cf,want); Db base(1),w(1); base[0].name=w[0].name=t.name; base[0].pk=w[0].pk=t.pk; base[0].rows.push_back(b); w[0].rows.push_back(merged(b,x,y)); judge(base,T,O,R,w); }
// many rows: edits and deletions overlapping in the middle, inserts with the same keys
extern "C" void h_rebase_many(){ int n=(int)gs_param("many",30),at=gs_choice("at",4)*(n-1)/3; OT t=pkTable("t",3,1),tt=t,ot=t; Db base(1),want(1); base[0].name=want[0].name="t"; base[0].pk=want[0].pk=t.pk; std::vector<Conf> conf; bool any; for(int i=0;i<n;i++){ Row b(3); b[0]=ovInt(i+1); b[1]=ovInt(1000+i); b[2]=ovInt(2000+i); base[0].rows.push_back(b); Edit x,y; x.w.resize(3); y.w.resize(3); if(i%4==0) x.del=true; else if(i%4==1) x.w[1]=i==at?ovInt(500+gs_sym("t",8)):ovInt(501); else if(i%4==2) x.w[2]=ovInt(502); if(i%5==0) y.del=true; else if(i%5<3) y.w[i%5]=i==at?ovInt(500+gs_sym("o",8)):ovInt(600); OE e=entryOf(t,b,x,any); if(any) tt.e.push_back(e); e=entryOf(t,b,y,any); if(any) ot.e.push_back(e); expectConf(t,b,x,y,conf); if(!x.del&&!y.del) want[0].rows.push_back(merged(b,x,y)); }
  int m=(int)gs_param("manyins",30); std::vector<Row> ours; uint64_t k0=gs_sym("first",6); for(int i=0;i<m;i++){ OE e; e.op=OP_INS; e.w.push_back(ovInt(n+1+i)); e.w.push_back(ovInt(7000+i)); e.w.push_back(ovNull()); tt.e.push_back(e); want[0].rows.push_back(e.w); e.w[0]=ovInt(i==0?n+1+k0:n+1+m/2+i); e.w[1]=ovInt(8000+i); ot.e.push_back(e); ours.push_back(e.w); } for(int i=1;i<m;i++) gs_assume(ours[i][0].n!=ours[0][0].n);
  OC T(1,tt),O(1,ot),R; std::vector<ConflictFeature> cf; if(!runRebase(T,O,R,cf,conf,false)) return; checkConf(cf,conf); Db s=base; if(!applyAll(s,T)) gs_end_path("theirs"); bool ok=applyAll(s,R); gs_check(ok,"C13 rebased changeset applies on top of theirs without conflict"); if(!ok) return; gs_check(s[0].rows.size()==want[0].rows.size()+m,"C13 no row is lost or invented"); for(auto&w:want[0].rows) gs_check(hasRow(s[0],w),"C13 result has both sides' edits"); for(auto&o:ours){ int hits=0; bool kept=false; for(auto&r:s[0].rows) if(ovEq(r[1],o[1])){ hits++; kept=ovEq(r[0],o[0]); } gs_check(hits==1,"C13 inserted rows keep their content"); if(!kept){ bool taken=false; for(auto&r:s[0].rows) taken|=ovEq(r[0],o[0]); gs_check(taken,"C13 an inserted row whose key is free keeps it"); } } gs_cover("merged"); }
