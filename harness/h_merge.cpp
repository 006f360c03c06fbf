// C16: rebase of whole databases; C17: concatenated changesets.
#include "sq.h"
#include "changesetutils.h"
#include "geodiffrebase.hpp"
#include "names.h"
extern "C" { std::string gs_stub_entry_json(const ChangesetEntry&){ return std::string("{}"); } std::string gs_stub_conflicts_json(const std::vector<ConflictFeature>&){ return std::string("{}"); } }
struct Edit { bool del; Row w; Edit():del(false){} };
static Edit edit(const ST&t,const Row&b,unsigned mask,const char*id){ Edit x; int nc=(int)b.size(),k=gs_choice((std::string(id)+".edit").c_str(),(1<<(nc-1))+1); x.w.resize(nc); if(k==1<<(nc-1)){ x.del=true; return x; } int bit=0; for(int i=0;i<nc;i++) if(!t.pk[i]) if(k>>bit++&1){ x.w[i]=symCell(mask,1,(std::string(id)+nm(".w",i)).c_str()); gs_assume(!ovEq(x.w[i],b[i])); } return x; }
static Row put(const Row&b,const Edit&e){ Row r=b; for(size_t i=0;i<b.size();i++) if(e.w[i].t!=T_UNDEF) r[i]=e.w[i]; return r; }
static const char*pB(){ return gs_path("base.db"); }
static const char*pT(){ return gs_path("theirs.db"); }
static const char*pM(){ return gs_path("ours.db"); }
static const char*pC(){ return gs_path("conflicts.json"); }
static int runRebase(const SDb&B,const SDb&T,const SDb&M,const std::vector<std::string>&more=std::vector<std::string>()){ sqMake(pB(),B,more); sqMake(pT(),T,more); sqMake(pM(),M,more); Bytes b0=readFile(pB()),t0=readFile(pT()); std::vector<std::string> s0=sqSchema(pM()); if(gs_choice("stale",2)) putFile(pC(),Bytes(3,'x')); int files=gs_count_files(); bool stale=gs_file_size(pC())>=0; int rc=GEODIFF_rebase(pB(),pT(),pM(),pC()); gs_check(fileIs(pB(),b0)&&fileIs(pT(),t0),"C16,C21 base or theirs modified"); gs_check(sqSchema(pM())==s0,"C16,C11 schema or triggers changed"); bool conf=gs_file_size(pC())>=0; gs_check(gs_count_files()==files-stale+conf,"C21 files left behind"); return rc; }
// the sides' edits of every base row, own inserts, and the expected result
static void merge(int nb,int nti,int noi,const ST&like,const std::vector<unsigned>&mk,bool two){ SDb B(1,like); if(two){ ST u=like; u.name="u \"2\""; B.push_back(u); } size_t nt=B.size(); std::vector<Row> want[2]; bool conflict=false; SDb T=B,M=B; bool tch=false,och=false;
  for(size_t k=0;k<nt;k++){ ST&b=B[k]; for(int i=0;i<nb;i++){ Row r; r.push_back(ovInt(1+i)); for(size_t c=1;c<b.pk.size();c++) r.push_back(symCell(mk[c],1,"b")); b.rows.push_back(r); Edit x=edit(b,r,mk[1],(nm("theirs",k*10+i)).c_str()),y=edit(b,r,mk[1],(nm("ours",k*10+i)).c_str()); if(!x.del) T[k].rows.push_back(put(r,x)); if(!y.del) M[k].rows.push_back(put(r,y)); tch|=x.del; och|=y.del; for(size_t c=1;c<r.size();c++){ tch|=x.w[c].t!=T_UNDEF; och|=y.w[c].t!=T_UNDEF; if(!x.del&&!y.del&&x.w[c].t!=T_UNDEF&&y.w[c].t!=T_UNDEF&&!ovEq(x.w[c],y.w[c])) conflict=true; } if(!x.del&&!y.del) want[k].push_back(put(put(r,x),y)); } }
  std::vector<Row> ours; ST&t0=T[0],&m0=M[0]; for(int i=0;i<nti;i++){ Row r; r.push_back(symCell(M_INT,0,"tk")); gs_assume((int64_t)r[0].n>nb&&(int64_t)r[0].n<2147483000); for(size_t c=1;c<like.pk.size();c++) r.push_back(ovStr(T_TEXT,"t")); t0.rows.push_back(r); want[0].push_back(r); tch=true; } for(int i=0;i<noi;i++){ Row r; r.push_back(symCell(M_INT,0,"ok")); gs_assume((int64_t)r[0].n>nb&&(int64_t)r[0].n<2147483000); for(size_t c=1;c<like.pk.size();c++) r.push_back(ovStr(T_TEXT,i?"o1":"o0")); m0.rows.push_back(r); ours.push_back(r); och=true; } gs_assume(distinctKeys(t0)); gs_assume(distinctKeys(m0));
  int rc=runRebase(B,T,M); gs_check(rc==0,"C16 rebase failed"); if(rc) return; gs_log("conflict",conflict); bool cf=gs_file_size(pC())>=0; gs_check(cf==conflict,"C16,C14 conflict file exactly when both sides changed a value differently");
  SDb R=sqRead(pM(),M); for(size_t k=0;k<nt;k++){ size_t n=want[k].size()+(k==0?ours.size():0); gs_check(R[k].rows.size()==n,"C16 number of rows"); for(auto&w:want[k]) gs_check(hasRow(R[k],w),"C16 merged row is missing"); } for(auto&o:ours){ int hits=0; bool kept=false; for(auto&r:R[0].rows) if(ovEq(r[1],o[1])){ hits++; kept=ovEq(r[0],o[0]); } gs_check(hits==1,"C16 our inserted row is missing"); bool taken=false; for(auto&r:T[0].rows) taken|=ovEq(r[0],o[0]); if(!taken) { bool moved=false; for(auto&r:R[0].rows) moved|=r[1].t==T_TEXT&&r[1].s.size()==2&&!ovEq(r[1],o[1])&&ovEq(r[0],o[0]); gs_check(kept||moved,"C16 our row lost its free key"); } }
  if(tch&&och) gs_cover("both"); else gs_cover("one side"); (void)och; }
static OE edE(const OT&t,const Row&,int op,const char*id){ OE e; e.op=op; if(op!=OP_UPD){ for(size_t i=0;i<t.pk.size();i++) (op==OP_INS?e.w:e.o).push_back(symCell(M_INT,0,id)); return e; } e.o.resize(t.pk.size()); e.w.resize(t.pk.size()); e.o[0]=symCell(M_INT,0,id); for(size_t i=1;i<t.pk.size();i++) if(gs_choice((std::string(id)+nm(".c",i)).c_str(),2)){ e.o[i]=symCell(M_INT,0,id); e.w[i]=symCell(M_INT,0,id); gs_assume(e.o[i].n!=e.w[i].n); } return e; }
extern "C" {
void h_merge_rows(){ merge((int)gs_param("rows",1),0,0,sqTab("t","id INTEGER,a,b",1),std::vector<unsigned>(3,M_INT|(unsigned)gs_param("null",0)),false); }
void h_merge_types(){ merge(1,0,0,sqTab("t","id INTEGER,a",1),std::vector<unsigned>(2,M_INT|M_TEXT|M_NULL),false); }
void h_merge_inserts(){ merge(1,gs_choice("ti",2),1+gs_choice("oi",2),sqTab("t","id INTEGER,a",1),std::vector<unsigned>(2,M_INT),false); }
void h_merge_tables(){ merge(1,0,0,sqTab("t","id INTEGER,a",1),std::vector<unsigned>(2,M_INT),true); }
// a schema that cannot be compared, triggers
void h_merge_schema(){ int k=gs_choice("what",4); SDb B(1,sqTab("t","id INTEGER,a",1)),T=B,M=B; Row r; r.push_back(ovInt(1)); r.push_back(symCell(M_INT,0,"b")); B[0].rows.push_back(r); T[0].rows.push_back(r); M[0].rows.push_back(r); T[0].rows[0][1]=symCell(M_INT,0,"t"); r[0]=ovInt(2); M[0].rows.push_back(r); std::vector<std::string> more; if(k==0) T[0].cols[1]="z"; if(k==1) M[0].cols[1]="z"; if(k==2) M.push_back(sqTab("x","id INTEGER",1)); if(k==3) { more.push_back("CREATE TRIGGER \"a b\" AFTER INSERT ON t BEGIN DELETE FROM t; END"); more.push_back("CREATE TRIGGER tr AFTER UPDATE ON t BEGIN UPDATE t SET a = 5; END"); }
  int rc=runRebase(B,T,M,more); if(k==3){ gs_check(rc==0,"C16 rebase failed"); SDb w=M; w[0].rows[0]=T[0].rows[0]; gs_check(sqSame(sqRead(pM(),M),w),"C16,C11 rebased rows with triggers"); gs_cover("triggers"); return; } bool tdiff=!ovEq(B[0].rows[0][1],T[0].rows[0][1])||k==0; (void)tdiff; if(rc==0){ gs_check(k!=0,"C16,C12 rebase of databases with other columns"); SDb a=sqRead(pM(),M); gs_check(sqSame(a,M)&&!tdiff,"C16 partial rebase reported as success"); } else gs_check(sqSame(sqRead(pM(),M),M),"C16 failed rebase changed the database"); gs_cover("refused"); }
// a rebased changeset is refused exactly for foreign keys of user tables and triggers that are not GeoPackage's own
static void rebasable(const SDb&M,const std::vector<std::string>&more,bool ok){ SDb B=M; if(B[0].rows.size()) B[0].rows.clear(); sqMake(gs_path("base.db"),B,gs_choice("base too",2)?more:std::vector<std::string>()); sqMake(pM(),M,more); OC th(1,pkTable("t",2,1)); OE e; e.op=OP_INS; e.w.push_back(symCell(M_INT,0,"theirs")); e.w.push_back(ovInt(1)); th[0].e.push_back(e); if(gs_choice("no theirs",2)) th.clear(); putFile(gs_path("theirs.diff"),encode(th)); int files=gs_count_files();
  int rc=GEODIFF_createRebasedChangeset(gs_path("base.db"),pM(),gs_path("theirs.diff"),gs_path("out.diff"),gs_path("conf")); gs_check((rc==0)==ok,"C38 refused exactly for foreign keys and unknown triggers"); if(rc){ gs_check(gs_count_files()==files,"C38,C21 a refused rebase leaves files"); gs_cover("refused"); } else { OC r; gs_check(decodeFile(gs_path("out.diff"),r),"C38 rebased changeset is malformed"); gs_check(gs_count_files()==files+1,"C21 files left behind"); gs_cover("accepted"); } gs_check(sqSame(sqRead(pM(),M),M),"C16,C21 input modified"); }
static SDb tRow(){ SDb M(1,sqTab("t","id INTEGER,a",1)); Row r; r.push_back(symCell(M_INT,0,"key")); r.push_back(ovInt(7)); M[0].rows.push_back(r); return M; }
void h_rebasable_fk(){ SDb M=tRow(); int f=gs_choice("form",13); static const char*const tn[]={"child","gpkg_child","rtree_child","odd \"name'","gpk","rtreechild"}; int n=gs_choice("table",f?6:1); bool key=gs_choice("key",2), self=false; std::string d="pid INTEGER",x; switch(f){ case 0: break; case 1: d+=" REFERENCES t"; break; case 2: d+=" REFERENCES t(id)"; break; case 3: d+=" REFERENCES t(ID)"; break; case 4: d+=" REFERENCES T (\"id\")"; break; case 5: d+=" REFERENCES missing(id)"; break; case 6: d+=" REFERENCES missing"; break; case 7: d+=" REFERENCES t(id) ON DELETE CASCADE"; break; case 8: x=", FOREIGN KEY(x,pid) REFERENCES t(a,id)"; break; case 9: x=", FOREIGN KEY(PID) REFERENCES t(id)"; break; case 10: x=", FOREIGN KEY(pid) REFERENCES "+qid(tn[n])+"(x)"; self=true; break; case 11: d+=" REFERENCES t(nosuch)"; break; default: x=", CONSTRAINT c FOREIGN KEY(x) REFERENCES t ON UPDATE SET NULL"; }
  (void)self; ST c=sqTab(tn[n],"x INTEGER,y",key?1:0); c.cols.push_back(d.substr(0,3)); c.types.push_back(d.substr(4)); c.pk.push_back(0); c.extra=x; M.insert(gs_choice("first",2)?M.begin():M.end(),c); bool own=n==1||n==2; if(M[0].name!="t") std::swap(M[0],M[1]); rebasable(M,std::vector<std::string>(),f==0||own); }
void h_rebasable_trigger(){ SDb M=tRow(); static const char*const ok[]={"gpkg_t_insert","rtree_t_geom_insert","trigger_insert_feature_count_t","trigger_delete_feature_count_t","gpkg_"}; static const char*const bad[]={"tr","gpkg","gpkgx","Gpkg_x"," gpkg_x","my_gpkg_x","rtree","rtreex","trigger_insert_feature_coun","trigger_insert_feature_count","trigger_update_feature_count_t","trigger_delete_feature_countt","odd \"name\"","feature_count_t"}; int nb=gs_choice("unknown",15),no=gs_choice("own",6); std::vector<std::string> more; if(no) more.push_back("CREATE TRIGGER "+qid(ok[no-1])+" AFTER INSERT ON t BEGIN SELECT 1; END"); if(nb) more.push_back("CREATE TRIGGER "+qid(bad[nb-1])+" AFTER DELETE ON t BEGIN SELECT 1; END"); if(gs_choice("order",no&&nb?2:1)) std::swap(more[0],more[1]); rebasable(M,more,nb==0); }
// a name that is one edit away from GeoPackage's own: any character replaced, added or left out
void h_rebasable_triggername(){ SDb M=tRow(); std::string n=editedName(OWN_TRIGGERS,4); std::vector<std::string> more; more.push_back("CREATE TRIGGER "+qid(n.c_str())+" AFTER INSERT ON t BEGIN SELECT 1; END"); rebasable(M,more,ownName(n,OWN_TRIGGERS,4)); }
void h_rebasable_tablename(){ SDb M=tRow(); std::string n=editedName(OWN_TRIGGERS,2); ST c=sqTab(n.c_str(),"x INTEGER,y",1); c.cols.push_back("pid"); c.types.push_back("INTEGER REFERENCES t(id)"); c.pk.push_back(0); M.push_back(c); rebasable(M,std::vector<std::string>(),ownName(n,OWN_TRIGGERS,2)); }
// three changesets over one table; every order of operations on any keys
void h_concat_rows(){ int N=(int)gs_param("rows",1),E=(int)gs_param("entries",1); SDb D(1,sqTab("t","id INTEGER,a,b",1)); symRows(D[0],gs_choice("n",N+1),std::vector<unsigned>(3,M_INT),0,"d"); static const char*F[]={"c0","c1","c2"}; OC c[3]; int have=0; for(int i=0;i<3;i++){ int n=gs_choice(nm("entries",i).c_str(),E+1); c[i].push_back(pkTable("t",3,1)); for(int j=0;j<n;j++) c[i][0].e.push_back(edE(c[i][0],Row(),OPS[gs_choice(nm("op",i*10+j).c_str(),3)],nm("e",i*10+j).c_str())); have+=n; if(!n&&gs_choice(nm("no table",i).c_str(),2)) c[i].clear(); }
  Db w=plain(D); for(int i=0;i<3;i++) if(!applyAll(w,c[i])) gs_end_path("sequence fails"); Bytes b[3]; bool any=false; for(int i=0;i<3;i++){ b[i]=encode(c[i]); any|=!b[i].empty(); putFile(gs_path(F[i]),b[i]); } if(!any) gs_end_path("all empty"); int files=gs_count_files(); bool err=true; int g=guarded([&]{ err=concatChangesets(gs_path(F[0]),gs_path(F[1]),gs_path(F[2]),gs_path("out")); }); gs_check(g==0&&!err,"C17 concatenation failed"); if(g||err) return; OC r; gs_check(decodeFile(gs_path("out"),r),"C17 output is malformed"); Db x=plain(D); bool ok=applyAll(x,r); gs_check(ok,"C17 concatenation does not apply"); gs_check(!ok||sameRows(x[0],w[0]),"C17 concatenation differs from the sequence"); for(int i=0;i<3;i++) gs_check(fileIs(gs_path(F[i]),b[i]),"C21 input modified"); gs_check(gs_count_files()==files+1,"C21 files left behind"); gs_log("left",flat(r).size()); gs_cover("done"); }
// several tables, values of other types, arbitrary names
void h_concat_tables(){ SDb D; D.push_back(sqTab("t","id INTEGER,a",1)); D.push_back(sqTab("select","id INTEGER,a",1)); for(int k=0;k<2;k++){ Row r; r.push_back(symCell(M_INT,0,"d")); r.push_back(symCell(k?M_TEXT|M_NULL:M_BLOB,1,"d")); D[k].rows.push_back(r); } OC c[3]; Db w=plain(D); static const char*F[]={"c0","c1","c2"}; for(int i=0;i<3;i++){ int k=gs_choice(nm("table",i).c_str(),3); for(int j=0;j<2;j++) if(k==j||k==2){ OT t=pkTable(D[j].name.c_str(),2,1); OE e; int row=w[j].rows.empty()?-1:0; int op=row<0?0:1+gs_choice(nm("op",i*10+j).c_str(),2); if(op==0){ e.op=OP_INS; e.w.push_back(symCell(M_INT,0,"k")); e.w.push_back(symCell(M_INT|M_TEXT,1,"v")); } else if(op==1){ e.op=OP_DEL; e.o=w[j].rows[0]; } else { e.op=OP_UPD; e.o=w[j].rows[0]; e.w.resize(2); e.w[1]=symCell(M_INT|M_TEXT,1,"u"); gs_assume(!ovEq(e.o[1],e.w[1])); } t.e.push_back(e); bool ok=applyEntry(w[j],e); if(!ok) gs_end_path("sequence fails"); c[i].push_back(t); } putFile(gs_path(F[i]),encode(c[i])); }
  bool err=true; int g=guarded([&]{ err=concatChangesets(gs_path(F[0]),gs_path(F[1]),gs_path(F[2]),gs_path("out")); }); gs_check(g==0&&!err,"C17 concatenation failed"); if(g||err) return; OC r; gs_check(decodeFile(gs_path("out"),r),"C17 output is malformed"); Db x=plain(D); bool ok=applyAll(x,r); gs_check(ok,"C17 concatenation does not apply"); if(ok) for(int k=0;k<2;k++) gs_check(sameRows(x[k],w[k]),"C17 concatenation differs from the sequence"); gs_cover("done"); }
// inputs that cannot be combined: missing, malformed, other columns; output that cannot be written
void h_concat_bad(){ OC a(1,pkTable("t",2,1)); OE e; e.op=OP_INS; e.w.push_back(symCell(M_INT,0,"k")); e.w.push_back(symCell(M_INT,0,"v")); a[0].e.push_back(e); static const char*F[]={"c0","c1","c2"}; int who=gs_choice("which",3),how=gs_choice("how",4); if(how) how++; // inputs cut short are rejected before, by the reader
 for(int i=0;i<3;i++){ OC x=a; x[0].e[0].w[0].n=a[0].e[0].w[0].n+i; Bytes b=encode(x); if(i==who&&how==0) continue; if(i==who&&how==2){ x[0]=pkTable("t",3,1); OE f=e; f.w.push_back(ovInt(1)); x[0].e.push_back(f); b=encode(x); } if(i==who&&how==3) b[0]='X'; putFile(gs_path(F[i]),b); } const char*out=gs_path("out"); if(how==4){ gs_make_dir(out); } bool err=true; int g=guarded([&]{ err=concatChangesets(gs_path(F[0]),gs_path(F[1]),gs_path(F[2]),out); }); gs_check(g!=2,"C17,C18 other exception"); gs_check(g||err,"C17 inputs that cannot be combined or an output that cannot be written give an error"); gs_cover("done"); }
// many rows, long values
void h_merge_many(){ int n=(int)gs_param("many",20),at=gs_choice("at",3)*(n-1)/2; SDb B(1,sqTab("t","id INTEGER,a,b",1)); for(int i=0;i<n;i++){ Row r; r.push_back(ovInt(i+1)); r.push_back(ovInt(100+i)); r.push_back(ovInt(200+i)); B[0].rows.push_back(r); } SDb T=B,M=B,W=B; for(int i=0;i<n;i++){ if(i%2==0||i==at) T[0].rows[i][1]=W[0].rows[i][1]=i==at?symCell(M_INT,0,"t"):ovInt(500+i); if(i%3==0||i==at) M[0].rows[i][2]=W[0].rows[i][2]=i==at?symCell(M_INT,0,"m"):ovInt(600+i); } for(int i=0;i<5;i++){ Row r; r.push_back(ovInt(100+i)); r.push_back(ovInt(700+i)); r.push_back(ovNull()); T[0].rows.push_back(r); W[0].rows.push_back(r); r[1]=ovInt(800+i); M[0].rows.push_back(r); } int rc=runRebase(B,T,M); gs_check(rc==0,"C16 rebase failed"); if(rc) return; SDb R=sqRead(pM(),M); gs_check(R[0].rows.size()==W[0].rows.size()+5,"C16 number of rows"); for(auto&w:W[0].rows) gs_check(hasRow(R[0],w),"C16 merged row is missing"); for(int i=0;i<5;i++){ int hits=0; for(auto&r:R[0].rows) hits+=ovEq(r[1],ovInt(800+i))&&r[2].t==T_NULL; gs_check(hits==1,"C16 our inserted row is missing"); } gs_cover("both"); }
void h_merge_big(){ int len=BIGLEN[gs_choice("len",12)]; SDb B(1,sqTab("t","id INTEGER,a,b",1)); Row r; r.push_back(ovInt(1)); r.push_back(bigCell("v",len)); r.push_back(ovInt(5)); B[0].rows.push_back(r); SDb T=B,M=B,W=B; bool who=gs_choice("who",2); OV o=bigOther(r[1],"other"); (who?T:M)[0].rows[0][1]=o; (who?M:T)[0].rows[0][2]=ovInt(6); W[0].rows[0][1]=o; W[0].rows[0][2]=ovInt(6); int rc=runRebase(B,T,M); gs_check(rc==0,"C16 rebase failed"); if(rc) return; gs_check(gs_file_size(pC())<0,"C16,C14 conflict file without conflicts"); gs_check(sqSame(sqRead(pM(),M),W),"C16 merged row is missing"); gs_cover("both"); }
void h_concat_many(){ int n=(int)gs_param("many",30),at=gs_choice("at",3)*(n-1)/2; SDb D(1,sqTab("t","id INTEGER,a",1)); OC c[3]; static const char*F[]={"c0","c1","c2"}; for(int k=0;k<3;k++) c[k].push_back(pkTable("t",2,1)); for(int i=0;i<n;i++){ OE e; e.op=OP_INS; e.w.push_back(ovInt(i)); e.w.push_back(i==at?symCell(M_INT,0,"v"):ovInt(i)); c[0][0].e.push_back(e); if(i%2==0){ OE f; f.op=OP_UPD; f.o=e.w; f.w.resize(2); f.w[1]=ovInt(500+i); gs_assume(!ovEq(f.o[1],f.w[1])); c[1][0].e.push_back(f); e.w[1]=f.w[1]; } if(i%3==0){ OE g; g.op=OP_DEL; g.o=e.w; c[2][0].e.push_back(g); } } Db w=plain(D); for(int i=0;i<3;i++){ if(!applyAll(w,c[i])) gs_unsupported("sequence"); putFile(gs_path(F[i]),encode(c[i])); } bool err=true; int g=guarded([&]{ err=concatChangesets(gs_path(F[0]),gs_path(F[1]),gs_path(F[2]),gs_path("out")); }); gs_check(g==0&&!err,"C17 concatenation failed"); if(g||err) return; OC r; gs_check(decodeFile(gs_path("out"),r),"C17 output is malformed"); Db x=plain(D); bool ok=applyAll(x,r); gs_check(ok,"C17 concatenation does not apply"); gs_check(!ok||sameRows(x[0],w[0]),"C17 concatenation differs from the sequence"); gs_cover("done"); }
void h_concat_big(){ int len=BIGLEN[gs_choice("len",12)]; SDb D(1,sqTab("t","id INTEGER,a,b",1)); Row b; b.push_back(ovInt(1)); b.push_back(bigCell("v",len)); b.push_back(ovInt(2)); D[0].rows.push_back(b); OC c[3]; static const char*F[]={"c0","c1","c2"}; OV o=bigOther(b[1],"other"); for(int k=0;k<3;k++){ c[k].push_back(pkTable("t",3,1)); OE e; e.op=OP_UPD; e.o.resize(3); e.w.resize(3); e.o[0]=ovInt(1); if(k==1){ e.o[2]=ovInt(2); e.w[2]=ovInt(3); } else { e.o[1]=k?o:b[1]; e.w[1]=k?ovStr(T_TEXT,"z"):o; } c[k][0].e.push_back(e); } if(gs_choice("two",2)) c[2].clear(); Db w=plain(D); for(int i=0;i<3;i++){ if(!applyAll(w,c[i])) gs_unsupported("sequence"); putFile(gs_path(F[i]),encode(c[i])); } bool err=true; int g=guarded([&]{ err=concatChangesets(gs_path(F[0]),gs_path(F[1]),gs_path(F[2]),gs_path("out")); }); gs_check(g==0&&!err,"C17 concatenation failed"); if(g||err) return; OC r; gs_check(decodeFile(gs_path("out"),r),"C17 output is malformed"); Db x=plain(D); bool ok=applyAll(x,r); gs_check(ok,"C17 concatenation does not apply"); gs_check(!ok||sameRows(x[0],w[0]),"C17 concatenation differs from the sequence"); gs_cover("done"); }
// keys that rebasing does not support: refused without traces, or merged
void h_merge_keys(){ static const char*const S[]={"k INTEGER,l INTEGER,a","k REAL,a,l","k BLOB,a,l","k TEXT,l TEXT,a"}; static const int PK[]={3,1,1,3}; int sh=gs_choice("shape",4); bool odd=gs_choice("only the second table",2); SDb B; if(odd){ ST p=sqTab("p","id INTEGER,a",1); Row r; r.push_back(ovInt(1)); r.push_back(ovInt(5)); p.rows.push_back(r); B.push_back(p); } B.push_back(sqTab("t",S[sh],PK[sh])); int x=odd; Row r; for(int i=0;i<3;i++){ OV v=ovInt(3+i); if(sh==1&&i==0) v=ovReal(dbits(0.5)); if(sh==2&&i==0) v=ovStr(T_BLOB,"k"); if(sh==3&&i<2) v=ovStr(T_TEXT,i?"l":"k"); r.push_back(v); } B[x].rows.push_back(r); SDb T=B,M=B; int vc=sh==1||sh==2?1:2; int who=1+gs_choice("who",3); OV t=symCell(M_INT,0,"t"),m=symCell(M_INT,0,"m"); if(who&1) T[x].rows[0][vc]=t; if(who&2) M[x].rows[0][sh==1||sh==2?2:vc]=m; if(odd){ T[0].rows[0][1]=symCell(M_INT,0,"pt"); Row q; q.push_back(ovInt(1)); q[0]=ovInt(8); q.push_back(ovInt(1)); M[0].rows.push_back(q); }
  int rc=runRebase(B,T,M); SDb R=sqRead(pM(),M); gs_log("rc",rc!=0); if(rc){ gs_check(sqSame(R,M),"C16 failed rebase changed the database"); gs_check(gs_file_size(pC())<0,"C16,C21 refused rebase left a conflict file"); gs_cover("refused"); return; } SDb W=T; if(who&2&&!ovEq(M[x].rows[0][sh==1||sh==2?2:vc],B[x].rows[0][sh==1||sh==2?2:vc])) W[x].rows[0][sh==1||sh==2?2:vc]=M[x].rows[0][sh==1||sh==2?2:vc]; if(odd) W[0].rows.push_back(M[0].rows[1]); gs_check(sqSame(R,W),"C16 merged row is missing"); gs_cover("merged"); }
// the same through changesets only
void h_rebased_keys(){ SDb B(1,sqTab("t","k INTEGER,l INTEGER,a",3)); Row r; for(int i=0;i<3;i++) r.push_back(ovInt(i)); B[0].rows.push_back(r); SDb M=B; M[0].rows[0][2]=symCell(M_INT,0,"m"); sqMake(pB(),B); sqMake(pM(),M); OC th(1,pkTable("t",3,3)); OE e; e.op=OP_DEL; e.o=r; th[0].e.push_back(e); putFile(gs_path("theirs.diff"),encode(th)); int files=gs_count_files(); int rc=GEODIFF_createRebasedChangeset(pB(),pM(),gs_path("theirs.diff"),gs_path("out.diff"),pC()); if(rc){ gs_check(gs_count_files()==files||(gs_count_files()==files+1&&gs_file_size(gs_path("out.diff"))>=0),"C21 files left behind"); gs_cover("refused"); } else gs_cover("accepted"); gs_check(sqSame(sqRead(pM(),M),M)&&sqSame(sqRead(pB(),B),B),"C16,C21 input modified"); }
// each side satisfies the table's constraints, the merge may not: then it fails as a whole
void h_merge_constraint(){ int kind=gs_choice("kind",2); SDb B; bool two=gs_choice("another table",2); if(two){ ST p=sqTab("p","id INTEGER,a",1); Row r; r.push_back(ovInt(1)); r.push_back(ovInt(5)); p.rows.push_back(r); B.push_back(p); } B.push_back(kind?sqTab("t","id INTEGER,a INTEGER,b INTEGER CHECK (a < b)",1):sqTab("t","id INTEGER,a INTEGER UNIQUE,b INTEGER",1)); int x=two; Row r; r.push_back(ovInt(1)); r.push_back(ovInt(1)); r.push_back(ovInt(50)); B[x].rows.push_back(r); SDb T=B,M=B; long long a=(int8_t)gs_sym("theirs",8),m=(int8_t)gs_sym("ours",8); gs_assume(a!=1&&m!=1&&m!=50&&a>-40&&a<40&&m>-40&&m<40); bool clash; if(kind==0){ Row t=r,o=r; t[0]=ovInt(2); t[1]=ovInt(a); T[x].rows.push_back(t); bool ins=gs_choice("insert",2); if(ins){ o[0]=ovInt(3); o[1]=ovInt(m); M[x].rows.push_back(o); } else M[x].rows[0][1]=ovInt(m); clash=a==m; } else { gs_assume(a<50&&m>1); T[x].rows[0][1]=ovInt(a); M[x].rows[0][2]=ovInt(m); clash=!(a<m); } if(two){ if(gs_choice("theirs too",2)) T[0].rows[0][1]=ovInt(7); else M[0].rows[0][1]=ovInt(8); } int rc=runRebase(B,T,M); SDb R=sqRead(pM(),M); gs_check((rc!=0)==clash,"C16 rebase fails exactly when the merge violates a constraint"); if(rc){ gs_check(sqSame(R,M),"C16 failed rebase changed the database"); gs_cover("refused"); return; } SDb W=T; if(kind==0){ if(M[x].rows.size()==2){ gs_check(R[x].rows.size()==3,"C16 number of rows"); int hits=0; for(auto&q:R[x].rows) hits+=ovEq(q[1],ovInt(m)); gs_check(hits==1,"C16 our inserted row is missing"); gs_check(hasRow(R[x],T[x].rows[1]),"C16 merged row is missing"); gs_cover("merged"); return; } W[x].rows[0][1]=M[x].rows[0][1]; } else W[x].rows[0][2]=ovInt(m); if(two&&!ovEq(M[0].rows[0][1],B[0].rows[0][1])) W[0].rows[0][1]=M[0].rows[0][1]; gs_check(sqSame(R,W),"C16 merged row is missing"); gs_cover("merged"); }
}
