// C08, C09, C11: applying an arbitrary changeset to an arbitrary database.
#include "sq.h"
#include "changesetutils.h"
static const char *pDb(){ return gs_path("target.db"); }
static const char *pCs(){ return gs_path("cs"); }
// applies bytes cs to database D and compares with the oracle; extra: the changeset is malformed after its valid part
static int applyAndCompare(const SDb&D,const OC&c,const Bytes&cs,bool malformed,const std::vector<std::string>&more,const char*what){
  sqMake(pDb(),D,more); putFile(pCs(),cs); std::vector<std::string> s0=sqSchema(pDb()); int files=gs_count_files(); Db want=plain(D); bool ok=!malformed&&applyAll(want,c);
  int rc=GEODIFF_applyChangeset(pDb(),pCs()); gs_check(rc>=0&&rc<=3,"C18 unknown return code");
  gs_check((rc==0)==ok,(std::string(what)+" success exactly when every entry matches").c_str());
  if(rc==0){ gs_check(sqSame(sqRead(pDb(),D),withRows(D,want)),(std::string(what)+",C09 applied rows").c_str()); gs_cover("applied"); } else { gs_check(sqSame(sqRead(pDb(),D),D),(std::string(what)+",C08 content kept after a failure").c_str()); gs_cover("refused"); }
  gs_check(sqSchema(pDb())==s0,"C08,C11 schema and triggers kept"); gs_check(fileIs(pCs(),cs),"C21 changeset modified"); gs_check(gs_count_files()==files,"C21 files left behind"); gs_log("rc",rc!=0); return rc; }
static OE symE(const OT&t,int op,unsigned mask,int maxlen,const char*id){ OE e; e.op=op; size_t nc=t.pk.size(); if(op!=OP_UPD){ for(size_t i=0;i<nc;i++) (op==OP_INS?e.w:e.o).push_back(symCell(t.pk[i]?M_INT:mask,maxlen,id)); return e; } e.o.resize(nc); e.w.resize(nc); for(size_t i=0;i<nc;i++){ if(t.pk[i]){ e.o[i]=symCell(M_INT,0,id); if(gs_choice((std::string(id)+nm(".key",i)).c_str(),2)) e.w[i]=symCell(M_INT,0,id); } else if(gs_choice((std::string(id)+nm(".chg",i)).c_str(),2)){ e.o[i]=symCell(mask,maxlen,id); e.w[i]=symCell(mask,maxlen,id); } } return e; }
extern "C" {
std::string gs_stub_entry_json(const ChangesetEntry&){ return std::string("{}"); }
// one table, any rows, any entries
void h_apply_rows(){ int N=(int)gs_param("rows",2),E=(int)gs_param("entries",2); SDb D(1,sqTab("t","id INTEGER,a,b",1)); symRows(D[0],gs_choice("n",N+1),std::vector<unsigned>(3,M_INT),0,"d"); OC c(1,pkTable("t",3,1)); int ne=1+gs_choice("entries",E); for(int i=0;i<ne;i++) c[0].e.push_back(symE(c[0],OPS[gs_choice(nm("op",i).c_str(),3)],M_INT,0,nm("e",i).c_str())); applyAndCompare(D,c,encode(c),false,std::vector<std::string>(),"C09"); }
// values of every type in row and entry
void h_apply_types(){ SDb D(1,sqTab("t","id INTEGER,a",1)); std::vector<unsigned> mk(2); mk[0]=M_INT; mk[1]=M_INT|M_TEXT|M_BLOB|M_NULL; int real=gs_choice("real",2); if(real) mk[1]=M_REAL|M_NULL|M_TEXT; symRows(D[0],1,mk,(int)gs_param("len",2),"d"); OC c(1,pkTable("t",2,1)); c[0].e.push_back(symE(c[0],OPS[gs_choice("op",3)],mk[1],(int)gs_param("len",2),"e")); applyAndCompare(D,c,encode(c),false,std::vector<std::string>(),"C09"); }
// tables with many columns
void h_apply_wide(){ static const int C[]={1,7,8,31,32,63,64,69}; int k=C[gs_choice("key",8)],ch=C[gs_choice("changed",8)]; ST t; t.name="t"; for(int i=0;i<70;i++){ t.cols.push_back(nm("c",i)); t.types.push_back("INTEGER"); t.pk.push_back(i==k); } SDb D(1,t); Row r; for(int i=0;i<70;i++) r.push_back(i==ch||i==k?symCell(M_INT,0,"r"):ovInt(i)); D[0].rows.push_back(r); OT ct; ct.name="t"; ct.pk=t.pk; OC c(1,ct); OE e; e.op=OPS[gs_choice("op",3)]; for(int i=0;i<70;i++){ bool x=e.op!=OP_UPD||i==ch; OV o=i==ch||i==k?symCell(M_INT,0,"o"):x?ovInt(i):OV(),w=x?(i==ch?symCell(M_INT,0,"w"):i==k?symCell(M_INT,0,"wk"):ovInt(200+i)):OV(); if(e.op!=OP_INS) e.o.push_back(o); if(e.op!=OP_DEL) e.w.push_back(w); } c[0].e.push_back(e); applyAndCompare(D,c,encode(c),false,std::vector<std::string>(),"C09"); }
// composite keys
void h_apply_keys(){ SDb D(1,sqTab("t","k TEXT,a,l BLOB",5)); std::vector<unsigned> mk(3); mk[0]=M_TEXT; mk[1]=M_INT|M_NULL; mk[2]=M_BLOB; symRows(D[0],1,mk,1,"d"); OC c(1,pkTable("t",3,5)); OE e; e.op=OPS[gs_choice("op",3)]; if(e.op!=OP_INS){ e.o.push_back(symCell(M_TEXT,1,"o")); e.o.push_back(symCell(M_INT|M_NULL,0,"o")); e.o.push_back(symCell(M_BLOB,1,"o")); } if(e.op!=OP_DEL){ e.w.push_back(symCell(M_TEXT,1,"w")); e.w.push_back(symCell(M_INT|M_NULL,0,"w")); e.w.push_back(symCell(M_BLOB,1,"w")); if(e.op==OP_UPD){ if(gs_choice("k0",2)) e.w[0]=OV(); if(gs_choice("k2",2)) e.w[2]=OV(); } } c[0].e.push_back(e); applyAndCompare(D,c,encode(c),false,std::vector<std::string>(),"C09"); }
// several tables, sections in any order, an unknown table or a wrong shape
void h_apply_tables(){ SDb D; D.push_back(sqTab("t","id INTEGER,a",1)); D.push_back(sqTab("u","id INTEGER,a",1)); D.push_back(sqTab("keep","x",0)); std::vector<unsigned> mk(2,M_INT); symRows(D[0],gs_choice("nt",2),mk,0,"t"); symRows(D[1],gs_choice("nu",2),mk,0,"u"); symRows(D[2],1,std::vector<unsigned>(1,M_INT),0,"k");
  int shape=gs_choice("shape",9); OC c; int order=gs_choice("order",2); c.push_back(pkTable(order?"u":"t",2,1)); c.push_back(pkTable(order?"t":"u",2,1)); bool bad=false; if(shape==1){ c[1].name="nosuch"; bad=true; } else if(shape==2){ c[1]=pkTable(c[1].name.c_str(),3,1); bad=true; } else if(shape==3){ c[1]=pkTable(c[1].name.c_str(),2,2); bad=true; } else if(shape==4){ c[1]=pkTable(c[1].name.c_str(),2,3); bad=true; } else if(shape==5) { c.push_back(c[0]); } else if(shape>5){ c[1]=pkTable(c[0].name.c_str(),shape==8?1:shape==7?3:2,shape==6?2:1); bad=true; }
  for(size_t i=0;i<c.size();i++){ OE e; e.op=i==2?OP_DEL:OPS[gs_choice(nm("op",i).c_str(),2)*2]; size_t nc=c[i].pk.size(); for(size_t k=0;k<nc;k++){ OV v=symCell(M_INT,0,"e"); (e.op==OP_INS?e.w:e.o).push_back(v); } c[i].e.push_back(e); }
  applyAndCompare(D,c,encode(c),bad,std::vector<std::string>(),"C08,C09"); }
// a changeset cut off or followed by other bytes
void h_apply_bytes(){ SDb D(1,sqTab("t","id INTEGER,a",1)); symRows(D[0],1,std::vector<unsigned>(2,M_INT),0,"d"); OC c(1,pkTable("t",2,1)); OE e; e.op=OP_INS; e.w.push_back(symCell(M_INT,0,"w")); e.w.push_back(symCell(M_TEXT,2,"w")); gs_assume(D[0].rows[0][0].n!=e.w[0].n); c[0].e.push_back(e); OE f; f.op=OP_UPD; f.o=D[0].rows[0]; f.w.resize(2); f.w[1]=symCell(M_INT,0,"f"); c[0].e.push_back(f); Bytes b=encode(c); int mode=gs_choice("mode",2); if(mode==0){ int cut=gs_choice("cut",(int)b.size()); b.resize(cut); } else { Bytes x(1+gs_choice("extra",(int)gs_param("extra",2))); gs_bytes(x.data(),x.size(),"x"); b.insert(b.end(),x.begin(),x.end()); }
  OC d; bool ok=decode(b.data(),b.size(),d); for(auto&t:d) for(auto&q:t.e) for(auto*r:{&q.o,&q.w}) for(auto&v:*r) if(v.t==T_REAL) gs_end_path("real"); for(auto&t:d) if(t.name!="t"||t.pk!=c[0].pk) { for(auto&q:t.e) { (void)q; ok=false; } } if(ok) for(auto&t:d) if(t.name=="t") for(auto&q:t.e) for(auto*r:{&q.o,&q.w}) if(r->size()) { if((*r)[0].t!=T_INT&&(*r)[0].t!=T_UNDEF) gs_end_path("key of another type"); if(q.op!=OP_UPD) for(auto&v:*r) if(v.t==T_UNDEF) ok=false; }
  applyAndCompare(D,d,b,!ok,std::vector<std::string>(),"C08"); }
// constraints other than the key
void h_apply_constraints(){ int kind=gs_choice("kind",3); SDb D(1,kind==0?sqTab("t","id INTEGER,a NOT NULL",1):kind==1?sqTab("t","id INTEGER,a UNIQUE",1):sqTab("t","id INTEGER,a CHECK (a < 10)",1)); Row r; r.push_back(symCell(M_INT,0,"d")); r.push_back(symCell(M_INT,0,"d")); if(kind==2) gs_assume((int64_t)r[1].n<10); D[0].rows.push_back(r); OC c(1,pkTable("t",2,1)); int ne=1+gs_choice("entries",2); for(int i=0;i<ne;i++) c[0].e.push_back(symE(c[0],OPS[gs_choice(nm("op",i).c_str(),3)],M_INT|M_NULL,0,nm("e",i).c_str()));
  Db x=plain(D); bool viol=false; for(auto&e:c[0].e){ if(!applyEntry(x[0],e)) break; for(size_t i=0;i<x[0].rows.size();i++){ OV&v=x[0].rows[i][1]; if(kind==0) viol|=v.t==T_NULL; if(kind==1&&v.t==T_INT) for(size_t j=0;j<i;j++) viol|=x[0].rows[j][1].t==T_INT&&x[0].rows[j][1].n==v.n; if(kind==2&&v.t==T_INT) viol|=(int64_t)v.n>=10; } if(viol) break; }
  applyAndCompare(D,c,encode(c),viol,std::vector<std::string>(),"C08"); }
// constraints with a conflict clause: applying must neither undo the transaction nor drop other rows
void h_apply_conflicts(){ static const char*const acts[]={"ROLLBACK","REPLACE","IGNORE","ABORT"}; int kind=gs_choice("kind",3),act=gs_choice("act",4); std::string oc=std::string(" ON CONFLICT ")+acts[act]; if(kind==1&&(act==1||act==2)) gs_end_path("only rollback for not null"); SDb D(1,sqTab("t",kind==0?("id INTEGER,a UNIQUE"+oc).c_str():kind==1?("id INTEGER,a NOT NULL"+oc).c_str():"id INTEGER,a",1)); if(kind==2) D[0].keyClause=oc; int n=1+gs_choice("n",2); for(int i=0;i<n;i++){ Row r; r.push_back(symCell(M_INT,0,"d")); r.push_back(symCell(M_INT,0,"d")); D[0].rows.push_back(r); } gs_assume(distinctKeys(D[0])); if(n>1&&kind==0) gs_assume(D[0].rows[0][1].n!=D[0].rows[1][1].n);
  OC c(1,pkTable("t",2,1)); int ne=1+gs_choice("entries",2); for(int i=0;i<ne;i++) c[0].e.push_back(symE(c[0],OPS[gs_choice(nm("op",i).c_str(),3)],kind==1?M_INT|M_NULL:M_INT,0,nm("e",i).c_str()));
  Db x=plain(D); bool viol=false; for(auto&e:c[0].e){ if(!applyEntry(x[0],e)) break; for(size_t i=0;i<x[0].rows.size();i++){ OV&v=x[0].rows[i][1]; if(kind==1) viol|=v.t==T_NULL; if(kind==0) for(size_t j=0;j<i;j++) viol|=x[0].rows[j][1].n==v.n; } if(viol) break; }
  applyAndCompare(D,c,encode(c),viol,std::vector<std::string>(),"C08,C09"); }
// user triggers that would change data
void h_apply_triggers(){ SDb D; D.push_back(sqTab("t","id INTEGER,a",1)); D.push_back(sqTab("log","id INTEGER,x",1)); std::vector<unsigned> mk(2,M_INT); symRows(D[0],1,mk,0,"t"); std::vector<std::string> more; int k=gs_choice("trigger",5); static const char*const names[]={"tr","odd \"name\"","gpkg","gpkgtr","rtreetr","Gpkg_tr","my_gpkg_tr","trigger_insert_feature_tr","trigger_update_feature_count_t"}; int ni=gs_choice("name",k==0?9:2); std::string name=names[ni]; std::string q=qid(name);
  if(k==0) more.push_back("CREATE TRIGGER "+q+" AFTER INSERT ON t BEGIN INSERT INTO log (x) VALUES (NEW.a); END"); if(k==1) more.push_back("CREATE TRIGGER "+q+" AFTER UPDATE OF a ON t BEGIN UPDATE t SET a = OLD.a WHERE id = NEW.id; END"); if(k==2) more.push_back("CREATE TRIGGER "+q+" BEFORE DELETE ON t BEGIN DELETE FROM log; INSERT INTO log (x) VALUES (OLD.a); END"); if(k==3) { more.push_back("CREATE TRIGGER "+q+" AFTER INSERT ON log BEGIN INSERT INTO t (a) VALUES (5); END"); more.push_back("CREATE TRIGGER two AFTER UPDATE ON t WHEN NEW.a IS NOT NULL BEGIN INSERT INTO log (x) VALUES (1); END"); } if(k==4) { more.push_back("CREATE TRIGGER "+q+" BEFORE INSERT ON t BEGIN DELETE FROM t; END"); more.push_back("CREATE TRIGGER "+qid("z % 'x'")+" BEFORE INSERT ON log BEGIN DELETE FROM t WHERE a IN (SELECT a FROM t) AND 'it''s %d %s' <> ''; END"); }
  OC c; int ne=1+gs_choice("entries",2); int where=gs_choice("where",2); c.push_back(pkTable(where?"log":"t",2,1)); for(int i=0;i<ne;i++) c[0].e.push_back(symE(c[0],OPS[gs_choice(nm("op",i).c_str(),3)],M_INT,0,nm("e",i).c_str())); applyAndCompare(D,c,encode(c),false,more,"C09,C11"); }
// long values in row and entry
void h_apply_big(){ int len=BIGLEN[gs_choice("len",12)]; SDb D(1,sqTab("t","id INTEGER,a",1)); Row r; r.push_back(ovInt(1)); r.push_back(bigCell("v",len)); D[0].rows.push_back(r); OC c(1,pkTable("t",2,1)); OE e; e.op=OPS[gs_choice("op",3)]; Row q=r; if(gs_choice("stale",2)) q[1]=bigOther(r[1],"other"); Row w=r; w[1]=r[1]; w[1].s.pop_back(); if(e.op==OP_INS){ w[0]=symCell(M_INT,0,"k"); e.w=w; } else { e.o=q; if(e.op==OP_UPD){ w[0]=OV(); e.w=w; } } c[0].e.push_back(e); applyAndCompare(D,c,encode(c),false,std::vector<std::string>(),"C09"); }
// many entries, the one at some place may not match
void h_apply_many(){ int n=(int)gs_param("many",60); SDb D(1,sqTab("t","id INTEGER,a",1)); OC c(1,pkTable("t",2,1)); int at=gs_choice("at",4)*(n-1)/3,kind=gs_choice("kind",3); for(int i=0;i<n;i++){ Row r; r.push_back(ovInt(i)); r.push_back(ovInt(100+i)); OE e; Row w=r; w[1]=ovInt(300+i); e.op=kind==0?OP_INS:kind==1?OP_UPD:OP_DEL; if(i==at){ (e.op==OP_INS?w[0]:r[1])=symCell(M_INT,0,"s"); } if(e.op==OP_INS) e.w=w; else { e.o=r; if(e.op==OP_UPD){ w[0]=OV(); e.w=w; } } c[0].e.push_back(e); if(e.op!=OP_INS){ r[1]=ovInt(100+i); D[0].rows.push_back(r); } } if(kind==0){ Row r; r.push_back(ovInt(7000)); r.push_back(ovInt(1)); D[0].rows.push_back(r); } applyAndCompare(D,c,encode(c),false,std::vector<std::string>(),"C08,C09"); }
// many sections
void h_apply_manyconflicts(){ static const int N[]={255,256,257,512}; int n=N[gs_choice("number",(int)gs_param("conflicts",3))],kind=gs_choice("kind",3); SDb D(1,sqTab("t","id INTEGER,a",1)); OC c(1,pkTable("t",2,1)); for(int i=0;i<n;i++){ Row r; r.push_back(ovInt(i)); r.push_back(ovInt(100+i)); OE e; Row w=r; w[1]=ovInt(300+i); e.op=kind==0?OP_INS:kind==1?OP_UPD:OP_DEL; if(i==n/2){ if(e.op==OP_INS) w[0]=symCell(M_INT,0,"s"); else { r[0]=ovInt(-5); r[1]=symCell(M_INT,0,"s"); } } if(e.op==OP_INS){ e.w=w; D[0].rows.push_back(r); } else { e.o=r; if(e.op==OP_UPD){ w[0]=OV(); e.w=w; } } c[0].e.push_back(e); } if(kind){ Row r; r.push_back(ovInt(-5)); r.push_back(symCell(M_INT,0,"row")); D[0].rows.push_back(r); } applyAndCompare(D,c,encode(c),false,std::vector<std::string>(),"C08,C09"); }
void h_apply_manytables(){ int n=(int)gs_param("manytables",20); SDb D; OC c; int at=gs_choice("at",4)*(n-1)/3; for(int i=0;i<n;i++){ D.push_back(sqTab(nm("t",i).c_str(),"id INTEGER,a",1)); Row r; r.push_back(ovInt(1)); r.push_back(ovInt(i)); D[i].rows.push_back(r); c.push_back(pkTable(nm("t",i).c_str(),2,1)); OE e; e.op=OP_UPD; e.o=r; if(i==at) e.o[1]=symCell(M_INT,0,"s"); e.w.resize(2); e.w[1]=ovInt(50+i); c[i].e.push_back(e); } applyAndCompare(D,c,encode(c),false,std::vector<std::string>(),"C08,C09"); }
// a GeoPackage: geometry column, and the triggers of GeoPackage itself keep doing their work
void h_apply_geom(){ SDb D(1,sqTab("t","id INTEGER,geom POINT,a",1)); sqGpkg(D); Row r; r.push_back(symCell(M_INT,0,"id")); r.push_back(symGeom("d")); r.push_back(symCell(M_INT,0,"a")); D[0].rows.push_back(r); std::vector<std::string> more; bool trig=gs_choice("triggers",2); bool user=trig&&gs_choice("user trigger",2); if(trig) sqGpkgTriggers(more,1); if(user) more.push_back("CREATE TRIGGER other AFTER INSERT ON t BEGIN DELETE FROM gpkg_ogr_contents; END"); OC c(1,pkTable("t",3,1)); OE e; e.op=OPS[gs_choice("op",3)]; Row o,w; o.push_back(symCell(M_INT,0,"o")); o.push_back(symGeom("o")); o.push_back(symCell(M_INT,0,"oa")); w.push_back(e.op==OP_UPD?OV():symCell(M_INT,0,"w")); w.push_back(symGeom("w")); w.push_back(symCell(M_INT,0,"wa")); if(e.op==OP_UPD){ int which=gs_choice("columns",3); if(which==0) o[1]=w[1]=OV(); if(which==1) o[2]=w[2]=OV(); } if(e.op!=OP_INS) e.o=o; if(e.op!=OP_DEL) e.w=w; c[0].e.push_back(e); int rc=applyAndCompare(D,c,encode(c),false,more,"C09"); if(!trig) return; Db wdb=plain(D); if(rc==0) applyAll(wdb,c); SDb want=withRows(D,wdb); size_t n=0; SDb X; X.push_back(sqTab("gpkg_ogr_contents","table_name TEXT,feature_count INTEGER",1)); X.push_back(sqTab("rtree_t_geom","id INTEGER,x",1)); X=sqRead(pDb(),X); for(auto&q:want[0].rows) n+=q[1].t!=T_NULL; gs_check(X[0].rows.size()==1&&ovEq(X[0].rows[0][1],ovInt(want[0].rows.size())),"C11 feature count"); gs_check(X[1].rows.size()==n,"C11 number of entries of the spatial index"); for(auto&q:want[0].rows) if(q[1].t!=T_NULL){ bool f=false; for(auto&x:X[1].rows) f|=ovEq(x[0],q[0]); gs_check(f,"C11 spatial index"); } gs_cover("triggers"); }
}
