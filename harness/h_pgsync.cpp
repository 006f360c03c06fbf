// C39: merging in PostgreSQL; C40: data kept in SQLite and in PostgreSQL in step through changesets.
#include "diff.h"
#include "pg.h"
#include "changesetutils.h"
#include "geodiffrebase.hpp"
extern "C" { std::string gs_stub_entry_json(const ChangesetEntry&){ return std::string("{}"); } std::string gs_stub_conflicts_json(const std::vector<ConflictFeature>&){ return std::string("{}"); } }
static std::string P(const char*n){ return gs_path(n); }
static void closed(const char*p){ gs_check(pqOpen==0&&pqResults==0&&!pqInTransaction(),p); }
static PDb one(const char*spec){ return PDb(1,pgTab("t",spec)); }
// a side's edit of a row: columns in the mask get a new value, or the row is deleted (-1)
static int editOf(const std::string&who,int nc){ int k=gs_choice(who.c_str(),(1<<nc)+1); return k==(1<<nc)?-1:k; }
static Row edited(const Row&r,int mask,const char*tag,const std::vector<PqCol>&c){ Row q=r; for(size_t i=1;i<r.size();i++) if(mask>>(i-1)&1){ q[i]=gs_param("null",0)&&gs_choice(nm((std::string(tag)+".null").c_str(),gsCtr++).c_str(),2)?ovNull():c[i].type=="integer"?pgDigit(tag):pgValue(c[i],tag,1); gs_assume(!ovEq(q[i],r[i])); } return q; }
static void merge(const char*spec,int rows,bool inserts,int decoyTables){
  PDb B=one(spec); for(int i=0;i<decoyTables;i++) B.push_back(pgTab(nm("u",i),"*id integer,a integer")); int nc=(int)B[0].c.size()-1; Row kr; kr.push_back(ovInt(1)); kr.push_back(ovInt(5)); for(int i=0;i<decoyTables;i++) B[i+1].rows.push_back(kr);
  for(int i=0;i<rows;i++){ Row r; r.push_back(ovInt(1+i)); for(int c=1;c<=nc;c++) r.push_back(B[0].c[c].type=="integer"?pgDigit("base"):pgValue(B[0].c[c],"base",1)); B[0].rows.push_back(r); }
  PDb T=B,M=B; T[0].rows.clear(); M[0].rows.clear(); std::vector<Row> want; bool conflict=false,tch=false,och=false;
  for(auto&r:B[0].rows){ int i=(int)r[0].n; int x=editOf(nm("theirs",i),nc),y=editOf(nm("ours",i),nc); tch|=x!=0; och|=y!=0; Row a=x>0?edited(r,x,"t",B[0].c):r,b=y>0?edited(r,y,"o",B[0].c):r; if(x>=0) T[0].rows.push_back(a); if(y>=0) M[0].rows.push_back(b); if(x>=0&&y>=0){ Row w=a; for(int c=1;c<=nc;c++) if(y>>(c-1)&1){ w[c]=b[c]; if((x>>(c-1)&1)&&!ovEq(a[c],b[c])) conflict=true; } want.push_back(w); } }
  int ourNew=-1; if(inserts){ if(gs_choice("theirs inserts",2)){ Row r; r.push_back(pgDigit("tk")); gs_assume((int64_t)r[0].n>rows); for(int c=1;c<=nc;c++) r.push_back(ovInt(7)); T[0].rows.push_back(r); want.push_back(r); tch=true; } if(gs_choice("ours inserts",2)){ Row r; r.push_back(pgDigit("ok")); gs_assume((int64_t)r[0].n>rows); for(int c=1;c<=nc;c++) r.push_back(ovInt(8)); M[0].rows.push_back(r); ourNew=(int)M[0].rows.size()-1; och=true; } }
  if(decoyTables) { T[1].rows[0][1]=ovInt(6); tch=true; if(decoyTables>1){ M[2].rows[0][1]=ovInt(7); och=true; } }
  pqReset(); pqCrs(4326,"EPSG",4326,"w"); pgMake("b",B); pgMake("m",M); pgMake("decoy",B); OC cs; for(size_t i=0;i<B.size();i++){ OT t=expect(B[i],T[i]); if(!t.e.empty()) cs.push_back(t); } putFile(P("theirs").c_str(),encode(cs)); if(gs_choice("stale",2)) putFile(P("conf").c_str(),Bytes(3,'x')); bool stale=gs_file_size(P("conf").c_str())>=0; int files=gs_count_files();
  int rc=GEODIFF_rebaseEx("postgres","conn","b","m",P("theirs").c_str(),P("conf").c_str()); bool cf=gs_file_size(P("conf").c_str())>=0; gs_check(gs_count_files()==files-stale+cf,"C39,C21 files left behind"); closed("C39 connection, result or transaction left open"); gs_check(pgIs("b",B)&&pgIs("decoy",B),"C39 merging changed the base or another schema"); gs_check(rc==0,"C39 merging failed"); if(rc) return;
  gs_check(cf==conflict,"C39 conflict file exactly when both sides changed a value differently");
  for(size_t i=1;i<B.size();i++){ PDb R(1,pgRead("m",B[i])); Row w=kr; if(i==1) w[1]=ovInt(6); if(i==2) w[1]=ovInt(7); gs_check(R[0].rows.size()==1&&rowEq(R[0].rows[0],w),"C39 merged row of another table"); }
  PT R=pgRead("m",B[0]); gs_check(R.rows.size()==want.size()+(ourNew>=0),"C39 number of merged rows"); for(auto&w:want) gs_check(hasRow(R,w),"C39 merged row is missing"); if(ourNew>=0){ const Row&o=M[0].rows[ourNew]; int hits=0; bool kept=false; for(auto&r:R.rows) if(ovEq(r[1],o[1])&&r[1].n==8&&(int64_t)r[0].n>rows){ hits++; kept=ovEq(r[0],o[0]); } gs_check(hits==1,"C39 our inserted row is missing"); bool taken=false; for(auto&r:T[0].rows) taken|=ovEq(r[0],o[0]); if(!taken) gs_check(kept,"C39 our inserted row lost its key"); }
  if(B[0].c[0].seq){ int64_t next=pqNextval("m","t","id"); for(auto&r:T[0].rows) if((int64_t)r[0].n>rows) gs_check(next>(int64_t)r[0].n,"C39,C29 sequence is behind an inserted key"); }
  gs_log("conflict",conflict); if(tch&&och) gs_cover("both"); else gs_cover("one side"); }
extern "C" {
void h_pgm_rows(){ merge("*id integer,a integer,b integer",(int)gs_param("rows",1),false,0); }
void h_pgm_inserts(){ merge(gs_choice("serial",2)?"*id integer#,a integer":"*id integer,a integer",1,true,0); }
void h_pgm_types(){ static const char*T[]={"boolean","double precision","text","timestamp without time zone","geometry(POINT;4326)"}; merge((std::string("*id integer,a ")+T[gs_choice("type",5)]).c_str(),1,false,0); }
void h_pgm_tables(){ merge("*id integer,a integer",1,false,1+gs_choice("tables",2)); }
// a statement that fails
void h_pgm_fault(){ PDb B=one("*id integer,a integer"); Row r; r.push_back(ovInt(1)); r.push_back(ovInt(1)); B[0].rows.push_back(r); PDb M=B,T=B,W=B; T[0].rows[0][1]=ovInt(3); W[0].rows[0][1]=ovInt(3); r[0]=ovInt(2); if(gs_choice("ours",2)){ M[0].rows.push_back(r); W[0].rows.push_back(r); } pqReset(); pgMake("b",B); pgMake("m",M); putFile(P("theirs").c_str(),encode(OC(1,expect(B[0],T[0])))); int files=gs_count_files(); pqFaultAt=gs_choice("statement",(int)gs_param("pgfault",30))-1; pqFaultKind=1+gs_choice("failure",4); int rc=GEODIFF_rebaseEx("postgres","conn","b","m",P("theirs").c_str(),P("conf").c_str()); int hit=pqHit; pqFaultAt=-1; pqFaultKind=0; gs_check((rc!=0)==(hit>0),"C39 failed statement is not reported"); gs_check(pgIs("b",B),"C39 failed merge changed the base"); gs_check(pgIs("m",rc==0?W:M),"C39 failed merge changed the database, or a merge did nothing"); gs_check(gs_count_files()==files,"C39,C21 files left behind"); gs_check(pqOpen==0&&pqResults==0,"C39 connection or result left open"); gs_log("rc",rc!=0); if(rc) gs_cover("failed"); else gs_cover("merged"); }

}
// the same table in SQLite and, copied from there, in PostgreSQL; changes made on one side are applied to the other
struct Sync { SDb S; PDb D; };
static Sync start(int ty,bool row,bool two){ static const char*S[]={"INTEGER","BOOLEAN","DOUBLE","TEXT","DATETIME","POINT"}; static const char*W[]={"integer","boolean","double precision","text","timestamp without time zone","geometry(POINT;4326)"}; Sync y; y.S.push_back(sqTab("t",(std::string("id INTEGER NOT NULL,geom ")+S[ty]).c_str(),1)); y.D=one((std::string("*id integer#,geom ")+W[ty]).c_str()); const PqCol&c=y.D[0].c[1]; Row r; r.push_back(ovInt(1)); r.push_back(gs_choice("base null",2)?ovNull():pgValue(c,"b",1)); if(row) y.D[0].rows.push_back(r); if(two){ r[0]=ovInt(2); y.D[0].rows.push_back(r); } y.S[0].rows=y.D[0].rows; SDb all=y.S; if(ty==5) sqGpkg(all); sqMake(P("base.db").c_str(),all); pqReset(); if(gs_choice("crs known",2)) pqCrs(4326,"EPSG",4326,"w"); for(const char*s:{"d","d0"}){ int rc=GEODIFF_makeCopy("sqlite",nullptr,P("base.db").c_str(),"postgres","conn",s); gs_check(rc==0,"C40,C32 copying to PostgreSQL failed"); if(rc) gs_assume(false); } gs_check(pgIs("d",y.D),"C40,C32 copied rows"); return y; }
// one change of the table
static std::vector<Row> change(const Sync&y){ const PqCol&c=y.D[0].c[1]; std::vector<Row> m=y.D[0].rows; int k=gs_choice("change",3); if(m.empty()||k==0){ Row r; r.push_back(pgDigit("new key")); r.push_back(gs_choice("new null",2)?ovNull():pgValue(c,"n",1)); for(auto&o:m) gs_assume(o[0].n!=r[0].n); m.push_back(r); } else if(k==1) m.erase(m.begin()); else { OV v=gs_choice("to null",2)?ovNull():pgValue(c,"u",1); gs_assume(!ovEq(v,m[0][1])); m[0][1]=v; } return m; }
// what both sides dump
static void sameDump(const PDb&W){ int a=GEODIFF_dumpData("postgres","conn","d",P("a").c_str()),b=GEODIFF_dumpData("sqlite","",P("base.db").c_str(),P("b").c_str()); gs_check(a==0&&b==0,"C40,C32 dump failed"); if(a||b) return; OC x,z; gs_check(decodeFile(P("a").c_str(),x)&&decodeFile(P("b").c_str(),z),"C40,C32 dump is malformed"); std::vector<OE> ex,ez; for(auto&t:x) if(t.name=="t") for(auto&e:t.e) ex.push_back(e); for(auto&t:z) if(t.name=="t") for(auto&e:t.e) ez.push_back(e); gs_check(ex.size()==W[0].rows.size()&&sameEntries(ex,ez),"C40 the two sides differ"); }
extern "C" {
void h_sync_topg(){ int ty=gs_choice("type",6); Sync y=start(ty,gs_choice("row",2),false); PDb W=y.D; W[0].rows=change(y); SDb M=y.S; M[0].rows=W[0].rows; SDb all=M; if(ty==5) sqGpkg(all); sqMake(P("mod.db").c_str(),all); int rc=GEODIFF_createChangeset(P("base.db").c_str(),P("mod.db").c_str(),P("cs").c_str()); gs_check(rc==0,"C40,C06 creating a changeset failed"); if(rc) return; rc=GEODIFF_applyChangesetEx("postgres","conn","d",P("cs").c_str()); gs_check(rc==0,"C40 a changeset made in SQLite does not apply to PostgreSQL"); gs_check(pgIs("d",rc==0?W:y.D),"C40 rows in PostgreSQL"); closed("C40 connection left open"); if(rc) return; bool ins=W[0].rows.size()>y.D[0].rows.size(); if(ins) gs_check(pqNextval("d","t","id")>(int64_t)W[0].rows.back()[0].n,"C40,C29 sequence is behind an inserted key"); rc=GEODIFF_applyChangeset(P("base.db").c_str(),P("cs").c_str()); gs_check(rc==0,"C40,C09 changeset does not apply to its base"); sameDump(W); gs_cover("changed"); }
void h_sync_tosqlite(){ int ty=gs_choice("type",6); Sync y=start(ty,gs_choice("row",2),false); PDb W=y.D; W[0].rows=change(y); OC c(1,expect(y.D[0],W[0])); putFile(P("edit").c_str(),encode(c)); int rc=GEODIFF_applyChangesetEx("postgres","conn","d",P("edit").c_str()); gs_check(rc==0&&pgIs("d",W),"C40,C25 editing in PostgreSQL"); if(rc) return; rc=GEODIFF_createChangesetEx("postgres","conn","d0","d",P("cs").c_str()); gs_check(rc==0,"C40,C27 creating a changeset in PostgreSQL failed"); if(rc) return; rc=GEODIFF_applyChangeset(P("base.db").c_str(),P("cs").c_str()); gs_check(rc==0,"C40 a changeset made in PostgreSQL does not apply to SQLite"); SDb got=sqRead(P("base.db").c_str(),y.S); gs_check(multi(got[0].rows,rc==0?W[0].rows:y.D[0].rows),"C40 rows in SQLite"); if(rc==0) sameDump(W); gs_cover("changed"); }
// both sides change, the merge of PostgreSQL goes back to SQLite
void h_sync_both(){ int ty=gs_choice("type",2)*3; Sync y=start(ty,true,true); const PqCol&c=y.D[0].c[1]; PDb T=y.D,O=y.D,W=y.D; OV a=gs_choice("t null",2)?ovNull():pgValue(c,"t",1),b=gs_choice("o null",2)?ovNull():pgValue(c,"o",1); gs_assume(!ovEq(a,y.D[0].rows[0][1])); T[0].rows[0][1]=a; W[0].rows[0][1]=a; int row=gs_choice("our row",2); gs_assume(!ovEq(b,y.D[0].rows[row][1])); O[0].rows[row][1]=b; W[0].rows[row][1]=b; SDb M=y.S; M[0].rows=T[0].rows; sqMake(P("theirs.db").c_str(),M); putFile(P("edit").c_str(),encode(OC(1,expect(y.D[0],O[0])))); int rc=GEODIFF_createChangeset(P("base.db").c_str(),P("theirs.db").c_str(),P("theirs").c_str()); gs_check(rc==0,"C40,C06 creating a changeset failed"); if(rc) return; rc=GEODIFF_applyChangesetEx("postgres","conn","d",P("edit").c_str()); gs_check(rc==0,"C40,C25 editing in PostgreSQL"); if(rc) return; rc=GEODIFF_rebaseEx("postgres","conn","d0","d",P("theirs").c_str(),P("conf").c_str()); gs_check(rc==0,"C40,C39 merging failed"); if(rc) return; gs_check(pgIs("d",W),"C40,C39 merged rows in PostgreSQL"); rc=GEODIFF_createChangesetEx("postgres","conn","d0","d",P("cs").c_str()); gs_check(rc==0,"C40,C27 creating a changeset in PostgreSQL failed"); if(rc) return; rc=GEODIFF_applyChangeset(P("base.db").c_str(),P("cs").c_str()); gs_check(rc==0,"C40 a changeset made in PostgreSQL does not apply to SQLite"); if(rc==0) sameDump(W); gs_cover("merged"); }
}
