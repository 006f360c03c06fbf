// C25-C29: the PostgreSQL driver against a server held in memory. Statements are parsed by an independent parser of
// PostgreSQL's lexical rules and executed on tables, so what counts is their effect, not their text.
#include "pg.h"
static std::string P(const char*n){ return gs_path(n); }
static int apply(const char*schema){ return GEODIFF_applyChangesetEx("postgres","conn",schema,P("cs").c_str()); }
static void closed(){ gs_check(pqOpen==0,"C26 connection left open"); gs_check(pqResults==0,"C26 result not released"); gs_check(!pqInTransaction(),"C26 transaction left open"); }
static OE ins(const Row&r){ OE e; e.op=OP_INS; e.w=r; return e; }
static OE del(const Row&r){ OE e; e.op=OP_DEL; e.o=r; return e; }
static OT sec(const PT&t){ OT o; o.name=t.name; o.pk=t.pk; return o; }
static bool isZero(const OV&v){ return v.t==T_REAL&&(v.n<<1)==0; }
// applies c to base schema s holding D (other schemas: decoys), checks success and resulting state against the oracle
static int applyCheck(const PDb&D,const OC&c,const char*tag){ putFile(P("cs").c_str(),encode(c)); Db w; for(auto&t:D) w.push_back(t); bool ok=applyAll(w,c); int rc=apply("s"); gs_check((rc==0)==ok,tag); PDb want=D; if(ok) for(size_t i=0;i<D.size();i++) want[i].rows=w[i].rows; gs_check(pgIs("s",rc==0?want:D),tag); gs_check(pgIs("decoy",D),"C25,C26 another schema was changed"); closed(); gs_log("rc",rc!=0); if(rc==0) gs_cover("applied"); else gs_cover("refused"); return rc; }
static std::string symName(const char*tag,int max){ static const char*const L[]={"my_gpkg_t","xgpkg_contents","gpkgx","rtree_t","a.b","Table","select","a$1$b","E'x'","$$","--x","100%s","a\\\"b"}; int k=gs_choice((std::string(tag)+".known").c_str(),14); if(k) return L[k-1]; int n=1+gs_choice((std::string(tag)+".len").c_str(),max); std::string s(n,'x'); gs_bytes(&s[0],n,tag); for(char c:s) gs_assume(c!=0); return s; }
extern "C" {
// entries of all kinds on rows with symbolic keys and values
void h_pg_rows(){ PDb D(1,pgTab("t","*id integer,a integer,b text")); int n=gs_choice("rows",(int)gs_param("pgrows",2)+1); for(int i=0;i<n;i++){ Row r; r.push_back(pgDigit("k")); r.push_back(pgDigit("a")); r.push_back(pgText("b",0)); D[0].rows.push_back(r); } gs_assume(distinctKeys(D[0])); pqReset(); pgMake("s",D); pgMake("decoy",D); OC c(1,sec(D[0])); int m=1+gs_choice("entries",(int)gs_param("pgentries",2)); for(int i=0;i<m;i++){ int k=gs_choice(nm("op",i).c_str(),3); if(k==0){ Row r; r.push_back(pgDigit("ik")); r.push_back(pgDigit("ia")); r.push_back(pgText("ib",0)); c[0].e.push_back(ins(r)); } else if(k==1){ Row r; r.push_back(pgDigit("dk")); r.push_back(pgDigit("da")); r.push_back(pgText("db",0)); c[0].e.push_back(del(r)); } else { OE e; e.op=OP_UPD; e.o.resize(3); e.w.resize(3); e.o[0]=pgDigit("uk"); if(gs_choice(nm("rekey",i).c_str(),2)) e.w[0]=pgDigit("nk"); else { e.o[1]=pgDigit("uo"); e.w[1]=pgDigit("un"); } c[0].e.push_back(e); } } applyCheck(D,c,"C25,C26 result of applying"); }
// one column of every type: insert, update (value and NULL on either side), delete
// numbers that are not finite, as values and as recorded values
void h_pg_special(){ static const double L[]={__builtin_nan(""),__builtin_inf(),-__builtin_inf(),1.5}; static const uint64_t NANS[]={0x7ff8000000000000ULL,0xfff8000000000000ULL,0x7ff8000000000001ULL}; PDb D(1,pgTab("t","*id integer,v double precision")); int a=gs_choice("old",4),b=gs_choice("new",4),kind=gs_choice("kind",4); Row r; r.push_back(ovInt(3)); r.push_back(ovReal(dbits(L[a]))); OV va=r[1],vb=ovReal(dbits(L[b])); if(!a) va.n=NANS[gs_choice("nan",3)]; if(!b) vb.n=NANS[gs_choice("nan2",3)]; pqReset(); if(kind) D[0].rows.push_back(r); pgMake("s",D); OC c(1,sec(D[0])); Row q; q.push_back(ovInt(3)); q.push_back(va); OE e; bool ok=true; PDb w=D; if(kind==0){ e=ins(q); w[0].rows.push_back(r); } else if(kind==1){ e=del(q); w[0].rows.clear(); } else { e.op=OP_UPD; e.o.push_back(ovInt(3)); e.o.push_back(kind==3?vb:va); e.w.push_back(OV()); e.w.push_back(kind==3?va:vb); ok=kind==2||a==b; if(kind==2) w[0].rows[0][1]=ovReal(dbits(L[b])); } c[0].e.push_back(e); putFile(P("cs").c_str(),encode(c)); int rc=apply("s"); gs_check((rc==0)==ok,"C25,C26 number that is not finite"); gs_check(pgIs("s",rc==0?w:D),"C25,C26 number that is not finite is stored"); closed(); gs_cover(rc?"refused":"applied"); }
void h_pg_types(){ static const char*T[]={"integer","boolean","double precision","text","citext","bytea","timestamp without time zone","geometry(POINT;4326)"}; int ty=gs_choice("type",8); PDb D(1,pgTab("t",(std::string("*id integer,v ")+T[ty]).c_str())); const PqCol&vc=D[0].c[1]; int kind=gs_choice("kind",3),len=(int)gs_param("pglen",2); OV a=gs_choice("old null",2)?ovNull():pgValue(vc,"a",len),b=kind!=1||gs_choice("new null",2)?ovNull():pgValue(vc,"b",len); Row r; r.push_back(ovInt(3)); r.push_back(a); pqReset(); if(kind) D[0].rows.push_back(r); pgMake("s",D); pgMake("decoy",D); OC c(1,sec(D[0])); if(kind==0) c[0].e.push_back(ins(r)); else if(kind==2) c[0].e.push_back(del(r)); else { gs_assume(!ovEq(a,b)&&!(isZero(a)&&isZero(b))); OE e; e.op=OP_UPD; e.o.push_back(ovInt(3)); e.o.push_back(a); e.w.push_back(OV()); e.w.push_back(b); c[0].e.push_back(e); } int rc=applyCheck(D,c,"C25,C26,C28 value applied"); gs_check(rc==0,"C25,C28 a fitting value was refused"); }
// recorded old value differs from the row: conflict
void h_pg_stale(){ static const char*T[]={"integer","boolean","double precision","text","bytea","geometry(POINT;4326)"}; int ty=gs_choice("type",6); PDb D(1,pgTab("t",(std::string("*id integer,v ")+T[ty]).c_str())); const PqCol&vc=D[0].c[1]; OV a=gs_choice("row null",2)?ovNull():pgValue(vc,"a",1),o=gs_choice("old null",2)?ovNull():pgValue(vc,"o",1); Row r; r.push_back(ovInt(3)); r.push_back(a); D[0].rows.push_back(r); Row q=r; q[0]=ovInt(4); D[0].rows.push_back(q); pqReset(); pgMake("s",D); pgMake("decoy",D); OC c(1,sec(D[0])); if(gs_choice("delete",2)){ r[1]=o; c[0].e.push_back(del(r)); } else { OE e; e.op=OP_UPD; e.o.push_back(ovInt(3)); e.o.push_back(o); e.w.push_back(OV()); e.w.push_back(a.t==T_NULL?pgValue(vc,"n",1):ovNull()); c[0].e.push_back(e); } applyCheck(D,c,"C25,C26 recorded value against the row"); }
// text with arbitrary bytes as old and new value
void h_pg_text(){ PDb D(1,pgTab("t","*id integer,v text")); int kind=gs_choice("kind",3),len=(int)gs_param("pgtext",3); OV a=pgText("a",len,true); bool nul=false; for(auto ch:a.s) nul|=ch==0; Row r; r.push_back(ovInt(3)); r.push_back(a); if(kind) gs_assume(!nul); pqReset(); OV b=ovStr(T_TEXT,"other"); if(kind) D[0].rows.push_back(r); pgMake("s",D); pgMake("decoy",D); OC c(1,sec(D[0])); if(kind==0) c[0].e.push_back(ins(r)); else if(kind==1) c[0].e.push_back(del(r)); else { OE e; e.op=OP_UPD; e.o.push_back(ovInt(3)); e.o.push_back(a); e.w.push_back(OV()); e.w.push_back(b); c[0].e.push_back(e); gs_assume(!ovEq(a,b)); } if(nul){ putFile(P("cs").c_str(),encode(c)); gs_check(apply("s")!=0,"C25,C26 text the server cannot hold is reported"); gs_check(pgIs("s",D)&&pgIs("decoy",D),"C25,C26 refused changeset left changes"); closed(); gs_cover("nul"); return; } int rc=applyCheck(D,c,"C25,C26 text value applied"); gs_check(rc==0,"C25 text was refused"); }
// text keys
void h_pg_textkey(){ PDb D(1,pgTab("t","*id text,v integer")); OV a=pgText("a",(int)gs_param("pgkey",2)),b=pgText("b",1); Row r,q; r.push_back(a); r.push_back(ovInt(1)); q.push_back(b); q.push_back(ovInt(1)); D[0].rows.push_back(q); pqReset(); pgMake("s",D); pgMake("decoy",D); OC c(1,sec(D[0])); int k=gs_choice("op",3); if(k==0) c[0].e.push_back(ins(r)); else if(k==1) c[0].e.push_back(del(r)); else { OE e; e.op=OP_UPD; e.o=r; e.w.resize(2); e.w[1]=ovInt(2); c[0].e.push_back(e); } applyCheck(D,c,"C25,C26 row found by a text key"); }
// names with arbitrary bytes
void h_pg_tablename(){ std::string n=symName("name",(int)gs_param("pgname",3)); PDb D(1,pgTab(n,"*id integer,v integer")); D.push_back(pgTab("other table","*id integer,v integer")); gs_assume(n!="other table"); for(int i=0;i<2;i++){ Row r; r.push_back(ovInt(1)); r.push_back(ovInt(5)); D[i].rows.push_back(r); } pqReset(); pgMake("s",D); pgMake("decoy",D); OC c(1,sec(D[0])); Row r; r.push_back(ovInt(2)); r.push_back(ovInt(7)); OE u; u.op=OP_UPD; u.o.push_back(ovInt(1)); u.o.push_back(ovInt(5)); u.w.push_back(OV()); u.w.push_back(ovInt(6)); c[0].e.push_back(ins(r)); c[0].e.push_back(u); c[0].e.push_back(del(r)); int rc=applyCheck(D,c,"C25,C26 table with an unusual name"); gs_check(rc==0,"C25 a table name was refused"); }
void h_pg_columnname(){ std::string n=symName("name",(int)gs_param("pgname",3)); gs_assume(n!="id"); PDb D(1,pgTab("t","*id integer,v integer")); D[0].c[1].name=n; Row o; o.push_back(ovInt(1)); o.push_back(ovInt(5)); D[0].rows.push_back(o); pqReset(); pgMake("s",D); pgMake("decoy",D); OC c(1,sec(D[0])); Row r; r.push_back(ovInt(2)); r.push_back(ovInt(7)); OE u; u.op=OP_UPD; u.o.push_back(ovInt(1)); u.o.push_back(ovInt(5)); u.w.push_back(OV()); u.w.push_back(ovInt(6)); c[0].e.push_back(ins(r)); c[0].e.push_back(u); c[0].e.push_back(del(r)); int rc=applyCheck(D,c,"C25,C26 column with an unusual name"); gs_check(rc==0,"C25 a column name was refused"); }
void h_pg_keyname(){ std::string n=symName("name",(int)gs_param("pgname",3)); gs_assume(n!="v"); PDb D(1,pgTab("t","*id integer#,v integer")); D[0].c[0].name=n; Row o; o.push_back(ovInt(1)); o.push_back(ovInt(5)); D[0].rows.push_back(o); pqReset(); pgMake("s",D); pgMake("decoy",D); OC c(1,sec(D[0])); Row r; r.push_back(ovInt(2)); r.push_back(ovInt(7)); OE u; u.op=OP_UPD; u.o.push_back(ovInt(1)); u.o.push_back(ovInt(5)); u.w.push_back(OV()); u.w.push_back(ovInt(6)); c[0].e.push_back(ins(r)); c[0].e.push_back(u); c[0].e.push_back(del(r)); int rc=applyCheck(D,c,"C25,C26 key column with an unusual name"); gs_check(rc==0,"C25 a column name was refused"); gs_check(pqNextval("s","t",n)>2,"C25,C29 sequence of an unusually named column"); }
void h_pg_schemaname(){ std::string n=symName("name",(int)gs_param("pgname",3)); gs_assume(n!="public"&&n!="decoy"); int what=gs_choice("call",3); PDb D(1,pgTab("t","*id integer#,v integer")),M; Row o; o.push_back(ovInt(1)); o.push_back(ovInt(5)); D[0].rows.push_back(o); M=D; M[0].rows[0][1]=ovInt(6); pqReset(); pgMake(n,D); pgMake("decoy",M); OC c; Row r; r.push_back(ovInt(2)); r.push_back(ovInt(7)); if(what==0){ c.push_back(sec(D[0])); c[0].e.push_back(ins(r)); putFile(P("cs").c_str(),encode(c)); gs_check(GEODIFF_applyChangesetEx("postgres","conn",n.c_str(),P("cs").c_str())==0,"C25 schema name refused"); D[0].rows.push_back(r); gs_check(pqNextval(n,"t","id")>2,"C25,C29 sequence in an unusually named schema"); }
  else { int rc=what==1?GEODIFF_createChangesetEx("postgres","conn",n.c_str(),"decoy",P("cs").c_str()):GEODIFF_createChangesetEx("postgres","conn","decoy",n.c_str(),P("cs").c_str()); gs_check(rc==0,"C25,C27 schema name refused"); gs_check(decodeFile(P("cs").c_str(),c)&&c.size()==1&&c[0].e.size()==1,"C25,C27 changeset of an unusually named schema"); if(c.size()==1&&c[0].e.size()==1) gs_check(c[0].e[0].op==OP_UPD&&c[0].e[0].w[1].n==(what==1?6u:5u),"C25,C27 changeset of an unusually named schema"); }
  gs_check(pgIs(n,D)&&pgIs("decoy",M),"C25 database after a call with an unusual schema name"); closed(); gs_cover("done"); }
// everything named with a quote or backslash
void h_pg_diffname(){ std::string n=symName("name",(int)gs_param("pgname",3)); gs_assume(n!="id"); int which=gs_choice("which",2); PDb D(1,pgTab(which?std::string("t"):n,"*id integer,v integer")); if(which) D[0].c[1].name=n; PDb M=D; Row o; o.push_back(ovInt(1)); o.push_back(ovInt(5)); D[0].rows.push_back(o); o[1]=ovInt(6); M[0].rows.push_back(o); o[0]=ovInt(2); M[0].rows.push_back(o); pqReset(); pgMake("s",D); pgMake("m",M); int rc=GEODIFF_createChangesetEx("postgres","conn","s","m",P("cs").c_str()); gs_check(rc==0,"C25,C27 name refused"); OC c; gs_check(decodeFile(P("cs").c_str(),c)&&c.size()==1&&c[0].e.size()==2&&c[0].name==D[0].name,"C25,C27 changeset of a table with unusual names"); gs_check(pgIs("s",D)&&pgIs("m",M),"C25 database changed by reading it"); closed(); gs_cover("done"); }
}
// ---- failures
static PDb small(){ PDb D(1,pgTab("t","*id integer#,v text")); for(int i=1;i<3;i++){ Row r; r.push_back(ovInt(i)); r.push_back(ovStr(T_TEXT,"old")); D[0].rows.push_back(r); } D.push_back(pgTab("u","*id integer,v text")); return D; }
static OC smallChanges(const PDb&D){ OC c; c.push_back(sec(D[0])); c.push_back(sec(D[1])); Row r; r.push_back(pgDigit("k")); gs_assume(r[0].n>2); r.push_back(pgText("v",1)); c[0].e.push_back(ins(r)); OE u; u.op=OP_UPD; u.o.push_back(ovInt(1)); u.o.push_back(ovStr(T_TEXT,"old")); u.w.push_back(OV()); u.w.push_back(ovStr(T_TEXT,"new")); c[0].e.push_back(u); Row d; d.push_back(ovInt(2)); d.push_back(ovStr(T_TEXT,"old")); c[0].e.push_back(del(d)); c[1].e.push_back(ins(r)); return c; }
static PDb after(const PDb&D,const OC&c){ Db w; for(auto&t:D) w.push_back(t); applyAll(w,c); PDb r=D; for(size_t i=0;i<D.size();i++) r[i].rows=w[i].rows; return r; }
extern "C" {
// any statement fails in any way
void h_pg_fault(){ PDb D=small(); pqReset(); pgMake("s",D); pgMake("decoy",D); OC c=smallChanges(D); putFile(P("cs").c_str(),encode(c)); PDb want=after(D,c); int at=gs_choice("statement",(int)gs_param("pgfault",26))-1; pqFaultAt=at; pqFaultKind=1+gs_choice("failure",4); int64_t nx=pqNextval("s","t","id"); int rc=apply("s"); bool hit=pqHit>0; pqFaultAt=-1; bool rb=hit&&rc==0; if(rb){ bool onlyRollback=false; gs_check(onlyRollback,"C26 failed statement is not reported"); } gs_check(hit||rc==0,"C26 applying failed without a failure"); gs_check(pgIs("s",rc==0?want:D),"C26 neither everything nor nothing was applied"); gs_check(pgIs("decoy",D),"C26 another schema was changed"); gs_check(pqNextval("s","t","id")>=nx,"C29 sequence moved backwards"); closed(); gs_log("rc",rc!=0); if(hit) gs_cover("failed"); else gs_cover("applied"); }
void h_pg_commit(){ PDb D=small(); pqReset(); pgMake("s",D); pgMake("decoy",D); OC c=smallChanges(D); putFile(P("cs").c_str(),encode(c)); bool f=gs_choice("deferred constraint",2); pqCommitCheck(f); bool silent=gs_choice("suppressed",2); if(silent) pqRowTrigger("s",gs_choice("table",2)?"u":"t"); int rc=apply("s"); gs_check((rc==0)==!(f||silent),"C26 result when the server refuses or ignores a change"); gs_check(pgIs("s",rc==0?after(D,c):D),"C26 neither everything nor nothing was applied"); closed(); gs_log("rc",rc!=0); gs_cover("done"); }
void h_pg_connect(){ PDb D=small(); pqReset(); pgMake("s",D); OC c=smallChanges(D); putFile(P("cs").c_str(),encode(c)); int k=gs_choice("problem",4); if(k==0) pqConnectFail=1; int rc=k==0?apply("s"):k==1?apply("nosuch"):k==2?GEODIFF_applyChangesetEx("postgres",nullptr,"s",P("cs").c_str()):GEODIFF_createChangesetEx("postgres","conn","s","nosuch",P("out").c_str()); gs_check(rc!=0,"C26 unusable connection or schema is not reported"); gs_check(pgIs("s",D),"C26 failed call changed the database"); closed(); gs_cover("done"); }
// valid entries followed by arbitrary bytes
void h_pg_bytes(){ PDb D(1,pgTab("t","*id integer,v integer")); pqReset(); pgMake("s",D); pgMake("decoy",D); OC c(1,sec(D[0])); Row r; r.push_back(ovInt(7)); r.push_back(ovInt(8)); c[0].e.push_back(ins(r)); Bytes b=encode(c); int n=1+gs_choice("tail",(int)gs_param("pgtail",4)); Bytes t(n); gs_bytes(t.data(),n,"tail"); b.insert(b.end(),t.begin(),t.end()); putFile(P("cs").c_str(),b); OC d; bool ok=decode(b.data(),b.size(),d); int rc=apply("s"); if(!ok) gs_check(rc!=0,"C26 malformed changeset is not reported"); PDb want=D; want[0].rows.push_back(r); gs_check(pgIs("s",rc==0?want:D),"C26 neither everything nor nothing was applied"); closed(); gs_log("rc",rc!=0); if(rc==0) gs_cover("applied"); else gs_cover("refused"); }
// changeset that does not fit the table
void h_pg_misfit(){ PDb D(1,pgTab("t","*id integer,v integer")); Row o; o.push_back(ovInt(1)); o.push_back(ovInt(5)); D[0].rows.push_back(o); pqReset(); pgMake("s",D); pgMake("decoy",D); OC c(1,sec(D[0])); Row r; r.push_back(ovInt(7)); r.push_back(ovInt(8)); c[0].e.push_back(ins(r)); OT x=sec(D[0]); Row q; q.push_back(ovInt(8)); q.push_back(ovInt(8)); switch(gs_choice("problem",11)){ case 0: x.name="nosuch"; x.e.push_back(ins(q)); break; case 1: x.pk.push_back(0); q.push_back(ovInt(1)); x.e.push_back(ins(q)); break; case 2: x.pk.resize(1); q.resize(1); x.e.push_back(ins(q)); break; case 3: x.pk[1]=1; x.e.push_back(ins(q)); break; case 4: x.pk[0]=0; x.e.push_back(ins(q)); break; case 5: q[1]=OV(); x.e.push_back(ins(q)); break; case 6: q[0]=ovInt(1); x.e.push_back(ins(q)); break; case 7: q[0]=ovNull(); x.e.push_back(ins(q)); break; case 8: q[1]=ovInt(3000000000ull); x.e.push_back(ins(q)); break; case 9: q[1]=ovStr(T_TEXT,"x"); x.e.push_back(ins(q)); break; default: q[0]=ovInt(1); q[1]=OV(); x.e.push_back(del(q)); break; } c.push_back(x); putFile(P("cs").c_str(),encode(c)); gs_check(apply("s")!=0,"C26 changeset that does not fit is not reported"); gs_check(pgIs("s",D)&&pgIs("decoy",D),"C26 changes of a failed changeset remain"); closed(); gs_cover("done"); }
// ---- sequences
void h_pg_seq(){ PDb D(1,pgTab("t","*id integer#,v integer")); D.push_back(pgTab("u","*id integer#,v integer")); pqReset(); pgMake("s",D); pgMake("decoy",D); int64_t nx[2]; for(int i=0;i<2;i++){ uint64_t l=gs_sym(nm("last",i).c_str(),4); gs_assume(l>=1&&l<10); bool called=gs_choice(nm("called",i).c_str(),2); pqSequence("s",i?"u":"t","id",(int64_t)l,called); nx[i]=pqNextval("s",i?"u":"t","id"); } int64_t dx=pqNextval("decoy","t","id"); int n=(int)gs_param("pgseq",3); OC c; std::vector<Row> got[2]; int last=-1; for(int i=0;i<n;i++){ int t=gs_choice(nm("table",i).c_str(),2); if(t!=last){ c.push_back(sec(D[t])); last=t; } Row r; r.push_back(pgDigit("k")); r.push_back(ovInt(1)); for(auto&o:got[t]) gs_assume(!(o[0].n==r[0].n)); got[t].push_back(r); c.back().e.push_back(ins(r)); } putFile(P("cs").c_str(),encode(c)); int rc=apply("s"); gs_check(rc==0,"C26,C29 inserting into tables with sequences failed"); for(int t=0;t<2;t++){ int64_t q=pqNextval("s",t?"u":"t","id"); bool above=true; for(auto&r:got[t]) above&=q>(int64_t)r[0].n; gs_check(above,"C29 next value of the sequence is not above every inserted key"); gs_check(q>=nx[t],"C29 sequence moved backwards"); } gs_check(pqNextval("decoy","t","id")==dx&&pqNextval("decoy","u","id")==1,"C29 sequence of another schema was changed"); gs_cover("done"); }
// large and negative keys, keys of updates, and a text key
void h_pg_seqlimits(){ static const int64_t K[]={-5,0,1,2,2147483645LL,2147483646LL,2147483647LL,4294967297LL,9007199254740993LL,9223372036854775804LL}; static const int64_t L[]={1,2,2147483646LL,2147483647LL,4294967297LL,9007199254740993LL,9223372036854775806LL}; bool big=gs_choice("bigint",2); PDb D(1,pgTab("t",big?"v integer,*id bigint#":"v integer,*id integer#")); pqReset(); pgMake("s",D); pqSequence("s","t","id",L[gs_choice("last",7)],gs_choice("called",2)); int64_t nx=pqNextval("s","t","id"),k=K[gs_choice("key",10)]; gs_assume(big||k<=2147483647LL); Row r; r.push_back(ovInt(1)); r.push_back(ovInt((uint64_t)k)); OC c(1,sec(D[0])); c[0].e.push_back(ins(r)); Row r2=r; int second=gs_choice("second",3); r2[1]=ovInt((uint64_t)(k==0?3:second==1?k-1:k+1)); gs_assume(second<2||big||k<2147483647LL); if(second) c[0].e.push_back(ins(r2)); putFile(P("cs").c_str(),encode(c)); int rc=apply("s"); gs_check(rc==0||k<-5,"C29 insert refused"); int64_t q=pqNextval("s","t","id"); if(rc==0) gs_check(q>k&&(c[0].e.size()<2||q>(int64_t)r2[1].n),"C29 next value of the sequence is not above every inserted key"); gs_check(q>=nx,"C29 sequence moved backwards"); gs_cover("done"); }
// long values (with quotes in the text), many entries
void h_pg_big(){ static const char*T[]={"text","bytea","geometry(POINT;4326)"}; int ty=gs_choice("type",3); PDb D(1,pgTab("t",(std::string("*id integer,v ")+T[ty]).c_str())); OV a=bigCell("v",bigLen((int)gs_param("pglens",5))); a.t=ty?T_BLOB:T_TEXT; if(ty==0) a.s[a.s.size()/3]='\''; if(ty==2) a.s=gpkgBlob(4326,a.s); int op=gs_choice("op",3); OV b=a; b.s.back()='Q'; b.s.push_back('z'); Row r; r.push_back(ovInt(3)); r.push_back(a); if(op) D[0].rows.push_back(r); pqReset(); pgMake("s",D); pgMake("decoy",D); OC c(1,sec(D[0])); if(op==0) c[0].e.push_back(ins(r)); else if(op==1) c[0].e.push_back(del(r)); else { OE e; e.op=OP_UPD; e.o=r; e.w.resize(2); e.w[1]=b; c[0].e.push_back(e); } if(op&&gs_choice("stale",2)){ OV&o=c[0].e[0].o[1]; o.s[o.s.size()-2]^=1; } int rc=applyCheck(D,c,"C25,C26 long value applied"); (void)rc; }
void h_pg_many(){ int n=(int)gs_param("pgmany",20),kind=gs_choice("kind",3),at=gs_choice("at",3)*(n-1)/2; PDb D(1,pgTab("t","*id integer,a integer")); OC c(1,sec(D[0])); for(int i=0;i<n;i++){ Row r; r.push_back(ovInt(i==at&&kind==0?0:100+i)); if(i==at&&kind==0) r[0]=pgDigit("k"); r.push_back(ovInt(200+i)); if(kind==0) c[0].e.push_back(ins(r)); else { D[0].rows.push_back(r); if(i==at) r[1]=gs_choice("stale",2)?pgDigit("s"):r[1]; if(kind==1) c[0].e.push_back(del(r)); else { OE e; e.op=OP_UPD; e.o=r; e.w.resize(2); e.w[1]=ovInt(300+i); c[0].e.push_back(e); } } } if(kind==0){ Row r; r.push_back(ovInt(5)); r.push_back(ovInt(5)); D[0].rows.push_back(r); } pqReset(); pgMake("s",D); pgMake("decoy",D); applyCheck(D,c,"C25,C26 many entries"); }
}
