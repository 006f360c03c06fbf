// C27, C28, C32: changesets and copies made from PostgreSQL, geometries in both directions.
#include "diff.h"
#include "pg.h"
static std::string P(const char*n){ return gs_path(n); }
static void closed(){ gs_check(pqOpen==0,"C26 connection left open"); gs_check(pqResults==0,"C26 result not released"); }
static bool mayEqual(const PqCol&c,const OV&a,const OV&b){ return ovEq(a,b); }
// difference of schemas s and m against the oracle; then applied to s
static void diffCheck(const PDb&B,const PDb&M,const char*tag=""){ int files=gs_count_files(); int rc=GEODIFF_createChangesetEx("postgres","conn","s","m",P("cs").c_str()); gs_check(rc==0,(std::string("C27")+tag+" creating a changeset failed").c_str()); closed(); if(rc) return; gs_check(gs_count_files()==files+1,"C21 creating a changeset left files behind"); OC c; gs_check(decodeFile(P("cs").c_str(),c),(std::string("C27")+tag+" created changeset is malformed").c_str()); size_t total=0; for(size_t i=0;i<B.size();i++){ bool key=false; for(auto k:B[i].pk) key|=k; if(!key) continue; OT w=expect(B[i],M[i]); total+=w.e.size(); std::vector<OE> got; for(auto&t:c) if(t.name==B[i].name){ gs_check(pkEq(t,w),(std::string("C27")+tag+" primary key flags").c_str()); for(auto&e:t.e) got.push_back(e); } gs_check(sameEntries(w.e,got),(std::string("C27")+tag+" entries differ from the exact difference").c_str()); } gs_check(flat(c).size()==total,(std::string("C27")+tag+" entries for other tables").c_str()); gs_check(pgIs("s",B)&&pgIs("m",M),(std::string("C27")+tag+" creating a changeset changed the database").c_str()); gs_log("entries",total); if(total) gs_cover("differences"); else gs_cover("identical");
  rc=GEODIFF_applyChangesetEx("postgres","conn","s",P("cs").c_str()); gs_check(rc==0,(std::string("C27")+tag+" applying the created changeset failed").c_str()); PDb want=B; for(size_t i=0;i<B.size();i++){ bool key=false; for(auto k:B[i].pk) key|=k; if(key) want[i].rows=M[i].rows; } gs_check(pgIs("s",rc==0?want:B),(std::string("C27")+tag+" applying the created changeset does not give the modified schema").c_str()); }
static PDb one(const char*spec){ return PDb(1,pgTab("t",spec)); }
static const char*const TY[]={"integer","boolean","double precision","text","citext","timestamp without time zone","geometry(POINT;4326)"};
extern "C" {
void h_pgd_rows(){ PDb B=one("*id integer,a integer,b integer"),M=B; int N=(int)gs_param("pgdrows",2); for(PDb*d:{&B,&M}){ int n=gs_choice(d==&B?"nb":"nm",N+1); for(int i=0;i<n;i++){ Row r; r.push_back(pgDigit("k")); r.push_back(pgDigit("a")); r.push_back(i?ovNull():pgDigit("b")); (*d)[0].rows.push_back(r); } gs_assume(distinctKeys((*d)[0])); } pqReset(); pgMake("s",B); pgMake("m",M); diffCheck(B,M); }
void h_pgd_types(){ int ty=gs_choice("type",7); PDb B=one((std::string("*id integer,v ")+TY[ty]).c_str()),M=B; const PqCol&c=B[0].c[1]; int len=(int)gs_param("pglen",2); Row r(2); r[0]=ovInt(3); r[1]=gs_choice("old null",2)?ovNull():pgValue(c,"a",len); B[0].rows.push_back(r); int kind=gs_choice("kind",3); r[1]=gs_choice("new null",2)?ovNull():pgValue(c,"b",len); if(kind==0) M[0].rows.push_back(r); else if(kind==1){ r[0]=ovInt(4); M[0].rows.push_back(r); } pqReset(); pgMake("s",B); pgMake("m",M); diffCheck(B,M); }
// several columns, composite keys, columns in any order
void h_pgd_keys(){ static const char*S[]={"*a integer,*b integer,v integer","v integer,*a integer,w integer,*b integer","*a integer,*b integer","v integer,*a integer","*a text,v integer"}; int k=gs_choice("shape",5); PDb B=one(S[k]),M=B; for(PDb*d:{&B,&M}){ int n=(d==&B)?2:1; for(int i=0;i<n;i++){ Row r; for(auto&c:B[0].c) r.push_back(c.type=="text"?pgText("x",1):pgDigit("x")); (*d)[0].rows.push_back(r); } gs_assume(distinctKeys((*d)[0])); } pqReset(); pgMake("s",B); pgMake("m",M); diffCheck(B,M); }
void h_pgd_tables(){ PDb B,M; int n=3; for(int i=0;i<n;i++){ bool key=i!=1||gs_choice("key",2); PT t=pgTab(i==0?"b":i==1?"a":"c",key?"*id integer,v text":"id integer,v text"); Row r; r.push_back(ovInt(1)); r.push_back(ovStr(T_TEXT,"x")); t.rows.push_back(r); B.push_back(t); int w=gs_choice(nm("change",i).c_str(),4); if(w==1) t.rows.clear(); if(w==2) t.rows[0][1]=pgText("v",1); if(w==3) t.rows[0][0]=pgDigit("k"); M.push_back(t); } if(gs_choice("order",2)) std::swap(M[0],M[2]); pqReset(); pgMake("s",B); pgMake("m",M); if(M[0].name!=B[0].name) std::swap(M[0],M[2]); diffCheck(B,M); }
// indexes besides the primary key's
void h_pgd_indexes(){ PDb B=one("v text,*id integer,w integer"),M=B; for(PDb*d:{&B,&M}){ Row r; r.push_back(pgText("v",1)); r.push_back(pgDigit("k")); r.push_back(pgDigit("w")); (*d)[0].rows.push_back(r); } pqReset(); pgMake("s",B); pgMake("m",M); static const int ix[][2]={{0,-1},{1,-1},{2,-1},{0,1},{1,2},{2,0}}; for(int k=0;k<2;k++) for(const char*sc:{"s","m"}){ int i=gs_choice(nm(sc,k).c_str(),!k?7:*sc==0x73?3:1); if(!i) continue; std::vector<int> c; for(int x:ix[i-1]) if(x>=0) c.push_back(x); pqIndex(sc,"t",c); } diffCheck(B,M); }
// schemas that differ are refused
void h_pgd_schema(){ PDb B=one("*id integer,v text,g geometry(POINT;4326)"),M=B; int k=gs_choice("difference",11); PqCol x; x.name="x"; x.type="integer"; switch(k){ case 0: M[0].c[1].name="w"; break; case 1: M[0].c[1].type="integer"; break; case 2: M[0].c[1].pk=true; M[0].pk[1]=1; break; case 3: M[0].c.push_back(x); M[0].pk.push_back(0); break; case 4: M[0].c.pop_back(); M[0].pk.pop_back(); break; case 5: M[0].name="t2"; break; case 6: M.push_back(pgTab("u","*id integer")); break; case 7: M.clear(); break; case 8: M[0].c[2].geomType="LINESTRING"; M[0].c[2].type="geometry(LINESTRING,4326)"; break; case 9: M[0].c[2].srid=3857; M[0].c[2].type="geometry(POINT,3857)"; break; default: std::swap(M[0].c[1],M[0].c[2]); break; } pqReset(); pqCrs(3857,"EPSG",3857,"merc"); pgMake("s",B); pgMake("m",M); int rc=GEODIFF_createChangesetEx("postgres","conn","s","m",P("cs").c_str()); gs_check(rc!=0,"C27,C12 schemas that differ are not refused"); closed(); gs_cover("refused"); }
// a failing query is reported
void h_pgd_fault(){ PDb B=one("*id integer,v text"),M=B; Row r; r.push_back(ovInt(1)); r.push_back(ovStr(T_TEXT,"x")); B[0].rows.push_back(r); r[0]=ovInt(2); M[0].rows.push_back(r); pqReset(); pgMake("s",B); pgMake("m",M); bool dump=gs_choice("dump",2); pqFaultAt=gs_choice("statement",(int)gs_param("pgfault",16))-1; pqFaultKind=1+gs_choice("failure",4); int rc=dump?GEODIFF_dumpData("postgres","conn","s",P("cs").c_str()):GEODIFF_createChangesetEx("postgres","conn","s","m",P("cs").c_str()); gs_check((rc!=0)==(pqHit>0),"C27,C32 failed query is not reported"); if(rc==0){ OC c; gs_check(decodeFile(P("cs").c_str(),c)&&flat(c).size()==(dump?1u:2u),"C27,C32 entries"); gs_cover("done"); } else gs_cover("failed"); closed(); gs_log("rc",rc!=0); }
// the text of a result cell becomes the value it denotes
void h_pgd_cells(){ int ty=gs_choice("type",7); PDb B=one((std::string("*id integer,v ")+TY[ty]).c_str()); pqReset(); pgMake("s",B); std::vector<std::vector<PqText> > rows(1); PqText id,v; id.null=v.null=false; id.s="7"; OV want; bool bad=false; if(gs_choice("null",2)){ v.null=true; want=ovNull(); }
  else if(ty==0){ static const char*L[]={"2147483647","-2147483648","0","-1"}; int k=gs_choice("int",7); if(k<4){ v.s=L[k]; want=ovInt((uint64_t)(int64_t)atoll(L[k])); } else { int n=k-3; uint64_t x=0; for(int i=0;i<n;i++){ unsigned char d=gs_u8(nm("digit",i).c_str()); gs_assume(d>='0'&&d<='9'); if(i==0&&n>1) gs_assume(d!='0'); v.s+=(char)d; x=x*10+(d-'0'); } if(n>1&&gs_choice("minus",2)){ v.s="-"+v.s; x=0-x; } want=ovInt(x); } }
  else if(ty==1){ bool t=gs_choice("true",2); v.s=t?"t":"f"; want=ovInt(t); }
  else if(ty==2){ static const char*L[]={"0","1.5","-0.1","1e+300","5e-324","0.3333333333333333","NaN","Infinity","-Infinity","-1e-07","-0"}; int k=gs_choice("real",11); v.s=L[k]; want=ovReal(dbits(k==6?__builtin_nan(""):strtod(L[k],nullptr))); }
  else if(ty==3||ty==4){ want=pgText("x",(int)gs_param("pgcell",3)); v.s.assign(want.s.begin(),want.s.end()); }
  else if(ty==5){ want=pgTime("x"); v.s.assign(want.s.begin(),want.s.end()); }
  else { int n=gs_choice("size",(int)gs_param("pgwkb",1)+1); Bytes w(n); if(n) gs_bytes(w.data(),n,"wkb"); v.s="\\x"; static const char H[]="0123456789abcdef",U[]="0123456789ABCDEF"; const char*h=gs_choice("upper",2)?U:H; for(auto b:w){ v.s+=h[b>>4]; v.s+=h[b&15]; } want.t=T_BLOB; want.s=gpkgBlob(4326,w); }
  rows[0].push_back(id); rows[0].push_back(v); pqCanned("\"t\"",rows,1); int rc=GEODIFF_dumpData("postgres","conn","s",P("cs").c_str()); (void)bad; gs_check(rc==0,"C27 result refused"); OC c; gs_check(rc==0&&decodeFile(P("cs").c_str(),c)&&c.size()==1&&c[0].e.size()==1,"C27 entries for a result"); if(c.size()==1&&c[0].e.size()==1){ const OE&e=c[0].e[0]; bool nan=want.t==T_REAL&&want.n==dbits(__builtin_nan("")); gs_check(e.op==OP_INS&&e.w.size()==2&&e.w[0].t==T_INT&&e.w[0].n==7,"C27 key of a result"); gs_check(nan?e.w[1].t==T_REAL&&(e.w[1].n&0x7fffffffffffffffULL)>0x7ff0000000000000ULL:ovEq(e.w[1],want),ty==6?"C27,C28 geometry of a result":"C27 value of a result"); } closed(); gs_cover("done"); }
// geometry text that is not hexadecimal bytes is refused
void h_pgd_badgeom(){ PDb B=one("*id integer,v geometry(POINT;4326)"); pqReset(); pgMake("s",B); std::vector<std::vector<PqText> > rows(1); PqText id,v; id.null=v.null=false; id.s="7"; int n=gs_choice("len",5); v.s.assign(n,'x'); if(n) gs_bytes(&v.s[0],n,"text"); for(char ch:v.s) gs_assume(ch!=0); bool ok=n>=2&&n%2==0&&v.s[0]=='\\'&&v.s[1]=='x'; for(int i=2;i<n;i++){ unsigned char ch=v.s[i]; ok=ok&(bool)(((unsigned)(ch-'0')<10u)|((unsigned)((ch|32)-'a')<6u)); } rows[0].push_back(id); rows[0].push_back(v); pqCanned("\"t\"",rows,1); int rc=GEODIFF_dumpData("postgres","conn","s",P("cs").c_str()); if(!ok) gs_check(rc!=0,"C27,C28 malformed geometry result is not reported"); else gs_check(rc==0,"C27,C28 geometry result refused"); closed(); gs_log("rc",rc!=0); if(rc==0) gs_cover("read"); else gs_cover("refused"); }
// any blob written to a geometry column
void h_pgg_write(){ static const int SR[]={4326,0,3857}; int sr=SR[gs_choice("srid",3)]; PDb D=one(sr==4326?"*id integer,g geometry(POINT;4326)":sr==0?"*id integer,g geometry(POINT;0)":"*id integer,g geometry(POINT;3857)"); static const int LEN[]={0,1,2,3,7,8,9,12,39,40,42,55,56,57,71,72,74}; int n=LEN[gs_choice("len",17)]; pqReset(); pqCrs(0,"NONE",0,"undef"); pqCrs(3857,"EPSG",3857,"merc"); pgMake("s",D); Bytes b(n,0x5a); if(n) gs_bytes(b.data(),n<12?n:12,"blob"); if(n>12) gs_bytes(b.data()+n-2,2,"end"); bool ok=n>=8; size_t hs=8; if(ok){ ok=b[0]=='G'&&b[1]=='P'; if(ok){ gs_assume(b[2]==0&&!(b[3]&0xe0)); int env=gs_conc((b[3]>>1)&7); static const int E[]={0,32,48,48,64}; if(env>4) ok=false; else { hs=8+E[env]; ok=(size_t)n>=hs; } } }
  OT t; t.name="t"; t.pk=D[0].pk; OE e; e.op=OP_INS; e.w.push_back(ovInt(3)); OV v; v.t=T_BLOB; v.s=b; e.w.push_back(v); t.e.push_back(e); putFile(P("cs").c_str(),encode(OC(1,t))); int rc=GEODIFF_applyChangesetEx("postgres","conn","s",P("cs").c_str()); gs_check((rc==0)==ok,"C28 acceptance of a geometry blob"); std::vector<PqRow> r=pqRows("s","t"); if(rc==0){ gs_check(r.size()==1&&r[0][1].t==T_BLOB&&r[0][1].n==sr&&r[0][1].s==std::string(b.begin()+hs,b.end()),"C28 stored geometry"); gs_cover("stored"); } else { gs_check(r.empty(),"C28,C26 refused geometry was stored"); gs_cover("refused"); } closed(); gs_log("rc",rc!=0); }
// PostgreSQL -> changeset -> PostgreSQL keeps the geometry and its reference system
void h_pgg_roundtrip(){ static const char*G[]={"*id integer,g geometry(POINT;4326)","*id integer,g geometry(LINESTRINGZM;0)","*id integer,g geometry(POLYGONZ;16909060)","*id integer,g geometry(POINTM;2147483647)"}; int k=gs_choice("kind",4); PDb B=one(G[k]),M=B; pqReset(); pqCrs(0,"N",0,"w"); pqCrs(16909060,"N",1,"w"); pqCrs(2147483647,"N",2,"w"); Row r; r.push_back(ovInt(1)); r.push_back(pgGeom("g",B[0].c[1].srid,(int)gs_param("pgwkb",1))); M[0].rows.push_back(r); if(gs_choice("update",2)){ Row q=r; q[1]=gs_choice("null",2)?ovNull():pgGeom("h",B[0].c[1].srid,(int)gs_param("pgwkb2",1)); B[0].rows.push_back(q); } pgMake("s",B); pgMake("m",M); diffCheck(B,M,",C28"); }
// copies
// a GeoPackage table must have a geometry column: the library refuses other tables, and the refusal must be clean
void h_pgc_tosqlite(){ static const char*GT[]={"POINT","LINESTRINGZ","POLYGONZM"}; int ty=gs_choice("type",6), gk=ty?0:gs_choice("geometry",3); PDb B=one((std::string("*id integer,v ")+TY[ty]+",g geometry("+GT[gk]+";4326)").c_str()); if(gs_choice("notnull",2)){ B[0].c[1].notnull=true; } const PqCol&c=B[0].c[1]; Row r; r.push_back(pgDigit("k")); r.push_back(!c.notnull&&gs_choice("null",2)?ovNull():pgValue(c,"v",1)); r.push_back(gs_choice("nogeom",2)?ovNull():pgGeom("g",4326,2)); if(gs_choice("row",2)) B[0].rows.push_back(r); pqReset(); pqCrs(4326,"EPSG",4326,"w"); pgMake("s",B); int files=gs_count_files(); int rc=GEODIFF_makeCopy("postgres","conn","s","sqlite",nullptr,P("copy.db").c_str()); gs_check(rc==0,"C32 copying to SQLite failed"); closed(); gs_check(gs_count_files()==files+(gs_file_size(P("copy.db").c_str())>=0),"C21 copying left files behind");
  if(rc==0){ SDb L(1,sqTab("t","id integer,v,g",1)); SDb got=sqRead(P("copy.db").c_str(),L); gs_check(multi(got[0].rows,B[0].rows),"C32 copied rows"); sqlite3*d=sqOpen(P("copy.db").c_str(),false); std::vector<Row> m=sqQuery(d,"SELECT table_name,column_name,geometry_type_name,srs_id,z,m FROM gpkg_geometry_columns"); gs_check(m.size()==1&&ovs(m[0][0])=="t"&&ovs(m[0][1])=="g"&&ovs(m[0][2])==(gk==0?"POINT":gk==1?"LINESTRING":"POLYGON")&&m[0][3].n==4326&&m[0][4].n==(uint64_t)(gk>0)&&m[0][5].n==(uint64_t)(gk==2),"C28,C32 geometry of a copied table"); m=sqQuery(d,"SELECT table_name,srs_id FROM gpkg_contents"); gs_check(m.size()==1&&ovs(m[0][0])=="t"&&m[0][1].n==4326,"C32 contents entry of a copied table"); m=sqQuery(d,"SELECT organization,organization_coordsys_id,definition FROM gpkg_spatial_ref_sys WHERE srs_id=4326"); gs_check(m.size()==1&&ovs(m[0][0])=="EPSG"&&m[0][1].n==4326,"C32 reference system of a copied table"); sqlite3_close(d); gs_cover("copied"); } gs_check(pgIs("s",B),"C32 source changed"); }
void h_pgc_plain(){ PDb B=one("*id integer,v text"); if(gs_choice("two",2)) B.insert(B.begin(),pgTab("a","*id integer,g geometry(POINT;4326)")); pqReset(); pqCrs(4326,"EPSG",4326,"w"); pgMake("s",B); int files=gs_count_files(); int rc=GEODIFF_makeCopy("postgres","conn","s","sqlite",nullptr,P("copy.db").c_str()); closed(); gs_check(gs_count_files()==files+(gs_file_size(P("copy.db").c_str())>=0),"C21 copying left files behind"); if(rc==0){ SDb L(1,sqTab("t","id integer,v",1)); SDb got=sqRead(P("copy.db").c_str(),L); gs_check(multi(got[0].rows,B.back().rows),"C32 copied rows"); } gs_check(pgIs("s",B),"C32 source changed"); gs_cover("done"); }
void h_pgc_topg(){ static const char*S[]={"INTEGER","TEXT","DOUBLE","BOOLEAN","DATETIME","BLOB","MEDIUMINT","VARCHAR(20)","REAL","FLOAT"}; static const char*W[]={"integer","text","double precision","boolean","timestamp without time zone","bytea","integer","text","double precision","double precision"}; int ty=gs_choice("type",10); SDb B(1,sqTab("t",(std::string("id INTEGER NOT NULL,v ")+S[ty]).c_str(),1)); PqCol c; c.name="v"; c.type=W[ty]; Row r; r.push_back(pgDigit("k")); r.push_back(gs_choice("null",2)?ovNull():pgValue(c,"v",1)); if(gs_choice("row",2)) B[0].rows.push_back(r); sqMake(P("src.db").c_str(),B); pqReset(); bool had=gs_choice("exists",2); if(had) pgMake("d",one("*id integer,old integer")); int files=gs_count_files(); int rc=GEODIFF_makeCopy("sqlite",nullptr,P("src.db").c_str(),"postgres","conn","d"); gs_check(rc==0,"C32 copying to PostgreSQL failed"); closed(); gs_check(gs_count_files()==files,"C21 copying left files behind"); if(rc==0){ PDb D(1,pgTab("t",(std::string("*id integer,v ")+W[ty]).c_str())); D[0].rows=B[0].rows; gs_check(pgIs("d",D),"C32 copied rows"); std::vector<PqCol> pc; gs_check(pqColumns("d","t",pc)&&pc.size()==2&&pc[0].name=="id"&&pc[0].pk&&pc[0].type=="integer"&&pc[1].name=="v"&&!pc[1].pk&&pc[1].type==W[ty]&&!pc[1].notnull,"C32 copied columns"); if(!B[0].rows.empty()&&pc.size()&&pc[0].seq) gs_check(pqNextval("d","t","id")>(int64_t)B[0].rows[0][0].n,"C29,C32 sequence of a copied table"); gs_cover("copied"); } }
void h_pgc_fault(){ SDb B(1,sqTab("t","id INTEGER NOT NULL,v TEXT",1)); Row r; r.push_back(ovInt(1)); r.push_back(ovStr(T_TEXT,"x")); B[0].rows.push_back(r); bool to=gs_choice("to postgres",2); pqReset(); PDb S=one("*id integer,v text,g geometry(POINT;4326)"); pqCrs(4326,"EPSG",4326,"w"); Row r2=r; r2.push_back(ovNull()); S[0].rows.push_back(r2); if(to) sqMake(P("src.db").c_str(),B); else pgMake("s",S); pqFaultAt=gs_choice("statement",(int)gs_param("pgfault",16))-1; pqFaultKind=1+gs_choice("failure",4); int files=gs_count_files(); int rc=to?GEODIFF_makeCopy("sqlite",nullptr,P("src.db").c_str(),"postgres","conn","d"):GEODIFF_makeCopy("postgres","conn","s","sqlite",nullptr,P("copy.db").c_str()); gs_check((rc!=0)==(pqHit>0),"C32 failed statement is not reported"); bool made=gs_file_size(P("copy.db").c_str())>=0; gs_check(gs_count_files()==files+made,"C21 copying left files behind"); closed(); gs_log("rc",rc!=0); gs_cover("done"); }
void h_pgc_dump(){ PDb B; B.push_back(pgTab("b","*id integer,v text,w boolean")); B.push_back(pgTab("nokey","id integer")); B.push_back(pgTab("a","v text,*id integer")); for(auto&t:B){ int n=gs_choice(("rows "+t.name).c_str(),3); for(int i=0;i<n;i++){ Row r; for(auto&c:t.c) r.push_back(c.pk||t.name=="nokey"?ovInt(i):gs_choice(nm("null",gsCtr++).c_str(),2)?ovNull():pgValue(c,"v",1)); t.rows.push_back(r); } } pqReset(); pgMake("s",B); int rc=GEODIFF_dumpData("postgres","conn","s",P("cs").c_str()); gs_check(rc==0,"C32 dump failed"); closed(); OC c; gs_check(decodeFile(P("cs").c_str(),c),"C32 dump is malformed"); size_t n=0; for(auto&t:B){ if(t.name=="nokey") continue; PT e=t; e.rows.clear(); OT w=expect(e,t); n+=w.e.size(); std::vector<OE> got; for(auto&x:c) if(x.name==t.name){ gs_check(pkEq(x,w),"C32 dump flags"); for(auto&q:x.e) got.push_back(q); } gs_check(sameEntries(w.e,got),"C32 dumped rows"); } gs_check(flat(c).size()==n,"C32 dump has other entries"); gs_check(pgIs("s",B),"C32 dump changed the database"); gs_cover("done"); }
// many rows, long values, many tables
void h_pgd_many(){ int n=(int)gs_param("pgmany",15),kind=gs_choice("kind",4),at=gs_choice("at",3)*(n-1)/2; PDb B; if(kind==3) for(int i=0;i<n;i++) B.push_back(pgTab(nm("t",i),"*id integer,a integer,b text")); else B=one("*id integer,a integer,b text"); for(int i=0;i<n;i++){ Row r; r.push_back(ovInt(100+i)); r.push_back(ovInt(200+i)); r.push_back(ovNull()); B[kind==3?i:0].rows.push_back(r); } PDb M=B; std::vector<Row>&m=M[kind==3?at:0].rows; int w=kind==3?0:at; if(kind==0||kind==3) m[w][1]=pgDigit("m"); else if(kind==1) m.erase(m.begin()+at); else { Row r=m[0]; r[0]=pgDigit("k"); m.push_back(r); for(int i=0;i<n;i++) m[i][1]=ovInt(700+i); } pqReset(); pgMake("s",B); pgMake("m",M); diffCheck(B,M); }
void h_pgd_big(){ static const char*T[]={"text","geometry(POINT;4326)"}; int ty=gs_choice("type",2); PDb B=one((std::string("*id integer,v ")+T[ty]).c_str()),M; OV a=bigCell("v",bigLen((int)gs_param("pglens",5))); a.t=ty?T_BLOB:T_TEXT; if(ty) a.s=gpkgBlob(4326,a.s); OV b=bigOther(a,"other"); Row r; r.push_back(ovInt(3)); r.push_back(a); B[0].rows.push_back(r); M=B; int k=gs_choice("how",3); if(k==0) M[0].rows[0][1]=b; else if(k==1) M[0].rows.clear(); else { r[0]=pgDigit("k"); gs_assume(r[0].n!=3); r[1]=b; M[0].rows.push_back(r); } pqReset(); pqCrs(4326,"EPSG",4326,"w"); pgMake("s",B); pgMake("m",M); diffCheck(B,M); }
}
