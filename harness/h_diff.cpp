// C06, C07, C10, C21: difference of two databases, applying it, and undoing it.
#include "diff.h"
#include "names.h"
static bool isZeroPair(const OV&a,const OV&b){ return (a.t==T_INT&&b.t==T_REAL)||(a.t==T_REAL&&b.t==T_INT); }
static void roundtrip(const SDb&B,const SDb&M,const std::vector<std::string>&more=std::vector<std::string>()){
  const char*pb=gs_path("base.db"),*pm=gs_path("mod.db"),*pc=gs_path("cs"),*pt=gs_path("target.db"),*pi=gs_path("inv");
  sqMake(pb,B,more); sqMake(pm,M,more); Bytes b0=readFile(pb),m0=readFile(pm); int files=gs_count_files();
  int rc=GEODIFF_createChangeset(pb,pm,pc); gs_check(rc==0,"C06,C07 creating a changeset failed"); if(rc) return;
  gs_check(fileIs(pb,b0)&&fileIs(pm,m0),"C21 creating a changeset modified an input"); gs_check(gs_count_files()==files+1,"C21 creating a changeset left files behind");
  OC c; gs_check(decodeFile(pc,c),"C07 created changeset is malformed");
  size_t total=0; for(size_t i=0;i<B.size();i++){ if(B[i].noKey) continue; OT w=expect(B[i],M[i]); total+=w.e.size(); int secs=0; std::vector<OE> got; for(auto&t:c) if(t.name==B[i].name){ secs++; gs_check(pkEq(t,w),"C07 primary key flags"); for(auto&e:t.e) got.push_back(e); } gs_check(sameEntries(w.e,got),"C07 entries differ from the exact difference"); if(w.e.empty()) gs_check(got.empty(),"C07 entries for an unchanged table"); }
  gs_check(flat(c).size()==total,"C07 entries for other tables"); if(total==0) gs_check(gs_file_size(pc)==0,"C07 identical databases give an empty changeset");
  gs_log("entries",total); if(total) gs_cover("differences"); else gs_cover("identical");
  sqCopy(pb,pt); std::vector<std::string> s0=sqSchema(pt); files=gs_count_files(); Bytes c0=readFile(pc); rc=GEODIFF_applyChangeset(pt,pc); gs_check(rc==0,"C06 applying the created changeset failed"); if(rc) return; gs_check(gs_count_files()==files,"C21 applying a changeset left files behind"); gs_check(fileIs(pc,c0),"C21 applying a changeset modified it");
  { SDb want=M; for(size_t i=0;i<want.size();i++) if(want[i].noKey) want[i].rows=B[i].rows; gs_check(sqSame(sqRead(pt,want),want),"C06 base with the changeset applied is not modified"); } gs_check(sqSchema(pt)==s0,"C06 applying changed the schema");
  rc=GEODIFF_invertChangeset(pc,pi); gs_check(rc==0,"C10 inverting failed"); rc=GEODIFF_applyChangeset(pt,pi); gs_check(rc==0,"C10 applying the inverse failed"); gs_check(sqSame(sqRead(pt,B),B),"C10 inverse does not restore base"); gs_check(sqSchema(pt)==s0,"C10 applying changed the schema");
}
static void noMix(const SDb&B,const SDb&M){ for(size_t i=0;i<B.size();i++) for(auto&r:B[i].rows) for(auto&q:M[i].rows) for(size_t c=0;c<r.size();c++) if(isZeroPair(r[c],q[c])){ uint64_t x=r[c].t==T_REAL?r[c].n:q[c].n; gs_assume((x==dbits(0.5))|(x==dbits(-1e300))|(x==0x7ff0000000000000ULL)); } }
extern "C" {
void h_diff_rows(){ int N=(int)gs_param("rows",2); SDb B(1,sqTab("t","id INTEGER,a,b",1)),M=B; std::vector<unsigned> mk(3,M_INT); symRows(B[0],gs_choice("nb",N+1),mk,0,"b"); symRows(M[0],gs_choice("nm",N+1),mk,0,"m"); roundtrip(B,M); }
void h_diff_types(){ SDb B(1,sqTab("t","id INTEGER,a",1)),M=B; std::vector<unsigned> mk(2); mk[0]=M_INT; mk[1]=M_ANY; symRows(B[0],1,mk,(int)gs_param("len",2),"b"); symRows(M[0],1,mk,(int)gs_param("len",2),"m"); noMix(B,M); roundtrip(B,M); }
// generated columns are not part of the schema
void h_diff_generated(){ int at=gs_choice("at",3); SDb B(1,sqTab("t","id INTEGER,a INTEGER,b",1)),M; static const char*const G[]={", g AS (b IS NULL)",", \"g g\" INTEGER GENERATED ALWAYS AS (a) STORED",", g AS (id) VIRTUAL, h AS (b)"}; B[0].types[at]+=G[gs_choice("gen",3)]; if(at==2) B[0].types[2]="INTEGER"+B[0].types[2]; M=B; std::vector<unsigned> mk(3,M_INT); symRows(B[0],gs_choice("nb",2),mk,0,"b"); symRows(M[0],gs_choice("nm",2),mk,0,"m"); roundtrip(B,M); }
// integers that are the same as doubles, or in their low or high halves
void h_diff_bigint(){ static const uint64_t K[]={9007199254740992ULL,4611686018427387904ULL,0-9007199254740992ULL,9223372036854775806ULL,4294967296ULL,0x8000000000000000ULL}; SDb B(1,sqTab("t","id INTEGER,a,b",1)),M=B; uint64_t k=K[gs_choice("k",6)],d=gs_choice("d",3); static const uint64_t D[]={1,4294967296ULL,0x8000000000000000ULL}; Row r; r.push_back(ovInt(gs_choice("key",2)?k:5)); r.push_back(ovInt(k)); r.push_back(ovInt(1)); Row q=r; int w=gs_choice("where",3); if(w!=2) q[w]=ovInt(q[w].n+D[d]); else { q[1]=ovInt(q[1].n+D[d]); q[2]=ovNull(); } if(gs_choice("swap",2)) std::swap(r,q); B[0].rows.push_back(r); M[0].rows.push_back(q); roundtrip(B,M); }
// tables with many columns
void h_diff_wide(){ static const int C[]={1,7,8,31,32,63,64,69}; int k=C[gs_choice("key",8)],ch=C[gs_choice("changed",8)]; ST t; t.name="t"; for(int i=0;i<70;i++){ t.cols.push_back(nm("c",i)); t.types.push_back("INTEGER"); t.pk.push_back(i==k||(i==0&&gs_choice("two",2))); } SDb B(1,t),M; Row r; for(int i=0;i<70;i++) r.push_back(ovInt(i)); B[0].rows.push_back(r); M=B; M[0].rows[0][ch]=symCell(M_INT,0,"m"); roundtrip(B,M); }
void h_diff_keys(){ // keys of any type, any position, composite
  int shape=gs_choice("shape",4); SDb B(1,shape==0?sqTab("t","a,k TEXT",2):shape==1?sqTab("t","k BLOB,a,l INTEGER",5):shape==2?sqTab("t","k INTEGER,l INTEGER",3):sqTab("t","k TEXT,l TEXT,a",3)),M=B; std::vector<unsigned> mk(B[0].pk.size(),M_INT); if(shape==0){ mk[1]=M_TEXT; } if(shape==1) mk[0]=M_BLOB; if(shape==3) mk[0]=mk[1]=M_TEXT; symRows(B[0],1,mk,1,"b"); symRows(M[0],1+gs_choice("nm",2),mk,1,"m"); roundtrip(B,M); }
// every table is a user's except those whose names have one of the reserved prefixes
void h_diff_name(){ std::string n=editedName(OWN_TABLES,3); bool res=n.size()>=7; for(int i=0;res&&i<7;i++) res=(n[i]|32)==("sqlite_"[i]|32); if(res) gs_end_path("SQLite refuses the name"); SDb B(1,sqTab(n.c_str(),"id INTEGER,a",1)); bool own=ownName(n,OWN_TABLES,3); if(gs_choice("another",2)) B.push_back(sqTab("t","id INTEGER,a",1)); SDb M=B; int how=gs_choice("how",3); Row r; r.push_back(ovInt(1)); r.push_back(ovInt(5)); if(how!=0) B[0].rows.push_back(r); if(how==1) r[1]=symCell(M_INT,0,"m"); if(how!=2) M[0].rows.push_back(r); if(!own){ roundtrip(B,M); return; } const char*pb=gs_path("base.db"),*pm=gs_path("mod.db"),*pc=gs_path("cs"); sqMake(pb,B); sqMake(pm,M); gs_check(GEODIFF_createChangeset(pb,pm,pc)==0&&gs_file_size(pc)==0,"C07 internal tables are not part of the difference"); gs_cover("own"); }
void h_diff_tables(){ SDb B; B.push_back(sqTab("aa","id INTEGER,v",1)); B.push_back(sqTab("bb","x,y",0)); B.push_back(sqTab("cc","id INTEGER,v",1)); SDb M=B; std::vector<unsigned> mk(2,M_INT); for(int i=0;i<3;i++){ symRows(B[i],gs_choice(nm("nb",i).c_str(),2),mk,0,nm("b",i).c_str()); symRows(M[i],gs_choice(nm("nm",i).c_str(),2),mk,0,nm("m",i).c_str()); } roundtrip(B,M); }
// long values
void h_diff_big(){ int len=BIGLEN[gs_choice("len",12)]; SDb B(1,sqTab("t","id INTEGER,a,b",1)),M; Row r; r.push_back(ovInt(1)); r.push_back(bigCell("v",len)); r.push_back(ovInt(2)); Row q=r; q[1]=bigOther(r[1],"other"); int how=gs_choice("how",3); B[0].rows.push_back(r); M=B; if(how==0) M[0].rows[0]=q; else if(how==1) M[0].rows.clear(); else { q[0]=symCell(M_INT,0,"k"); gs_assume(q[0].n!=1); M[0].rows.push_back(q); } roundtrip(B,M); }
// many rows
void h_diff_many(){ int n=(int)gs_param("many",40); SDb B(1,sqTab("t","id INTEGER,a,b",1)),M; for(int i=0;i<n;i++){ Row r; r.push_back(ovInt(i*3)); r.push_back(ovInt(100+i)); r.push_back(ovNull()); B[0].rows.push_back(r); } M=B; int kind=gs_choice("kind",4),at=gs_choice("at",4); static const int P[]={0,1,2,3}; int k=P[at]*(n-1)/3; if(kind==0) M[0].rows[k][1]=symCell(M_INT,0,"m"); else if(kind==1) M[0].rows.erase(M[0].rows.begin()+k); else if(kind==2){ Row r=B[0].rows[0]; r[0]=symCell(M_INT,0,"m"); M[0].rows.push_back(r); gs_assume(distinctKeys(M[0])); } else { for(int i=0;i<n;i++) M[0].rows[i][i%2+1]=ovInt(i==k?100+k:5000+i); M[0].rows[k][1]=symCell(M_INT,0,"m"); } roundtrip(B,M); }
// many tables
void h_diff_manytables(){ int n=(int)gs_param("manytables",20); SDb B; for(int i=0;i<n;i++){ B.push_back(sqTab(nm("t",i).c_str(),"id INTEGER,a",1)); Row r; r.push_back(ovInt(1)); r.push_back(ovInt(i)); B[i].rows.push_back(r); } SDb M=B; int at=gs_choice("at",4)*(n-1)/3; M[at].rows[0][1]=symCell(M_INT,0,"m"); roundtrip(B,M); }
// a GeoPackage: geometry column, its meta tables
void h_diff_geom(){ SDb B(1,sqTab("t","id INTEGER,geom POINT,a",1)),M; sqGpkg(B); Row r; r.push_back(symCell(M_INT,0,"id")); r.push_back(symGeom("b")); r.push_back(symCell(M_INT|M_NULL,0,"a")); M=B; int how=gs_choice("how",4); if(how!=1) B[0].rows.push_back(r); if(how==1||how==0){ if(how==0){ r[1]=symGeom("m"); r[2]=symCell(M_INT|M_NULL,0,"ma"); } M[0].rows.push_back(r); } if(how==3){ r[1]=symGeom("m"); M[0].rows.push_back(r); M[1].rows[0][4]=ovStr(T_TEXT,"2021-01-01T00:00:00.000Z"); M[1].rows[0][6]=symCell(M_REAL|M_NULL,0,"ext"); } roundtrip(B,M); }
}
