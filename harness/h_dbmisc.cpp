// C12: databases with different schemas; C33: names; C32: dumps and copies.
#include "sq.h"
#include "changesetutils.h"
extern "C" { std::string gs_stub_entry_json(const ChangesetEntry&){ return std::string("{}"); } }
static const char*pB(){ return gs_path("base.db"); }
static const char*pM(){ return gs_path("mod.db"); }
static const char*pC(){ return gs_path("cs"); }
static void gpkg(std::vector<std::string>&v){ static const char*const G=
#include "../model/gpkg_meta.inc"
 ; std::string s(G),w; for(char c:s){ if(c==';'){ v.push_back(w); w.clear(); } else w+=c; } }
static void refused(const SDb&B,const SDb&M,const std::vector<std::string>&mb,const std::vector<std::string>&mm,bool same){ sqMake(pB(),B,mb); sqMake(pM(),M,mm); Bytes b0=readFile(pB()),m0=readFile(pM()); int rc=GEODIFF_createChangeset(pB(),pM(),pC()); if(same){ gs_check(rc==0,"C12 equal schemas are refused"); gs_cover("accepted"); } else { gs_check(rc!=0,"C12 different schemas are not refused"); gs_cover("refused"); } gs_check(fileIs(pB(),b0)&&fileIs(pM(),m0),"C21 input modified"); gs_log("rc",rc!=0); }
static SDb two(){ SDb B; B.push_back(sqTab("t","id INTEGER,a TEXT,b REAL",1)); B.push_back(sqTab("plain","x INTEGER,y",0)); return B; }
static void fill2(SDb&B,SDb&M){ Row r; r.push_back(ovInt(1)); r.push_back(symCell(M_INT,0,"b")); B[0].rows.push_back(r); M=B; M[0].rows[0][1]=symCell(M_INT,0,"m"); Row q; q.push_back(ovStr(T_TEXT,"k")); q.push_back(symCell(M_INT,0,"v")); M[1].rows.push_back(q); }
extern "C" {
void h_schema_tables(){ SDb B=two(),M=B; int k=gs_choice("what",24); bool same=false; ST&t=M[0]; std::vector<std::string> none,mb,mm; switch(k){ case 0: same=true; break; case 1: M.push_back(sqTab("more","id INTEGER",1)); break; case 2: M.pop_back(); break; case 3: M.erase(M.begin()); break; case 4: M[0].name="t2"; break; case 5: M[0].name="T"; break; case 6: t.cols[1]="c"; break; case 7: t.cols[1]="A"; break; case 8: t.types[1]="BLOB"; break; case 9: t.types[1]=""; break; case 10: t.pk[0]=0; t.pk[1]=1; break; case 11: t.pk[1]=1; break; case 12: t.types[1]="TEXT NOT NULL"; break; case 13: t.cols.push_back("z"); t.types.push_back("TEXT"); t.pk.push_back(0); break; case 14: t.cols.pop_back(); t.types.pop_back(); t.pk.pop_back(); break; case 15: std::swap(t.cols[1],t.cols[2]); std::swap(t.types[1],t.types[2]); break; case 16: std::swap(t.cols[1],t.cols[2]); break; case 17: M[1].cols[1]="z"; break; case 18: t.pk[0]=0; t.noKey=true; break; case 19: M[1].name="plain2"; break; case 20: std::swap(M[0],M[1]); same=true; break; case 21: mm.push_back("CREATE INDEX ix ON t (a)"); same=true; break; case 22: t.types[0]+=" NOT NULL"; break; case 23: M[1].types[0]+=" NOT NULL"; break; }
  int sw=gs_choice("swap",2); if(gs_choice("rows",2)) for(SDb*d:{&B,&M}) for(auto&x:*d) if(x.name!="more"){ Row r; for(size_t i=0;i<x.cols.size();i++) r.push_back(ovInt(1)); for(size_t i=0;i<x.cols.size();i++) if(x.types[i].substr(0,4)=="TEXT") r[i]=ovStr(T_TEXT,"q"); else if(x.types[i]=="REAL"){ r[i].t=T_REAL; r[i].n=dbits(0.5); } x.rows.push_back(r); } if(sw) refused(M,B,mm,mb,same); else refused(B,M,mb,mm,same); }
// geometry attributes of a GeoPackage: anything in the geometry registration
// tables SQLite makes for itself (AUTOINCREMENT, ANALYZE) are not a part of the schema, tables with similar names are
void h_schema_internal(){ SDb B(1,sqTab("t","id INTEGER,a INTEGER",1)),M; B.push_back(sqTab("u","k TEXT,v",1)); fill2(B,M); int w=gs_choice("what",6); std::vector<std::string> mb,mm; bool same=w<4; static const char*const AI="CREATE TABLE z (id INTEGER PRIMARY KEY AUTOINCREMENT, x)"; switch(w){ case 0: break; case 1: mb.push_back("CREATE INDEX ix ON t (a)"); mb.push_back("ANALYZE"); break; case 2: mb.push_back(AI); mm.push_back("CREATE TABLE z (id INTEGER PRIMARY KEY, x)"); break; case 3: mb.push_back(AI); mm=mb; mm.push_back("ANALYZE"); break; case 4: mb.push_back(AI); break; case 5: mb.push_back("CREATE TABLE sqlitex (id INTEGER PRIMARY KEY)"); break; } bool sw=gs_choice("swap",2); if(sw) mb.swap(mm); if(!same||w==0) { refused(B,M,mb,mm,same); return; } sqMake(pB(),B,mb); sqMake(pM(),M,mm); int rc=GEODIFF_createChangeset(pB(),pM(),pC()); gs_check(rc==0,"C12,C06 equal schemas are refused"); if(rc) return; OC r; gs_check(decodeFile(pC(),r),"C06 changeset is malformed"); Db x=plain(B); bool ok=applyAll(x,r); gs_check(ok&&sameRows(x[0],plain(M)[0])&&sameRows(x[1],plain(M)[1]),"C06 difference of the tables"); rc=GEODIFF_applyChangeset(pB(),pC()); gs_check(rc==0&&sqSame(sqRead(pB(),B),M),"C06,C12 apply to a database with internal tables"); gs_cover("internal"); }
void h_schema_gpkg(){ SDb B(1,sqTab("t","id INTEGER,geom POINT,g2 POINT",1)); std::vector<std::string> mb; gpkg(mb); mb.push_back("INSERT INTO gpkg_spatial_ref_sys VALUES ('w', 4326, 'EPSG', 4326, 'wkt', '')"); mb.push_back("INSERT INTO gpkg_spatial_ref_sys VALUES ('x', 5514, 'EPSG', 5514, 'wkt', '')"); std::vector<std::string> mm=mb; int k=gs_choice("what",7); mb.push_back("INSERT INTO gpkg_geometry_columns VALUES ('t', 'geom', 'POINT', 4326, 0, 0)"); static const char*V[]={"INSERT INTO gpkg_geometry_columns VALUES ('t', 'geom', 'POINT', 4326, 0, 0)","INSERT INTO gpkg_geometry_columns VALUES ('t', 'g2', 'POINT', 4326, 0, 0)","INSERT INTO gpkg_geometry_columns VALUES ('t', 'geom', 'POLYGON', 4326, 0, 0)","INSERT INTO gpkg_geometry_columns VALUES ('t', 'geom', 'POINT', 5514, 0, 0)","INSERT INTO gpkg_geometry_columns VALUES ('t', 'geom', 'POINT', 4326, 1, 0)","INSERT INTO gpkg_geometry_columns VALUES ('t', 'geom', 'POINT', 4326, 0, 1)",nullptr}; if(V[k]) mm.push_back(V[k]); std::string nb=gs_choice("other row",2)?"other":""; (void)nb; if(gs_choice("swap",2)) refused(B,B,mm,mb,k==0); else refused(B,B,mb,mm,k==0); }
// arbitrary letters in names and types, arbitrary geometry registration
static std::string symStr(const char*pre,const char*id,int n){ std::string s(pre); for(int i=0;i<n;i++){ unsigned char c=gs_u8((std::string(id)+nm("",i)).c_str()); gs_assume(c>='A'&&c<='z'&&c!='\\'&&c!='`'&&c!='['&&c!=']'&&c!='^'&&c!='_'); s.push_back((char)c); } return s; }
void h_schema_letters(){ SDb B=two(),M=B; int k=gs_choice("what",3),n=1+gs_choice("len",2); std::string x=symStr("Q","b",n),y=symStr("Q","m",n); bool same=x==y; if(k==0){ B[0].cols[1]=x; M[0].cols[1]=y; } else if(k==1){ B[0].types[1]=x; M[0].types[1]=y; } else { B[0].name=x; M[0].name=y; } refused(B,M,std::vector<std::string>(),std::vector<std::string>(),same); }
void h_schema_srs(){ SDb B(1,sqTab("t","id INTEGER,geom POINT,g2 POINT",1)); B.push_back(sqTab("gpkg_geometry_columns","table_name,column_name,geometry_type_name,srs_id,z,m",0)); B.push_back(sqTab("gpkg_spatial_ref_sys","srs_name,srs_id INTEGER,organization,organization_coordsys_id,definition",0)); SDb M=B; int32_t v[2][3]; int i=0; int reg[2]; for(SDb*d:{&B,&M}){ reg[i]=!gs_choice(nm("unregistered",i).c_str(),2); static const int32_t S[]={-1,4326,5514,2147483647}; v[i][0]=S[gs_choice(nm("srs",i).c_str(),4)]; for(int j=1;j<3;j++){ v[i][j]=(int32_t)gs_u32(nm("v",i*10+j).c_str()); } Row r; r.push_back(ovStr(T_TEXT,"t")); r.push_back(ovStr(T_TEXT,"geom")); r.push_back(ovStr(T_TEXT,"POINT")); for(int j=0;j<3;j++) r.push_back(ovInt((uint64_t)(int64_t)v[i][j])); if(reg[i]) (*d)[1].rows.push_back(r); Row q; q.push_back(ovStr(T_TEXT,"n")); q.push_back(ovInt((uint64_t)(int64_t)v[i][0])); q.push_back(ovStr(T_TEXT,"EPSG")); q.push_back(ovInt(5)); q.push_back(ovStr(T_TEXT,"W")); (*d)[2].rows.push_back(q); i++; } bool same=reg[0]==reg[1]&&(!reg[0]||(v[0][0]==v[1][0]&&!v[0][1]==!v[1][1]&&!v[0][2]==!v[1][2])); refused(B,M,std::vector<std::string>(),std::vector<std::string>(),same); }
}
// ---- names
static const char*const NAMES[]={"a\"b","a'b","two words","select","%s%d%w","x;DROP TABLE t;--","[a]","`a`","\xc3\xa9","main","aux","t.u","-- c","?1",":p","*","\"","\"\"","'","table","\\","1","NULL","rowid","NEW"};
static std::string pickName(const char*id,bool sym){ int n=(int)(sizeof NAMES/sizeof*NAMES); int k=gs_choice(id,n+(sym?1:0)); if(k<n) return NAMES[k]; std::string s="q"; unsigned char c=gs_u8((std::string(id)+".c").c_str()); gs_assume(c>0&&c<0x80); s.push_back((char)c); s+="z"; return s; }
// names close to those of GeoPackage's and SQLite's own tables, and long ones
static std::string nearName(int k){ static const char*const N[]={"my_gpkg_t","gpkgx","gpkg","rtreex","my_rtree_t","rtree","sqlite","sqlit_t","_gpkg_","gpk_t","sqlite sequence","layer_styles"}; if(k<12) return N[k]; static const int L[]={33,65,129,300}; std::string s; for(int i=0;i<L[k-12];i++) s+=(char)('a'+i%26); return s; }
static void nameRoundtrip(const SDb&B,const SDb&M,const std::vector<std::string>&more){ sqMake(pB(),B,more); sqMake(pM(),M,more); std::vector<std::string> s0=sqSchema(pB()); int rc=GEODIFF_createChangeset(pB(),pM(),pC()); gs_check(rc==0,"C33 creating a changeset failed"); if(rc) return; OC c; gs_check(decodeFile(pC(),c),"C33 changeset is malformed"); Db w=plain(B); bool ok=applyAll(w,c); gs_check(ok,"C33 changeset does not describe the difference"); for(size_t i=0;ok&&i<w.size();i++) if(!M[i].noKey) gs_check(sameRows(w[i],M[i]),"C33 changeset does not describe the difference"); rc=GEODIFF_applyChangeset(pB(),pC()); gs_check(rc==0,"C33 applying failed"); SDb want=M; for(size_t i=0;i<M.size();i++) if(M[i].noKey) want[i].rows=B[i].rows; gs_check(sqSame(sqRead(pB(),want),want),"C33 wrong rows after applying"); gs_check(sqSchema(pB())==s0,"C33 schema changed"); gs_log("n",flat(c).size()); gs_cover("done"); }
static void fill(ST&b,ST&m){ size_t nc=b.pk.size(); for(int i=0;i<2;i++){ Row r; for(size_t c=0;c<nc;c++) r.push_back(c==0?ovInt(1+i):symCell(M_INT,0,"b")); if(i==0||!gs_choice(("deleted"),2)){} b.rows.push_back(r); } m=b; m.rows.erase(m.rows.begin()); m.rows[0][nc-1]=symCell(M_INT,0,"m"); Row r; for(size_t c=0;c<nc;c++) r.push_back(c==0?ovInt(7):symCell(M_INT,0,"m")); m.rows.push_back(r); }
extern "C" {
void h_name_table(){ ST b=sqTab("x","id INTEGER,a",1),m; b.name=pickName("table",true); fill(b,m); SDb B,M; B.push_back(b); M.push_back(m); ST o=sqTab("neighbour","id INTEGER,a",1); Row r; r.push_back(ovInt(1)); r.push_back(symCell(M_INT,0,"o")); o.rows.push_back(r); B.push_back(o); M.push_back(o); nameRoundtrip(B,M,std::vector<std::string>()); }
void h_name_near(){ ST b=sqTab("x","id INTEGER,a",1),m; int w=gs_choice("what",2); (w?b.cols[1]:b.name)=nearName(gs_choice("name",16)); fill(b,m); SDb B(1,b),M(1,m); nameRoundtrip(B,M,std::vector<std::string>()); }
void h_name_column(){ ST b=sqTab("t","k,v",1),m; b.types[0]=gs_choice("int",2)?"INTEGER":""; int which=gs_choice("which",2); b.cols[which]=pickName("column",true); fill(b,m); SDb B(1,b),M(1,m); nameRoundtrip(B,M,std::vector<std::string>()); }
void h_name_all(){ ST b=sqTab("t","k INTEGER,l INTEGER,v",3),m; b.name=pickName("table",false); b.cols[1]=pickName("column",false); b.cols[2]=b.cols[1]+"2"; fill(b,m); SDb B(1,b),M(1,m); nameRoundtrip(B,M,std::vector<std::string>()); }
void h_name_trigger(){ ST b=sqTab("t","k INTEGER,v",1),m; b.name=gs_choice("table",2)?"t \"q\"":"t"; fill(b,m); SDb B(1,b),M(1,m); std::string n=pickName("trigger",true); std::vector<std::string> more; more.push_back("CREATE TRIGGER "+qid(n)+" AFTER INSERT ON "+qid(b.name)+" BEGIN DELETE FROM "+qid(b.name)+" WHERE "+qid("v")+" IS NOT NULL OR '%d %s %%' = 'it''s'; END"); nameRoundtrip(B,M,more); }
// a changeset naming a table that does not exist changes nothing
void h_name_unknown(){ ST b=sqTab("t","id INTEGER,a",1); Row r; r.push_back(ovInt(1)); r.push_back(symCell(M_INT,0,"b")); b.rows.push_back(r); SDb B(1,b); sqMake(pB(),B); std::vector<std::string> s0=sqSchema(pB()); static const char*const BAD[]={"t\" WHERE 1 --","t\"; DROP TABLE \"t","t\" (id,a) VALUES(9,9) --","main.t","\"t\"","t ","'t'","","main\".\"t","sqlite_master","t\n"}; int n=(int)(sizeof BAD/sizeof*BAD),k=gs_choice("name",n+1); std::string nm_; if(k<n) nm_=BAD[k]; else { int len=1+gs_choice("len",3); for(int i=0;i<len;i++){ unsigned char c=gs_u8(nm("c",i).c_str()); gs_assume(c>0&&c<0x80); nm_.push_back((char)c); } if(len==1){ gs_assume(nm_[0]!='t'); gs_assume(nm_[0]!='T'); } } OC c(1,pkTable("x",2,1)); c[0].name=nm_; OE e; int op=gs_choice("op",3); e.op=OPS[op]; if(op==0){ e.w.push_back(ovInt(5)); e.w.push_back(ovInt(6)); } else { e.o=b.rows[0]; if(op==1){ e.w.resize(2); e.w[1]=ovInt(3); } } e.op=op==0?OP_INS:op==1?OP_UPD:OP_DEL; c[0].e.push_back(e); putFile(pC(),encode(c)); int rc=GEODIFF_applyChangeset(pB(),pC()); gs_check(rc!=0,"C33 changeset for an unknown table is applied"); gs_check(sqSame(sqRead(pB(),B),B)&&sqSchema(pB())==s0,"C33,C08 a table name changed the database"); gs_cover("done"); }
// file names with quotes
void h_name_file(){ static const char*const F[]={"it's.db","a\"b.db","a b.db","%s.db","x'; DROP TABLE t; --.db","a?b#c.db","caf\xc3\xa9.db"}; int k=gs_choice("file",7); ST b=sqTab("t","id INTEGER,a",1),m; fill(b,m); SDb B(1,b),M(1,m); std::string fb=gs_path(F[k]); fb=fb; std::string fm=gs_path((std::string("m")+F[k]).c_str()); sqMake(fb.c_str(),B); sqMake(fm.c_str(),M); int rc=GEODIFF_createChangeset(fb.c_str(),fm.c_str(),pC()); gs_check(rc==0,"C33 file names"); if(rc) return; rc=GEODIFF_applyChangeset(fb.c_str(),pC()); gs_check(rc==0,"C33 file names"); gs_check(sqSame(sqRead(fb.c_str(),M),M),"C33 file names"); gs_cover("done"); }
// ---- dumps
void h_dump(){ SDb B; int shape=gs_choice("shape",4); B.push_back(shape==0?sqTab("t","id INTEGER,a",1):shape==1?sqTab("t","k TEXT,a",1):shape==2?sqTab("t","a,k INTEGER,l INTEGER",6):sqTab("a \"b\"","id INTEGER,a",1)); B.push_back(sqTab("nokey","x",0)); B.push_back(sqTab("v","id INTEGER,a",1)); std::vector<unsigned> mk(3,M_INT); if(shape==0) mk[1]=M_ANY&~M_UNDEF; if(shape==1){ mk[0]=M_TEXT; mk[1]=M_TEXT|M_BLOB; } if(shape==2) mk[0]=M_INT|M_NULL; symRows(B[0],gs_choice("n",3),mk,1,"t"); if(shape==1) gs_assume(distinctKeys(B[0])); symRows(B[1],1,mk,0,"x"); std::vector<unsigned> mi(2,M_INT); symRows(B[2],gs_choice("m",2),mi,0,"v"); sqMake(pB(),B); Bytes b0=readFile(pB()); int files=gs_count_files(); int rc=GEODIFF_dumpData("sqlite",gs_choice("extra",2)?"x":nullptr,pB(),pC()); gs_check(rc==0,"C32 dump failed"); if(rc) return; OC c; gs_check(decodeFile(pC(),c),"C32 dump is malformed"); size_t total=0; for(auto&t:B){ if(t.noKey) continue; std::vector<Row> got; for(auto&o:c) if(o.name==t.name){ gs_check(o.pk==t.pk,"C32 key flags"); for(auto&e:o.e){ gs_check(e.op==OP_INS,"C32 dump has only inserts"); got.push_back(e.w); } } total+=got.size(); gs_check(multi(got,t.rows),"C32 dumped rows"); } gs_check(flat(c).size()==total,"C32 dump of other tables"); gs_check(fileIs(pB(),b0)&&gs_count_files()==files+1,"C21 dump changed its input or left files"); gs_log("total",total); gs_cover("done"); 
  SDb E=B; for(auto&t:E) t.rows.clear(); sqMake(pM(),E); rc=GEODIFF_applyChangeset(pM(),pC()); gs_check(rc==0,"C32 dump does not apply to an empty copy"); for(auto&t:E) if(!t.noKey) for(auto&u:B) if(u.name==t.name) t.rows=u.rows; gs_check(sqSame(sqRead(pM(),E),E),"C32 dump applied to an empty copy"); }
// long values, many rows and tables
void h_dump_many(){ int n=(int)gs_param("many",30),kind=gs_choice("kind",3); SDb B; for(int i=0;i<(kind==1?20:1);i++) B.push_back(sqTab(nm("t",i).c_str(),"id INTEGER,a",1)); if(kind==2){ Row r; r.push_back(ovInt(1)); r.push_back(bigCell("v",BIGLEN[gs_choice("len",12)])); B[0].rows.push_back(r); } else for(int i=0;i<n;i++){ Row r; r.push_back(ovInt(i)); r.push_back(i==n/2?symCell(M_INT,0,"v"):ovInt(50+i)); B[kind==1?i%20:0].rows.push_back(r); } sqMake(pB(),B); int rc=GEODIFF_dumpData("sqlite",nullptr,pB(),pC()); gs_check(rc==0,"C32 dump failed"); if(rc) return; OC c; gs_check(decodeFile(pC(),c),"C32 dump is malformed"); Db w=plain(B); for(auto&t:w) t.rows.clear(); bool ok=applyAll(w,c); gs_check(ok,"C32 dump has only inserts"); for(size_t i=0;i<B.size();i++) gs_check(sameRows(w[i],B[i]),"C32 dumped rows"); gs_check(flat(c).size()==(kind==2?1u:n),"C32 dump of other tables"); gs_cover("done"); }
// copying within sqlite: the same tables and rows, or an error
void h_copy(){ int spatial=gs_choice("spatial",2); SDb B(1,sqTab("t","id INTEGER,geom POINT,a TEXT",1)); Row r; r.push_back(symCell(M_INT,0,"k")); r.push_back(symCell(M_BLOB,2,"g")); r.push_back(symCell(M_TEXT,1,"a")); if(gs_choice("row",2)) B[0].rows.push_back(r); std::vector<std::string> more; if(spatial){ gpkg(more); more.push_back("INSERT INTO gpkg_spatial_ref_sys VALUES ('w', 4326, 'EPSG', 4326, 'wkt', '')"); more.push_back("INSERT INTO gpkg_geometry_columns VALUES ('t', 'geom', 'POINT', 4326, 0, 0)"); } sqMake(pB(),B,more); Bytes b0=readFile(pB()); if(gs_choice("exists",2)){ SDb O(1,sqTab("old","x",0)); sqMake(pM(),O); } int files=gs_count_files(); bool had=gs_file_size(pM())>=0; int rc=GEODIFF_makeCopy("sqlite",nullptr,pB(),"sqlite",nullptr,pM()); if(rc==0){ gs_check(sqSame(sqRead(pM(),B),B),"C32 copied rows"); gs_cover("copied"); } else gs_cover("refused"); bool now=gs_file_size(pM())>=0; gs_check(fileIs(pB(),b0)&&gs_count_files()==files-had+now,"C21 copy changed its input or left files"); gs_log("rc",rc!=0); }
}
