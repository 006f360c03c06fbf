// Schema conversion (C30) and comparison (C12).
#include "h.h"
#include "tableschema.h"
static std::string randCase(std::string s,const char*id){ int m=gs_choice(id,3); for(size_t i=0;i<s.size();i++) if(s[i]>='a'&&s[i]<='z'&&(m==1||(m==2&&i%2))) s[i]-=32; return s; }
static TableColumnInfo symCol(const char*id){ TableColumnInfo c; c.name=std::string("Col")+(char)('0'+gs_choice((std::string(id)+".name").c_str(),2)); c.isPrimaryKey=gs_bool((std::string(id)+".pk").c_str()); c.isNotNull=gs_bool((std::string(id)+".nn").c_str()); return c; }
static bool restSame(const TableColumnInfo&a,const TableColumnInfo&b){ return a.name==b.name&&a.isPrimaryKey==b.isPrimaryKey&&a.isNotNull==b.isNotNull&&a.isAutoIncrement==b.isAutoIncrement&&a.isGeometry==b.isGeometry&&a.geomType==b.geomType&&a.geomSrsId==b.geomSrsId&&a.geomHasZ==b.geomHasZ&&a.geomHasM==b.geomHasM; }
static void conv(TableColumnInfo c,const std::string&want){ TableSchema t; t.name="Tab"; t.columns.push_back(c); TableColumnInfo k; k.name="k"; k.type="INTEGER"; k.isPrimaryKey=true; t.columns.push_back(k); t.crs.srsId=7; t.crs.authName="EPSG"; TableSchema o=t; int rc=guarded([&]{ tableSchemaConvert("sqlite","postgres",t); }); gs_check(rc==0,"conversion succeeds"); gs_check(t.name==o.name&&t.crs==o.crs&&t.columns.size()==2,"table name, reference system and columns are kept"); if(t.columns.size()!=2) return; gs_check(t.columns[0].type==want,"mapped type"); gs_check(t.columns[1].type=="integer","mapped type of second column"); gs_check(restSame(t.columns[0],o.columns[0])&&restSame(t.columns[1],o.columns[1]),"other column attributes are kept"); gs_log_bytes("type",t.columns[0].type.data(),t.columns[0].type.size()); gs_cover("done"); }
extern "C" void h_schema_known(){ static const char*T[][2]={{"int","integer"},{"integer","integer"},{"smallint","integer"},{"mediumint","integer"},{"bigint","integer"},{"tinyint","integer"},{"double","double precision"},{"real","double precision"},{"double precision","double precision"},{"float","double precision"},{"bool","boolean"},{"boolean","boolean"},{"text","text"},{"text(10)","text"},{"varchar(255)","text"},{"blob","bytea"},{"datetime","timestamp"},{"date","text"},{"numeric","text"},{"","text"},{"integers","text"},{"xtext(","text"},{"var","text"}}; int k=gs_choice("type",23); TableColumnInfo c=symCol("c"); c.type=randCase(T[k][0],"case"); c.isAutoIncrement=gs_bool("auto"); bool a=c.isAutoIncrement; std::string w=T[k][1]; if(w=="integer"&&a) w="serial"; conv(c,w); }
// arbitrary short type names, letter by letter
extern "C" void h_schema_any(){ int n=gs_choice("len",(int)gs_param("type",5)+1); std::string s(n,0); if(n) gs_bytes(&s[0],n,"type"); std::string l=s; for(auto&ch:l) if(ch>='A'&&ch<='Z') ch+=32; TableColumnInfo c; c.name="c"; c.type=s; conv(c,l=="int"?"integer":l=="real"||l=="float"?"double precision":l=="bool"?"boolean":l=="text"||l.substr(0,5)=="text("?"text":l=="blob"?"bytea":"text"); }
extern "C" void h_schema_geom(){ TableColumnInfo c=symCol("c"); static const char*G[]={"POINT","MULTIPOLYGON","GEOMETRY"}; int g=gs_choice("geom",3); c.type=randCase(gs_choice("named",2)?"geometry":G[g],"case"); c.isGeometry=true; c.geomType=G[g]; int sr[]={4326,-1,0,5514,2147483647}; c.geomSrsId=sr[gs_choice("srid",5)]; c.geomHasZ=gs_bool("z"); c.geomHasM=gs_bool("m"); std::string t=c.geomType; if(c.geomHasZ) t+="Z"; if(c.geomHasM) t+="M"; conv(c,"geometry("+t+", "+std::to_string(c.geomSrsId)+")"); }
// PostgreSQL to SQLite, same driver, unknown combination
extern "C" void h_schema_back(){ static const char*T[]={"geometry(PointZ,4326)","geometry","integer","text","geometry(","numeric(1,2)","xgeometry(Point)"}; int k=gs_choice("type",7); TableSchema t; t.name="t"; TableColumnInfo c=symCol("c"); c.type=T[k]; c.isGeometry=k==0; c.geomType="POINT"; c.geomSrsId=3; t.columns.push_back(c); TableSchema o=t; static const char*D[][2]={{"postgres","sqlite"},{"sqlite","sqlite"},{"postgres","postgres"},{"sqlite","mysql"},{"x","postgres"}}; int d=gs_choice("drivers",5); int rc=guarded([&]{ tableSchemaConvert(D[d][0],D[d][1],t); }); if(d>=3) gs_check(rc==1,"unsupported combination is refused"); else { gs_check(rc==0,"conversion succeeds"); if(d==0&&(k==0||k==4)){ gs_check(t.columns[0].type==c.geomType,"geometry(...) becomes the plain geometry type"); o.columns[0].type=t.columns[0].type; } gs_check(t==o,"nothing else changes"); gs_cover("done"); } }
// schemas are equal exactly when every attribute is
extern "C" void h_schema_eq(){ TableSchema a; a.name="t"; TableColumnInfo c; c.name="c"; c.type="INT"; a.columns.push_back(c); c.name="d"; a.columns.push_back(c); a.crs.srsId=4326; a.crs.authName="EPSG"; a.crs.authCode=4326; a.crs.wkt="W"; TableSchema b=a; int k=gs_choice("what",18); TableColumnInfo&x=b.columns[gs_choice("col",2)]; bool same=false; uint32_t n=gs_u32("n"); switch(k){ case 0: same=true; break; case 1: b.name="T"; break; case 2: x.name="e"; break; case 3: x.type="TEXT"; break; case 4: x.isPrimaryKey=true; break; case 5: x.isNotNull=true; break; case 6: x.isAutoIncrement=true; break; case 7: x.isGeometry=true; break; case 8: x.geomType="POINT"; break; case 9: x.geomSrsId=(int)n; same=n==(uint32_t)-1; break; case 10: x.geomHasZ=true; break; case 11: x.geomHasM=true; break; case 12: b.columns.pop_back(); break; case 13: std::swap(b.columns[0],b.columns[1]); break; case 14: b.crs.srsId=(int)n; same=n==4326; break; case 15: b.crs.authName="X"; break; case 16: b.crs.authCode=(int)n; same=n==4326; break; case 17: b.crs.wkt="V"; break; } gs_check((a==b)==same,"C12 schemas compare equal exactly when all attributes agree"); gs_check((a!=b)==!same,"C12 schema inequality is the negation"); gs_check((b==a)==same,"C12 schema equality is symmetric");
  bool anyPk=b.columns[0].isPrimaryKey||(b.columns.size()>1&&b.columns[1].isPrimaryKey); gs_check(b.hasPrimaryKey()==anyPk,"C12 primary key is found"); size_t ci=b.columnFromName("d"); size_t w=SIZE_MAX; for(size_t i=0;i<b.columns.size();i++) if(b.columns[i].name=="d"){ w=i; break; } gs_check(ci==w,"C12 column index by name"); w=SIZE_MAX; for(size_t i=0;i<b.columns.size();i++) if(b.columns[i].isGeometry){ w=i; break; } gs_check(b.geometryColumn()==w,"C12 geometry column index"); ChangesetTable ct=schemaToChangesetTable("t",b); gs_check(ct.columnCount()==b.columns.size(),"C12 changeset table has all columns"); for(size_t i=0;i<b.columns.size();i++) gs_check(ct.primaryKeys[i]==b.columns[i].isPrimaryKey,"C12 changeset table key flags"); gs_cover("done"); }
