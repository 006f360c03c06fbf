// Databases in the PostgreSQL stand-in, with the oracle's tables.
#pragma once
#include "sq.h"
#include "pq.h"
struct PT : Tab { std::vector<PqCol> c; };
typedef std::vector<PT> PDb;
static inline bool isGeom(const PqCol&c){ return !c.geomType.empty(); }
static inline Bytes gpkgBlob(int srid,const Bytes&wkb){ Bytes b; b.push_back('G'); b.push_back('P'); b.push_back(0); b.push_back(1); for(int i=0;i<4;i++) b.push_back((unsigned char)((uint32_t)srid>>(8*i))); b.insert(b.end(),wkb.begin(),wkb.end()); return b; }
// "name type" list; a leading * marks key columns, a trailing ! NOT NULL, # a sequence; geometry columns are written geometry(TYPE,SRID) with ; for ,
static inline PT pgTab(const std::string&name,const char*spec){ PT t; t.name=name; std::string s(spec),w; s+=','; for(char ch:s){ if(ch!=','){ w+=ch==';'?',':ch; continue; } PqCol c; if(w[0]=='*'){ c.pk=true; w=w.substr(1); } if(w[w.size()-1]=='#'){ c.seq=true; c.notnull=true; w.resize(w.size()-1); } if(w[w.size()-1]=='!'){ c.notnull=true; w.resize(w.size()-1); } size_t q=w.find(' '); c.name=w.substr(0,q); c.type=w.substr(q+1); if(c.type.compare(0,9,"geometry(")==0){ size_t k=c.type.find(','); c.geomType=c.type.substr(9,k-9); c.srid=atoi(c.type.c_str()+k+1); } t.c.push_back(c); t.pk.push_back(c.pk); w.clear(); } return t; }
static inline PqCell pqCell(const OV&v,const PqCol&c){ PqCell x; x.t=v.t; x.n=(int64_t)v.n; x.s=std::string(v.s.begin(),v.s.end()); if(isGeom(c)&&v.t==T_BLOB) x.s=x.s.substr(8); return x; }
static inline OV pqBack(const PqCell&x,const PqCol&c){ OV v; v.t=x.t; if(x.t==T_INT||x.t==T_REAL) v.n=(uint64_t)x.n; if(x.t==T_TEXT||x.t==T_BLOB) v.s.assign(x.s.begin(),x.s.end()); if(isGeom(c)&&v.t==T_BLOB) v.s=gpkgBlob(x.n,v.s); return v; }
static inline void pgPut(const std::string&schema,const PT&t){ std::vector<PqRow> rows; for(auto&r:t.rows){ PqRow q; for(size_t i=0;i<r.size();i++) q.push_back(pqCell(r[i],t.c[i])); rows.push_back(q); } pqTable(schema,t.name,t.c,rows); }
static inline void pgMake(const std::string&schema,const PDb&d){ pqSchema(schema); for(auto&t:d) pgPut(schema,t); }
static inline PT pgRead(const std::string&schema,const PT&like){ PT t=like; t.rows.clear(); for(auto&q:pqRows(schema,like.name)){ Row r; for(size_t i=0;i<q.size()&&i<like.c.size();i++) r.push_back(pqBack(q[i],like.c[i])); t.rows.push_back(r); } return t; }
static inline bool pgIs(const std::string&schema,const PDb&d){ if(pqTables(schema).size()!=d.size()) return false; for(auto&t:d) if(!multi(pgRead(schema,t).rows,t.rows)) return false; return true; }
// cells. Integers are a digit or one of the limits, so that formatting stays cheap
static inline OV pgDigit(const char*tag){ uint64_t d=gs_sym(nm(tag,gsCtr++).c_str(),4); gs_assume(d<10); return ovInt(d); }
static inline OV pgInt(const char*tag){ static const int64_t L[]={-1,2147483647LL,-2147483648LL,-70}; int k=gs_choice(nm((std::string(tag)+".int").c_str(),gsCtr++).c_str(),5); return k?ovInt((uint64_t)L[k-1]):pgDigit(tag); }
static inline OV pgReal(const char*tag){ static const double L[]={0,1.5,-0.1,1e300,5e-324,1.0/3,123456789.125,-1e21}; return ovReal(dbits(L[gs_choice(nm((std::string(tag)+".real").c_str(),gsCtr++).c_str(),8)])); }
static inline OV pgText(const char*tag,int max,bool nul=false){ OV v=symValue(1<<T_TEXT,max,tag); if(!nul) for(auto c:v.s) gs_assume(c!=0); return v; }
static inline OV pgGeom(const char*tag,int srid,int n=2){ Bytes w(n); if(n) gs_bytes(w.data(),n,nm(tag,gsCtr++).c_str()); OV v; v.t=T_BLOB; v.s=gpkgBlob(srid,w); return v; }
static inline OV pgTime(const char*tag){ std::string s="2020-07-13T16:17:54Z"; unsigned char d=gs_u8(nm(tag,gsCtr++).c_str()); gs_assume(d>='0'&&d<='9'); s[18]=(char)d; return ovStr(T_TEXT,s); }
// a non-NULL value for a column
static inline OV pgValue(const PqCol&c,const char*tag,int max){ if(c.type=="integer") return pgInt(tag); if(c.type=="boolean") return ovInt(gs_sym(nm(tag,gsCtr++).c_str(),1)); if(c.type=="double precision") return pgReal(tag); if(isGeom(c)) return pgGeom(tag,c.srid); if(c.type=="timestamp without time zone") return pgTime(tag); if(c.type=="bytea"){ OV v=symValue(1<<T_BLOB,max,tag); return v; } return pgText(tag,max); }
