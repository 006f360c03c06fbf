// JSON listing (C22).
#include "gen.h"
#include "json.h"
static void listAndCheck(const OC&c,bool log=true){ const char*f=gs_path("in.diff"),*j=gs_path("o.json"); Bytes b=encode(c); putFile(f,b); int rc=GEODIFF_listChanges(f,j); gs_check(rc==GEODIFF_SUCCESS,"listing succeeds"); if(rc!=GEODIFF_SUCCESS) return; if(log) logFile("json",j); Bytes js=readFile(j); JV v; bool ok=jsonParse(js,v); gs_check(ok,"listing is valid JSON"); if(!ok) return; const JV*l=v.get("geodiff"); gs_check(l&&l->k=='[',"listing has the list of entries"); if(!l) return; std::vector<FE> fl=flat(c); gs_check(l->a.size()==fl.size(),"one JSON object per entry");
  for(size_t i=0;i<fl.size()&&i<l->a.size();i++){ const JV&x=l->a[i]; const OE&e=*fl[i].e; const JV*t=x.get("table"); gs_check(t&&t->k=='$'&&t->s==fl[i].t->name,"table name in JSON"); const JV*ty=x.get("type"); gs_check(ty&&ty->k=='$'&&ty->s==(e.op==OP_INS?"insert":e.op==OP_UPD?"update":"delete"),"operation in JSON"); const JV*ch=x.get("changes"); gs_check(ch&&ch->k=='[',"list of changes in JSON"); if(!ch) continue; size_t k=0; for(size_t col=0;col<fl[i].t->pk.size();col++){ OV o=e.op==OP_INS?OV():e.o[col],w=e.op==OP_DEL?OV():e.w[col]; if(!o.t&&!w.t) continue; if(k>=ch->a.size()){ gs_check(0,"every column with a value is listed"); break; } const JV&q=ch->a[k++]; const JV*cn=q.get("column"); gs_check(cn&&cn->k=='#'&&cn->s==std::to_string(col),"column index in JSON"); if(o.t) gs_check(jsonIs(q.get("old"),o),"old value in JSON"); else gs_check(!q.get("old"),"absent old value is omitted"); if(w.t) gs_check(jsonIs(q.get("new"),w),"new value in JSON"); else gs_check(!q.get("new"),"absent new value is omitted"); gs_check(q.o.size()==1u+(o.t!=0)+(w.t!=0),"no other members"); } gs_check(k==ch->a.size(),"only columns with values are listed"); }
  gs_cover("done"); }
// text of up to 2 (3) characters: ASCII or a 2-byte UTF-8 sequence
static void symText(Bytes&s,const char*id,int maxch){ int n=gs_choice((std::string(id)+".chars").c_str(),maxch+1); for(int i=0;i<n;i++){ unsigned char b[2]; if(gs_choice((std::string(id)+nm(".utf",i)).c_str(),2)){ gs_bytes(b,2,(std::string(id)+nm(".c",i)).c_str()); gs_assume(b[0]>=0xC2&&b[0]<=0xDF&&(b[1]&0xC0)==0x80); s.push_back(b[0]); s.push_back(b[1]); } else { gs_bytes(b,1,(std::string(id)+nm(".c",i)).c_str()); gs_assume(b[0]<0x80); s.push_back(b[0]); } } }
extern "C" void h_json_text(){ OC c; OT t=pkTable("t",2,1); OE e; e.op=OPS[gs_choice("op",3)]; std::vector<OV> r; r.push_back(ovInt(1)); OV v; v.t=T_TEXT; symText(v.s,"text",(int)gs_param("chars",2)); r.push_back(v); if(e.op!=OP_INS) e.o=r; if(e.op!=OP_DEL){ e.w=r; if(e.op==OP_UPD){ e.w[0]=OV(); e.w[1]=ovNull(); } } t.e.push_back(e); c.push_back(t); listAndCheck(c); }
extern "C" void h_json_table(){ OC c; OT t=pkTable("",1,1); Bytes s; symText(s,"name",2); for(unsigned char x:s) gs_assume(x!=0); t.name.assign(s.begin(),s.end()); OE e; e.op=OP_DEL; e.o.push_back(ovInt(5)); t.e.push_back(e); c.push_back(t); listAndCheck(c); }
extern "C" void h_json_blob(){ OC c; OT t=pkTable("t",1,1); OE e; e.op=OP_INS; OV v; v.t=T_BLOB; int n=gs_choice("len",(int)gs_param("blob",4)+1); v.s.resize(n); if(n) gs_bytes(v.s.data(),n,"blob"); e.w.push_back(v); t.e.push_back(e); c.push_back(t); listAndCheck(c); }
extern "C" void h_json_int(){ static const uint64_t E[]={0,9223372036854775807ULL,9223372036854775808ULL,4294967296ULL,18446744073709551615ULL,2147483647ULL,18446744071562067968ULL,1000000000000000000ULL}; OC c; OT t=pkTable("t",2,1); OE e; e.op=OP_INS; int k=gs_choice("kind",10); uint64_t x=k<8?E[k]:k==8?gs_sym("small",10):0-(uint64_t)gs_sym("neg",10); e.w.push_back(ovInt(x)); e.w.push_back(ovNull()); t.e.push_back(e); c.push_back(t); listAndCheck(c); }
extern "C" void h_json_real(){ static const double D[]={0,1,-1,0.1,1.5,123456.789,1e-7,1.23456789012345678e-5,1e22,1e300,5e-324,1.7976931348623157e308,-2.5e-10,0.30000000000000004,1e15+0.3,16777217.0}; OC c; OT t=pkTable("t",1,1); OE e; e.op=OP_INS; int k=gs_choice("which",19); e.w.push_back(k<16?ovReal(dbits(D[k])):ovReal(k==16?0x7ff0000000000000ULL:k==17?0xfff0000000000000ULL:0x7ff8000000000000ULL)); t.e.push_back(e); c.push_back(t); listAndCheck(c,false); }
// structure: several tables and entries, undefined and NULL values
extern "C" void h_json_struct(){ OC c; int nt=gs_choice("tables",3); for(int i=0;i<nt;i++){ OT t=pkTable(i?"b\"":"a",2,1); int ne=gs_choice(nm("entries",i).c_str(),3); for(int k=0;k<ne;k++){ OE e; e.op=OPS[gs_choice(nm("op",i*10+k).c_str(),3)]; int p=gs_choice(nm("shape",i*10+k).c_str(),3); std::vector<OV> o,w; o.push_back(ovInt(k)); w.push_back(e.op==OP_UPD?OV():ovInt(k)); o.push_back(p==0?OV():p==1?ovNull():ovStr(T_TEXT,"")); w.push_back(p==0?OV():p==1?ovStr(T_BLOB,"x"):ovNull()); if(e.op!=OP_INS) e.o=o; if(e.op!=OP_DEL) e.w=w; t.e.push_back(e); } c.push_back(t); } listAndCheck(c,false); }
// long values, many entries
extern "C" void h_json_big(){ int len=BIGLEN[gs_choice("len",12)]; OC c; OT t=pkTable("t",2,1); OE e; e.op=OP_DEL; e.o.push_back(ovInt(1)); e.o.push_back(bigCell("v",len)); t.e.push_back(e); c.push_back(t); listAndCheck(c,false); }
extern "C" void h_json_many(){ int n=(int)gs_param("many",60),kind=gs_choice("kind",2); OC c; for(int i=0;i<n;i++){ if(i==0||kind) c.push_back(pkTable(nm("t",i).c_str(),2,1)); OE e; e.op=OP_INS; e.w.push_back(ovInt(i)); e.w.push_back(i==n/2?ovInt(gs_sym("v",6)):ovStr(T_TEXT,"x")); c.back().e.push_back(e); } listAndCheck(c,false); }
