// Inverting (C04), counting (C19), summary (C23), inputs untouched (C21).
#include "gen.h"
#include "json.h"
typedef std::vector<OV> Row;
static OE invE(const OT&t,const OE&e){ OE r; if(e.op==OP_INS){ r.op=OP_DEL; r.o=e.w; } else if(e.op==OP_DEL){ r.op=OP_INS; r.w=e.o; } else { r.op=OP_UPD; for(size_t i=0;i<t.pk.size();i++){ if(t.pk[i]&&e.w[i].t==T_UNDEF){ r.o.push_back(e.o[i]); r.w.push_back(OV()); } else { r.o.push_back(e.w[i]); r.w.push_back(e.o[i]); } } } return r; }
static void all(const OC&c){ const char*f=gs_path("in.diff"),*g=gs_path("inv.diff"),*h=gs_path("inv2.diff"),*j=gs_path("s.json"); Bytes b=encode(c); putFile(f,b); std::vector<FE> fl=flat(c);
  int n=GEODIFF_changesCount(f); gs_log("count",n); gs_check(n==(int)fl.size(),"C19 number of changes"); int hc=GEODIFF_hasChanges(f); gs_check(hc==(fl.empty()?0:1),"C19 has changes");
  int rc=GEODIFF_invertChangeset(f,g); gs_log("inv",rc); gs_check(rc==GEODIFF_SUCCESS,"C04 inverting succeeds"); gs_check(fileIs(f,b),"C21 input changeset unchanged");
  if(rc==GEODIFF_SUCCESS){ logFile("inverse",g); OC want; for(auto&t:c){ OT x; x.name=t.name; x.pk=t.pk; for(auto&e:t.e) x.e.push_back(invE(t,e)); want.push_back(x); } OC got; Bytes gb=readFile(g); bool ok=decode(gb.data(),gb.size(),got); gs_check(ok,"C04 inverse is a well-formed changeset"); if(ok) checkSame(want,got,"C04 inverse: ");
    rc=GEODIFF_invertChangeset(g,h); gs_check(rc==GEODIFF_SUCCESS,"C04 inverting again succeeds"); gs_check(fileIs(g,gb),"C21 input changeset unchanged"); OC twice; Bytes hb=readFile(h); ok=decode(hb.data(),hb.size(),twice); gs_check(ok,"C04 double inverse is a well-formed changeset"); if(ok) checkSame(c,twice,"C04 double inverse: "); }
  rc=GEODIFF_listChangesSummary(f,j); gs_check(rc==GEODIFF_SUCCESS,"C23 summary succeeds"); if(rc==GEODIFF_SUCCESS){ Bytes js=readFile(j); JV v; bool ok=jsonParse(js,v); gs_check(ok,"C23 summary is valid JSON"); const JV*l=ok?v.get("geodiff_summary"):nullptr; gs_check(l&&l->k=='[',"C23 summary has the list"); if(l){ std::map<std::string,int> want[3]; for(auto&x:fl){ for(int k=0;k<3;k++) want[k][x.t->name]+=0; want[x.e->op==OP_INS?0:x.e->op==OP_UPD?1:2][x.t->name]++; } gs_check(l->a.size()==want[0].size(),"C23 number of tables in summary"); std::map<std::string,int> seen; for(auto&x:l->a){ const JV*tn=x.get("table"); gs_check(tn&&tn->k=='$',"C23 table name in summary"); if(!tn) continue; gs_check(want[0].count(tn->s)&&!seen[tn->s]++,"C23 each changed table appears once"); static const char*ks[3]={"insert","update","delete"}; for(int k=0;k<3;k++){ const JV*q=x.get(ks[k]); gs_check(q&&q->k=='#'&&q->s==std::to_string(want[k][tn->s]),"C23 number of operations in summary"); } } } }
  gs_check(fileIs(f,b),"C21 input changeset unchanged"); gs_cover("done"); }
// one entry: all operations, key positions and change patterns
extern "C" void h_inv_one(){ int nc=1+gs_choice("cols",3); int pk=1+gs_choice("pk",(1<<nc)-1); OC c; c.push_back(pkTable("t",nc,pk)); int op=OPS[gs_choice("op",3)]; c[0].e.push_back(wfEntry(c[0],op,nc<3||op!=OP_UPD?M_INT|M_TEXT|M_NULL:M_INT|M_NULL,1,"e")); all(c); }
extern "C" void h_inv_types(){ OC c; c.push_back(pkTable("t",2,1+gs_choice("pk",2))); c[0].e.push_back(wfEntry(c[0],OPS[gs_choice("op",3)],M_ANY,2,"e")); all(c); }
// sequences of tables and entries, the same name and different keys included
extern "C" void h_inv_multi(){ OC c; int nt=gs_choice("tables",(int)gs_param("tables",2)+1); static const char*N[]={"a","b",""}; for(int i=0;i<nt;i++){ int nc=1+gs_choice(nm("cols",i).c_str(),2); OT t=pkTable(N[gs_choice(nm("name",i).c_str(),i==1?3:2)],nc,nc==1?1:1+gs_choice(nm("pk",i).c_str(),3)); int ne=gs_choice(nm("entries",i).c_str(),i==0?3:2); for(int k=0;k<ne;k++) t.e.push_back(wfEntry(t,OPS[gs_choice(nm("op",i*10+k).c_str(),3)],M_INT,0,nm("e",i*10+k),false)); c.push_back(t); } all(c); }
// counting arbitrary bytes after an optional valid beginning
extern "C" void h_count_any(){ Bytes b; int start=gs_choice("start",4); if(start){ OT t=pkTable("t",1,1); encHeader(b,t); if(start>1){ OE e; e.op=start==2?OP_DEL:OP_UPD; e.o.push_back(ovInt(1)); if(e.op==OP_UPD) e.w.push_back(OV()); encEntry(b,e); } } int n=gs_choice("n",(int)gs_param("bytes",5)+1); size_t k=b.size(); b.resize(k+n); if(n) gs_bytes(b.data()+k,n,"file"); const char*f=gs_path("in.diff"); putFile(f,b); OC c; bool ok=decode(b.data(),b.size(),c); int m=flat(c).size(); int cnt=GEODIFF_changesCount(f),hc=GEODIFF_hasChanges(f); gs_log("count",(uint32_t)cnt); gs_log("has",(uint32_t)hc); gs_log("ok",ok); gs_check(cnt==(ok?m:-1),"C19 number of changes of arbitrary file"); gs_check(hc==(m?1:ok?0:-1),"C19 has changes for arbitrary file");
  const char*g=gs_path("o"); int rc=GEODIFF_invertChangeset(f,g); gs_check((rc==GEODIFF_SUCCESS)==ok,"C02,C18 inverting reports malformed input"); rc=GEODIFF_listChanges(f,g); gs_check((rc==GEODIFF_SUCCESS)==ok,"C02,C18 listing reports malformed input"); rc=GEODIFF_listChangesSummary(f,g); gs_check((rc==GEODIFF_SUCCESS)==ok,"C02,C18 summary reports malformed input"); gs_check(fileIs(f,b),"C21 input changeset unchanged"); if(ok&&m) gs_cover("entries"); if(!ok) gs_cover("error"); }
// arbitrary table names (every byte symbolic; JSON's special characters are left to h_json_table)
static std::string symName(const char*id,int len){ std::string s(len,0); gs_bytes(&s[0],len,id); bool bad=false; for(char ch:s){ unsigned char u=(unsigned char)ch; bad|=(u<0x20)|(u=='"')|(u=='\\')|(u>=0x7f); } gs_assume(!bad); return s; }
extern "C" void h_inv_names(){ static const int L[]={1,6,13,17,3,9,24}; int nl=(int)gs_param("namelens",4); OC c; int nt=1+gs_choice("tables",2); for(int i=0;i<nt;i++){ OT t=pkTable("",2,1+gs_choice(nm("pk",i).c_str(),2)); t.name=symName(nm("name",i).c_str(),L[gs_choice(nm("len",i).c_str(),nl)]); t.e.push_back(wfEntry(t,i?OP_INS:OPS[gs_choice("op",3)],M_INT,0,nm("e",i),false)); c.push_back(t); } all(c); }
// keys of every type, and tables with many columns
extern "C" void h_inv_keys(){ OC c; c.push_back(pkTable("t",2,1+gs_choice("pk",3))); c[0].e.push_back(wfEntry(c[0],OPS[gs_choice("op",3)],M_INT|M_NULL,1,"e",true,M_TEXT|M_BLOB|M_REAL)); all(c); }
extern "C" void h_inv_wide(){ static const int C[]={1,7,8,31,32,63,64,69}; OC c(1); OT&t=c[0]; t.name="t"; int k=C[gs_choice("key",8)]; for(int i=0;i<70;i++) t.pk.push_back(i==k||i==0); OE e; e.op=OPS[gs_choice("op",3)]; int ch=C[gs_choice("changed",8)]; for(int i=0;i<70;i++){ bool x=e.op!=OP_UPD||i==ch; OV o=x||t.pk[i]?ovInt(gs_sym(nm("o",i).c_str(),64)):OV(),w=x?ovInt(gs_sym(nm("w",i).c_str(),64)):OV(); if(e.op!=OP_INS) e.o.push_back(o); if(e.op!=OP_DEL) e.w.push_back(w); } c[0].e.push_back(e); all(c); }
// many entries and tables, long values
extern "C" void h_inv_many(){ int n=(int)gs_param("many",60),kind=gs_choice("kind",3),at=gs_choice("at",3)*(n-1)/2; OC c; for(int i=0;i<n;i++){ if(i==0||kind==1||(kind==2&&i%7==0)) c.push_back(pkTable(nm("t",kind==2?i%3:i).c_str(),2,1)); if(i==at) c.back().e.push_back(wfEntry(c.back(),OPS[gs_choice("op",3)],M_INT|M_NULL,0,"e",false)); else { OE e; e.op=OPS[i%3]; Row r; r.push_back(ovInt(i)); r.push_back(ovInt(100+i)); if(e.op!=OP_INS) e.o=r; if(e.op!=OP_DEL){ e.w=r; if(e.op==OP_UPD){ e.w[0]=OV(); e.w[1]=ovNull(); } } c.back().e.push_back(e); } } all(c); }
extern "C" void h_inv_big(){ int len=BIGLEN[gs_choice("len",12)]; OC c(1,pkTable("t",2,1)); OE e; e.op=OPS[gs_choice("op",3)]; Row r,q; r.push_back(ovInt(1)); r.push_back(bigCell("v",len)); q=r; q[1]=bigOther(r[1],"other"); if(e.op!=OP_INS) e.o=r; if(e.op!=OP_DEL) e.w=q; if(e.op==OP_UPD) e.w[0]=OV(); c[0].e.push_back(e); all(c); }
// numbers of entries around the limits of narrow counters
extern "C" void h_inv_counts(){ static const int N[]={127,128,255,256,257,512,32768,65536}; int n=N[gs_choice("number",(int)gs_param("counts",6))],kind=gs_choice("op",3); OC c(1,pkTable("t",2,1)); for(int i=0;i<n;i++){ OE e; e.op=OPS[kind]; OV k=ovInt(i),v=i==n/2?symValue(M_INT|M_NULL,0,"v"):ovInt(7); Row a; a.push_back(k); a.push_back(v); Row b(2); b[1]=ovInt(9); if(e.op==OP_INS) e.w=a; else { e.o=a; if(e.op==OP_UPD) e.w=b; } c[0].e.push_back(e); } all(c); }
