// Writer and reader (C01 round trip, C03 exact format).
#include "h.h"
static void roundtrip(const OC&c,bool log=true){
  const char*f=gs_path("out.diff"); int rc=libWrite(f,c); gs_check(rc==0,"C01,C03 writing succeeds"); if(rc) return;
  Bytes want=encode(c); gs_check(fileIs(f,want),"C03 bytes written follow the format"); if(log) logFile("file",f);
  OC got; int r=libRead(f,got); gs_check(r==0,"C01 what was written is read without error"); if(r) return; checkSame(c,got,"C01 round trip: ");
  // a stream that follows the format decodes to the values it encodes
  const char*g=gs_path("in.diff"); putFile(g,want); OC got2; r=libRead(g,got2); gs_check(r==0,"C03 well-formed stream is read without error"); if(r) return; checkSame(c,got2,"C03 decoded: "); gs_cover("done"); }
static OT symTable(int nc,const char*id){ OT t; int k=gs_choice((std::string(id)+".name").c_str(),3); if(k==1) t.name="simple"; else if(k==2){ char b[2]; gs_bytes(b,2,(std::string(id)+".nm").c_str()); gs_assume(b[0]!=0&&b[1]!=0); t.name.assign(b,2); } t.pk.resize(nc); for(int i=0;i<nc;i++) t.pk[i]=gs_bool((std::string(id)+nm(".pk",i)).c_str()); return t; }
// one entry, every operation and every combination of value types
extern "C" void h_codec_one(){ int nc=1+gs_choice("cols",2); int op=OPS[gs_choice("op",3)]; OC c; c.push_back(symTable(nc,"t")); bool wide=nc==2&&op==OP_UPD; c[0].e.push_back(symEntry(nc,op,wide?(M_UNDEF|M_INT|M_TEXT|M_NULL):M_ALL,wide?1:2)); roundtrip(c); }
// several tables (also the same name twice, or without entries) and entries
extern "C" void h_codec_multi(){ OC c; int nt=1+gs_choice("tables",(int)gs_param("tables",2)); for(int i=0;i<nt;i++){ OT t; t.name=gs_choice(nm("name",i).c_str(),2)?"a":"b"; int nc=1+gs_choice(nm("cols",i).c_str(),2); int pkm=i==1?1+gs_choice("pk",2):1; for(int j=0;j<nc;j++) t.pk.push_back(pkm>>j&1); int ne=gs_choice(nm("entries",i).c_str(),3); for(int j=0;j<ne;j++) t.e.push_back(symEntry(nc,OPS[gs_choice(nm("op",10*i+j).c_str(),3)],nc==1&&j==0&&i==0?M_INT|M_TEXT:M_INT,1)); c.push_back(t); } roundtrip(c); }
// long strings: lengths around every varint boundary; content arbitrary at both ends
extern "C" void h_codec_len(){ static const int L[]={0,1,3,126,127,128,129,255,256,300,8191,16383,16384,16385,40000,65535,65536,70001}; int n=L[gs_choice("len",18)]; OT t; t.name="t"; t.pk.push_back(1); t.pk.push_back(0); OE e; e.op=OP_INS; OV a; a.t=gs_choice("blob",2)?T_BLOB:T_TEXT; a.s.assign(n,'x'); if(n){ gs_bytes(a.s.data(),n<2?n:2,"head"); if(n>=4) gs_bytes(&a.s[n-2],2,"tail"); } OV b; b.t=T_INT; b.n=gs_u64("after"); e.w.push_back(a); e.w.push_back(b); t.e.push_back(e); t.e.push_back(e); OC c; c.push_back(t); roundtrip(c,n<400); }
// wide tables and long table names
extern "C" void h_codec_wide(){ static const int N[]={5,126,127,128,129,200}; int n=N[gs_choice("cols",6)]; OT t; t.name.assign(N[gs_choice("name",6)],'n'); for(int i=0;i<n;i++) t.pk.push_back(i<3||i>n-3?gs_bool(nm("pk",i%100).c_str()):0); OE e; e.op=OPS[gs_choice("op",3)]; for(int i=0;i<n;i++){ OV v; v.t=i%7==3?T_NULL:T_INT; if(v.t==T_INT) v.n=i==n-1?gs_u64("last"):i; if(e.op!=OP_INS) e.o.push_back(v); if(e.op!=OP_DEL) e.w.push_back(v); } t.e.push_back(e); OC c; c.push_back(t); roundtrip(c,false); }
// two long values at once, with text first
extern "C" void h_codec_two(){ static const int L[]={0,127,128,200}; OT t; t.name="t"; t.pk.push_back(1); t.pk.push_back(0); t.pk.push_back(0); OE e; e.op=OP_UPD; for(int k=0;k<2;k++) for(int i=0;i<3;i++){ OV v; if(i==0){ v.t=k?T_UNDEF:T_INT; v.n=7; } else { v.t=i==1?T_TEXT:T_BLOB; int n=L[gs_choice(nm("len",k*2+i).c_str(),4)]; v.s.assign(n,(unsigned char)('a'+k*2+i)); if(n) gs_bytes(&v.s[n-1],1,nm("c",k*2+i).c_str()); } (k?e.w:e.o).push_back(v); } t.e.push_back(e); OC c; c.push_back(t); roundtrip(c,false); }
// many entries and many tables
extern "C" void h_codec_many(){ int n=(int)gs_param("many",50),kind=gs_choice("kind",2),at=gs_choice("at",3); OC c; for(int i=0;i<n;i++){ if(i==0||kind){ OT t; t.name=nm("table",i); t.pk.push_back(1); t.pk.push_back(0); c.push_back(t); } OE e; e.op=OPS[i%3]; for(int k=0;k<2;k++){ OV v=ovInt(1000*k+i); if(k&&i==at*(n-1)/2) v=symValue(M_INT|M_TEXT|M_NULL,2,"v"); if(e.op!=OP_INS) e.o.push_back(v); if(e.op!=OP_DEL) e.w.push_back(v); } c.back().e.push_back(e); } roundtrip(c,false); }
