// Reading arbitrary bytes (C02), decoding the documented format (C03), counting (C19).
#include "h.h"
static void readAndCompare(const Bytes&b){
  const char*f=gs_path("in.diff"); putFile(f,b);
  OC want; bool ok=decode(b.data(),b.size(),want);
  OC got; int rc=libRead(f,got,(int)b.size()+2);
  gs_log("rc",rc); gs_log("ok",ok);
  gs_check(rc!=2,"reader lets only GeoDiffException out");
  gs_check(rc!=3,"existing file opens");
  gs_check(!ok||rc==0,"well-formed changeset is read without error");
  gs_check(ok||rc==1,"malformed changeset is reported as read error");
  if(rc==1) gs_cover("error");
  if(ok&&rc==0){
    std::vector<OE> w,g; std::vector<std::string> wt,gt; for(auto&t:want) for(auto&e:t.e){ w.push_back(e); wt.push_back(t.name); } for(auto&t:got) for(auto&e:t.e){ g.push_back(e); gt.push_back(t.name); }
    gs_log("entries",g.size());
    gs_check(w.size()==g.size(),"number of entries read");
    for(size_t i=0;i<w.size()&&i<g.size();i++){ gs_check(w[i].op==g[i].op,"operation read"); gs_check(wt[i]==gt[i],"table name read"); gs_check(rowEq(w[i].o,g[i].o),"old values read"); gs_check(rowEq(w[i].w,g[i].w),"new values read"); }
    if(g.size()) gs_cover("entry"); }
}
extern "C" void h_reader_any(){ int n=gs_choice("n",(int)gs_param("bytes",7)+1); Bytes b(n); if(n) gs_bytes(b.data(),n,"file"); readAndCompare(b); }
// a valid header of 1..2 columns and the start of an entry, then arbitrary bytes
extern "C" void h_reader_tail(){ OT t; t.name="t"; int nc=1+gs_choice("cols",2); for(int i=0;i<nc;i++) t.pk.push_back(i==0); Bytes b; encHeader(b,t); static const int ops[3]={OP_INS,OP_UPD,OP_DEL}; b.push_back(ops[gs_choice("op",3)]); int n=gs_choice("n",(int)gs_param("tail",12)+1); size_t k=b.size(); b.resize(k+n); if(n) gs_bytes(b.data()+k,n,"file"); readAndCompare(b); }
// a text value whose varint length is arbitrary (1..9 bytes of varint)
extern "C" void h_reader_len(){ OT t; t.name="t"; t.pk.push_back(1); Bytes b; encHeader(b,t); b.push_back(OP_INS); b.push_back(0); b.push_back(gs_choice("blob",2)?T_BLOB:T_TEXT); int m=1+gs_choice("varint",9); size_t k=b.size(); b.resize(k+m); gs_bytes(b.data()+k,m,"varint"); for(int i=0;i<m;i++) gs_assume(i==m-1?(m==9||b[k+i]<128):b[k+i]>=128); int n=gs_choice("n",3); k=b.size(); b.resize(k+n); if(n) gs_bytes(b.data()+k,n,"rest"); readAndCompare(b); }
// a well-formed entry of one or two columns (any value types, arbitrary contents) cut off at any byte
extern "C" void h_reader_cut(){ OC c(1); OT&t=c[0]; t.name="t"; int nc=1+gs_choice("cols",(int)gs_param("cutcols",2)); for(int i=0;i<nc;i++) t.pk.push_back(i==0); int op=OPS[gs_choice("op",nc==1?3:1)]; t.e.push_back(symEntry(nc,op,M_ALL,2)); Bytes b=encode(c); Bytes h; encHeader(h,t); int cut=gs_choice("cut",(int)(b.size()-h.size())+1); b.resize(h.size()+cut); readAndCompare(b); }
// two entries of two tables cut off anywhere (also inside the second header)
extern "C" void h_reader_cut2(){ OC c(2); for(int k=0;k<2;k++){ OT&t=c[k]; t.name=k?"uu":"t"; t.pk.push_back(1); if(k) t.pk.push_back(0); OE e; e.op=k?OP_DEL:OP_INS; for(size_t i=0;i<t.pk.size();i++) (k?e.o:e.w).push_back(symValue(M_INT|M_TEXT|M_NULL,1)); t.e.push_back(e); } Bytes b=encode(c); b.resize(gs_choice("cut",(int)b.size()+1)); readAndCompare(b); }
// a table header whose column count is an arbitrary varint of 1..9 bytes, then key flags, name, and arbitrary bytes
extern "C" void h_reader_header(){ Bytes b; b.push_back('T'); int m=1+gs_choice("varint",9); b.resize(1+m); gs_bytes(b.data()+1,m,"varint"); for(int i=0;i<m;i++) gs_assume(i==m-1?(m==9||b[1+i]<128):b[1+i]>=128); int n=gs_choice("n",4); size_t k=b.size(); b.resize(k+n); if(n) gs_bytes(b.data()+k,n,"rest"); if(gs_choice("entry",2)){ b.push_back(0); b.push_back(OP_DEL); b.push_back(0); b.push_back(T_NULL); } readAndCompare(b); }
