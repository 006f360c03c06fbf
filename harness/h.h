// Shared by all harnesses: an independent encoder/decoder of the documented changeset format, used as oracle.
#pragma once
#include "gs.h"
#include "changeset.h"
#include "changesetreader.h"
#include "changesetwriter.h"
#include "changesetutils.h"
#include "geodiffutils.hpp"
#include "geodiff.h"
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <cstring>
#include <cstdlib>
extern "C" void gs_set_env(const char*,const char*);
typedef std::vector<unsigned char> Bytes;
enum { T_UNDEF=0, T_INT=1, T_REAL=2, T_TEXT=3, T_BLOB=4, T_NULL=5, OP_INS=18, OP_UPD=23, OP_DEL=9 };
struct OV { int t; uint64_t n; Bytes s; OV():t(0),n(0){} };              // value: n holds int or raw double bits
struct OE { int op; std::vector<OV> o,w; };                                // entry: old and new rows
struct OT { std::string name; std::vector<unsigned char> pk; std::vector<OE> e; };  // table section
typedef std::vector<OT> OC;

static inline OV ovInt(uint64_t n){ OV v; v.t=T_INT; v.n=n; return v; }
static inline OV ovReal(uint64_t n){ OV v; v.t=T_REAL; v.n=n; return v; }
static inline OV ovNull(){ OV v; v.t=T_NULL; return v; }
static inline OV ovStr(int t,const std::string&s){ OV v; v.t=t; v.s.assign(s.begin(),s.end()); return v; }
static inline bool sameBytes(const Bytes&a,const Bytes&b){ return a.size()==b.size()&&(a.empty()||memcmp(a.data(),b.data(),a.size())==0); }
static inline bool ovEq(const OV&a,const OV&b){ if(a.t!=b.t) return false; if(a.t==T_INT||a.t==T_REAL) return a.n==b.n; if(a.t==T_TEXT||a.t==T_BLOB) return sameBytes(a.s,b.s); return true; }
// branch-free where possible: 1 iff equal (types are concrete in most harnesses)
static inline bool rowEq(const std::vector<OV>&a,const std::vector<OV>&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!ovEq(a[i],b[i])) return false; return true; }

// ---- encoder (SQLite session changeset format)
static inline void encVarint(Bytes&o,uint64_t v){ unsigned char t[10]; int n=0; do { t[n++]=v&127; v>>=7; } while(v); while(n--) o.push_back(t[n]|(n?128:0)); }
static inline void encU64(Bytes&o,uint64_t v){ for(int i=7;i>=0;i--) o.push_back((unsigned char)(v>>(8*i))); }
static inline void encValue(Bytes&o,const OV&v){ o.push_back(v.t); if(v.t==T_INT||v.t==T_REAL) encU64(o,v.n); else if(v.t==T_TEXT||v.t==T_BLOB){ encVarint(o,v.s.size()); o.insert(o.end(),v.s.begin(),v.s.end()); } }
static inline void encHeader(Bytes&o,const OT&t){ o.push_back('T'); encVarint(o,t.pk.size()); for(size_t i=0;i<t.pk.size();i++) o.push_back(t.pk[i]); for(char c:t.name) o.push_back(c); o.push_back(0); }
static inline void encEntry(Bytes&o,const OE&e){ o.push_back(e.op); o.push_back(0); if(e.op!=OP_INS) for(auto&v:e.o) encValue(o,v); if(e.op!=OP_DEL) for(auto&v:e.w) encValue(o,v); }
static inline Bytes encode(const OC&c){ Bytes o; for(auto&t:c){ encHeader(o,t); for(auto&e:t.e) encEntry(o,e); } return o; }

// ---- decoder: false if the bytes are not a well-formed changeset. Entries read before the error stay in c.
struct Dec { const unsigned char*p; size_t n,i; bool bad; Dec(const unsigned char*P,size_t N):p(P),n(N),i(0),bad(false){} 
  int byte(){ if(i>=n){ bad=true; return 0; } return p[i++]; }
  uint64_t varint(){ uint64_t v=0; for(int k=0;k<9;k++){ int b=byte(); if(bad) return 0; if(k==8) return (v<<8)|b; v=(v<<7)|(b&127); if(!(b&128)) return v; } return v; } };
static inline bool decRow(Dec&d,size_t nc,std::vector<OV>&r){ for(size_t i=0;i<nc;i++){ OV v; v.t=d.byte(); if(d.bad) return false; switch(v.t){ case T_INT: case T_REAL: for(int k=0;k<8;k++){ v.n=(v.n<<8)|d.byte(); if(d.bad) return false; } break; case T_TEXT: case T_BLOB: { uint64_t len=d.varint(); if(d.bad||len>d.n-d.i) return false; len=gs_conc(len); v.s.assign(d.p+d.i,d.p+d.i+len); d.i+=len; break; } case T_NULL: case T_UNDEF: break; default: return false; } r.push_back(v); } return true; }
static inline bool decode(const unsigned char*p,size_t n,OC&c){ Dec d(p,n); bool have=false; size_t nc=0; while(d.i<n){ int t=d.byte(); if(t=='T'){ OT T; uint64_t k=d.varint(); if(d.bad||k>65536||k>n) return false; nc=gs_conc(k); for(size_t i=0;i<nc;i++){ T.pk.push_back(d.byte()); if(d.bad) return false; } for(;;){ int ch=d.byte(); if(d.bad) return false; if(!ch) break; T.name.push_back((char)ch); } c.push_back(T); have=true; }
    else if(t==OP_INS||t==OP_UPD||t==OP_DEL){ if(!have||nc==0) return false; d.byte(); if(d.bad) return false; OE e; e.op=t==OP_INS?OP_INS:t==OP_UPD?OP_UPD:OP_DEL; if(e.op!=OP_INS&&!decRow(d,nc,e.o)) return false; if(e.op!=OP_DEL&&!decRow(d,nc,e.w)) return false; c.back().e.push_back(e); }
    else return false; } return true; }
static inline bool decodeFile(const char*path,OC&c){ long n=gs_file_size(path); if(n<0) return false; Bytes b(n+1); gs_get_file(path,b.data(),n); return decode(b.data(),n,c); }
static inline Bytes readFile(const char*path){ long n=gs_file_size(path); Bytes b; if(n<=0) return b; b.resize(n); gs_get_file(path,b.data(),n); return b; }
static inline void putFile(const char*path,const Bytes&b){ gs_put_file(path,b.data(),b.size()); }
static inline bool fileIs(const char*path,const Bytes&b){ long n=gs_file_size(path); if(n!=(long)b.size()) return false; Bytes c=readFile(path); return sameBytes(b,c); }

// ---- conversion between the library's values and the oracle's
static inline uint64_t dbits(double d){ uint64_t x; memcpy(&x,&d,8); return x; }
static inline double bitsd(uint64_t x){ double d; memcpy(&d,&x,8); return d; }
static inline OV fromValue(const Value&v){ OV o; o.t=v.type(); if(o.t==T_INT) o.n=(uint64_t)v.getInt(); else if(o.t==T_REAL) o.n=dbits(v.getDouble()); else if(o.t==T_TEXT||o.t==T_BLOB){ const std::string&s=v.getString(); o.s.assign(s.begin(),s.end()); } return o; }
static inline Value toValue(const OV&o){ Value v; switch(o.t){ case T_INT: v.setInt((int64_t)o.n); break; case T_REAL: v.setDouble(bitsd(o.n)); break; case T_TEXT: v.setString(Value::TypeText,(const char*)(o.s.empty()?(const unsigned char*)"":o.s.data()),o.s.size()); break; case T_BLOB: v.setString(Value::TypeBlob,(const char*)(o.s.empty()?(const unsigned char*)"":o.s.data()),o.s.size()); break; case T_NULL: v.setNull(); break; default: v.setUndefined(); } return v; }
static inline std::vector<OV> fromRow(const std::vector<Value>&r){ std::vector<OV> o; for(auto&v:r) o.push_back(fromValue(v)); return o; }
static inline std::vector<Value> toRow(const std::vector<OV>&r){ std::vector<Value> o; for(auto&v:r) o.push_back(toValue(v)); return o; }

// ---- symbolic structure
static inline std::string nm(const char*p,int i){ std::string s(p); s+=(char)('0'+i/10%10); s+=(char)('0'+i%10); return s; }
static int gsCtr;
// an arbitrary value of one of the types in mask (bit t), strings up to maxlen bytes
static inline OV symValue(unsigned mask,int maxlen,const char*tag="v"){ int ts[6],n=0; for(int t=0;t<6;t++) if(mask>>t&1) ts[n++]=t; OV v; std::string id=nm(tag,gsCtr++); v.t=n>1?ts[gs_choice((id+".type").c_str(),n)]:ts[0]; if(v.t==T_INT||v.t==T_REAL) v.n=gs_sym((id+".n").c_str(),64); else if(v.t==T_TEXT||v.t==T_BLOB){ int len=maxlen>0?gs_choice((id+".len").c_str(),maxlen+1):0; v.s.resize(len); if(len) gs_bytes(v.s.data(),len,(id+".s").c_str()); } return v; }
enum { M_UNDEF=1, M_INT=2, M_REAL=4, M_TEXT=8, M_BLOB=16, M_NULL=32, M_ANY=62, M_ALL=63 };
// calls f; 0: ok, 1: GeoDiffException, 2: any other exception
template<class F> static inline int guarded(F f){ try { f(); return 0; } catch(GeoDiffException&){ return 1; } catch(...){ return 2; } }
static inline void logFile(const char*n,const char*path){ long k=gs_file_size(path); gs_log((std::string(n)+".size").c_str(),(uint64_t)k); if(k>0){ Bytes b=readFile(path); gs_log_bytes(n,b.data(),b.size()); } }
// ---- reading with the library under test
static inline int libRead(const char*path,OC&c,int maxEntries=1000){ ChangesetReader r; if(!r.open(path)) return 3; return guarded([&]{ ChangesetEntry e; ChangesetTable*last=nullptr; int k=0; (void)last; while(r.nextEntry(e)){ if(++k>maxEntries){ gs_check(0,"reader keeps returning entries"); gs_end_path("runaway"); } OT t; t.name=e.table->name; for(bool b:e.table->primaryKeys) t.pk.push_back(b); if(c.empty()||c.back().name!=t.name||!sameBytes(c.back().pk,t.pk)) c.push_back(t); OE o; o.op=e.op; if(o.op!=OP_INS) o.o=fromRow(e.oldValues); if(o.op!=OP_DEL) o.w=fromRow(e.newValues); c.back().e.push_back(o); } }); }
// ---- writing with the library under test: 0 ok, 1/2 exception, 3 cannot open
static inline ChangesetTable toTable(const OT&t){ ChangesetTable k; k.name=t.name; for(unsigned char b:t.pk) k.primaryKeys.push_back(b!=0); return k; }
static inline ChangesetEntry toEntry(const OE&e){ ChangesetEntry x; x.op=e.op==OP_INS?ChangesetEntry::OpInsert:e.op==OP_DEL?ChangesetEntry::OpDelete:ChangesetEntry::OpUpdate; if(e.op!=OP_INS) x.oldValues=toRow(e.o); if(e.op!=OP_DEL) x.newValues=toRow(e.w); return x; }
static inline int libWrite(const char*path,const OC&c){ ChangesetWriter w; if(!w.open(path)) return 3; return guarded([&]{ for(auto&t:c){ w.beginTable(toTable(t)); for(auto&e:t.e) w.writeEntry(toEntry(e)); } w.close(); }); }
// flattened view: entries with their table
struct FE { const OT*t; const OE*e; };
static inline std::vector<FE> flat(const OC&c){ std::vector<FE> r; for(auto&t:c) for(auto&e:t.e){ FE x; x.t=&t; x.e=&e; r.push_back(x); } return r; }
static inline bool pkEq(const OT&a,const OT&b){ if(a.pk.size()!=b.pk.size()) return false; bool d=false; for(size_t i=0;i<a.pk.size();i++) d|=(a.pk[i]!=0)!=(b.pk[i]!=0); return !d; }
static inline void checkSame(const OC&want,const OC&got,const char*tag){ std::string T(tag); std::vector<FE> w=flat(want),g=flat(got); gs_check(w.size()==g.size(),(T+"number of entries").c_str()); for(size_t i=0;i<w.size()&&i<g.size();i++){ gs_check(w[i].t->name==g[i].t->name,(T+"table name").c_str()); gs_check(pkEq(*w[i].t,*g[i].t),(T+"primary key flags").c_str()); gs_check(w[i].e->op==g[i].e->op,(T+"operation").c_str()); gs_check(rowEq(w[i].e->o,g[i].e->o),(T+"old values").c_str()); gs_check(rowEq(w[i].e->w,g[i].e->w),(T+"new values").c_str()); } }
static inline OE symEntry(int nc,int op,unsigned mask,int maxlen){ OE e; e.op=op; if(op!=OP_INS) for(int i=0;i<nc;i++) e.o.push_back(symValue(mask,maxlen,"o")); if(op!=OP_DEL) for(int i=0;i<nc;i++) e.w.push_back(symValue(mask,maxlen,"w")); return e; }
static const int OPS[3]={OP_INS,OP_UPD,OP_DEL};
