// Value semantics (C05): equality, copying, assignment, storage.
#include "h.h"
static double normal(OV&v){ return bitsd(v.n); }
static bool valEq(const OV&a,const OV&b){ if(a.t!=b.t) return false; if(a.t==T_REAL) return bitsd(a.n)==bitsd(b.n); return ovEq(a,b); }
static void noNan(const OV&v){ if(v.t==T_REAL) gs_assume((v.n&0x7ff0000000000000ULL)!=0x7ff0000000000000ULL||(v.n&0xfffffffffffffULL)==0); }
static bool holds(const Value&v,const OV&o){ OV x=fromValue(v); return ovEq(x,o); }
extern "C" void h_value_eq(){ OV a=symValue(M_ALL,2,"a"),b=symValue(M_ALL,2,"b"); noNan(a); noNan(b); Value x=toValue(a),y=toValue(b); bool want=valEq(a,b); bool got=x==y; gs_log("eq",got); gs_check(got==want,"equal exactly when type and content are equal"); gs_check((y==x)==want,"equality is symmetric"); gs_check((x!=y)!=want,"inequality is the negation"); gs_check(x==x&&y==y,"a value equals itself"); gs_check(holds(x,a)&&holds(y,b),"accessors return what was set"); gs_cover("done"); }
// histories over three values, against a plain model
extern "C" void h_value_ops(){ uint64_t base=gs_heap_live(); int steps=(int)gs_param("steps",3); { OV m[3]; Value v[3]; for(int s=0;s<steps;s++){ int i=s==0?0:gs_choice(nm("dst",s).c_str(),2+(s>1)); int k=gs_choice(nm("what",s).c_str(),8); switch(k){ case 0: m[i]=symValue(M_INT,0,"i"); v[i].setInt((int64_t)m[i].n); break; case 1: m[i]=symValue(M_REAL,0,"r"); noNan(m[i]); v[i].setDouble(bitsd(m[i].n)); break; case 2: case 3: m[i]=symValue(k==2?M_TEXT:M_BLOB,2,"s"); v[i].setString(k==2?Value::TypeText:Value::TypeBlob,m[i].s.empty()?"":(const char*)m[i].s.data(),m[i].s.size()); break; case 4: m[i]=ovNull(); v[i].setNull(); break; case 5: m[i]=OV(); v[i].setUndefined(); break; case 6: { int j=gs_choice(nm("src",s).c_str(),3); v[i]=v[j]; m[i]=m[j]; break; } case 7: { int j=gs_choice(nm("src",s).c_str(),3); { Value t(v[j]); gs_check(holds(t,m[j]),"copy has the same content"); Value u; u=t; t.setInt(1); gs_check(holds(u,m[j]),"assigned copy is independent"); v[i]=u; u.setNull(); } m[i]=m[j]; break; } }
      for(int q=0;q<3;q++) gs_check(holds(v[q],m[q]),"values keep their content"); } }
  // vectors copy, move and grow values
  { std::vector<Value> a; OV o=symValue(M_INT|M_TEXT|M_NULL,1,"vec"); for(int i=0;i<3;i++) a.push_back(toValue(o)); std::vector<Value> b=a; a.erase(a.begin()); for(auto&x:b) gs_check(holds(x,o),"vector copy keeps content"); for(auto&x:a) gs_check(holds(x,o),"vector keeps content"); }
  gs_check(gs_heap_live()==base,"no storage is leaked"); gs_cover("done"); }
// changeset entries are reused while reading: nothing leaks over a whole read
extern "C" void h_value_read(){ OC c; OT t; t.name="t"; t.pk.push_back(1); t.pk.push_back(0); int n=1+gs_choice("n",2); for(int i=0;i<n;i++) t.e.push_back(symEntry(2,OPS[gs_choice(nm("op",i).c_str(),3)],M_INT|M_TEXT|M_NULL,1)); c.push_back(t); const char*f=gs_path("a"); putFile(f,encode(c)); { ChangesetReader w; w.open(f); } uint64_t base=gs_heap_live(); { ChangesetReader r; r.open(f); ChangesetEntry e; while(r.nextEntry(e)){ ChangesetEntry k=e; e=k; ChangesetEntry l; l=k; } } gs_check(gs_heap_live()==base,"reading leaks nothing"); gs_cover("done"); }
