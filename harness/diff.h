// The exact difference of two tables.
#pragma once
#include "sq.h"
// expected entries of one table
static OT expect(const Tab&b,const Tab&m){ OT t; t.name=b.name; t.pk=b.pk; for(auto&r:m.rows) if(findKey(b,r)<0){ OE e; e.op=OP_INS; e.w=r; t.e.push_back(e); } for(auto&r:b.rows){ int k=findKey(m,r); if(k<0){ OE e; e.op=OP_DEL; e.o=r; t.e.push_back(e); } else { OE e; e.op=OP_UPD; e.o.resize(r.size()); e.w.resize(r.size()); bool any=false; for(size_t c=0;c<r.size();c++){ bool diff=!ovEq(r[c],m.rows[k][c]); if(t.pk[c]||diff) e.o[c]=r[c]; if(diff){ e.w[c]=m.rows[k][c]; any=true; } } if(any) t.e.push_back(e); } } return t; }
static bool entEq(const OE&a,const OE&b){ return a.op==b.op&&rowEq(a.o,b.o)&&rowEq(a.w,b.w); }
static bool sameEntries(const std::vector<OE>&a,const std::vector<OE>&b){ if(a.size()!=b.size()) return false; std::vector<bool> used(b.size(),false); for(auto&e:a){ bool ok=false; for(size_t i=0;i<b.size()&&!ok;i++) if(!used[i]&&entEq(e,b[i])){ used[i]=true; ok=true; } if(!ok) return false; } return true; }
