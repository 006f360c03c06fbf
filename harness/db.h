// Oracle of database content: rows by primary key, strict application of changesets.
#pragma once
#include "gen.h"
typedef std::vector<OV> Row; struct Tab { std::string name; std::vector<unsigned char> pk; std::vector<Row> rows; }; typedef std::vector<Tab> Db;
static inline bool keyEq(const std::vector<unsigned char>&pk,const Row&a,const Row&b){ for(size_t i=0;i<pk.size();i++) if(pk[i]&&!ovEq(a[i],b[i])) return false; return true; }
static inline int findKey(const Tab&t,const Row&k){ for(size_t i=0;i<t.rows.size();i++) if(keyEq(t.pk,t.rows[i],k)) return (int)i; return -1; }
static inline bool recordedMatch(const Row&row,const Row&old){ for(size_t i=0;i<row.size();i++) if(old[i].t!=T_UNDEF&&!ovEq(row[i],old[i])) return false; return true; }
// false: conflict (nothing of this entry applied)
static inline bool applyEntry(Tab&t,const OE&e){ if(e.op==OP_INS){ if(findKey(t,e.w)>=0) return false; t.rows.push_back(e.w); return true; } int i=findKey(t,e.o); if(i<0||!recordedMatch(t.rows[i],e.o)) return false; if(e.op==OP_DEL){ t.rows.erase(t.rows.begin()+i); return true; } Row n=t.rows[i]; for(size_t c=0;c<e.w.size();c++) if(e.w[c].t!=T_UNDEF) n[c]=e.w[c]; for(size_t k=0;k<t.rows.size();k++) if((int)k!=i&&keyEq(t.pk,t.rows[k],n)) return false; t.rows[i]=n; return true; }
static inline Tab* findTab(Db&d,const std::string&n){ for(auto&t:d) if(t.name==n) return &t; return nullptr; }
static inline bool applyAll(Db&d,const OC&c){ for(auto&t:c){ Tab*x=findTab(d,t.name); for(auto&e:t.e) if(!x||!applyEntry(*x,e)) return false; } return true; }
static inline bool hasRow(const Tab&t,const Row&r){ for(auto&x:t.rows) if(rowEq(x,r)) return true; return false; }
static inline bool sameRows(const Tab&a,const Tab&b){ if(a.rows.size()!=b.rows.size()) return false; for(auto&r:b.rows) if(!hasRow(a,r)) return false; return true; }
