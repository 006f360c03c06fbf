// Symbolic changesets with arbitrary structure.
#pragma once
#include "h.h"
// well-formed entry: updates carry the key in old values; other columns are both present or both undefined
static inline OE wfEntry(const OT&t,int op,unsigned mask,int maxlen,const std::string&id,bool keyChange=true,unsigned kmask=M_INT){ OE e; e.op=op; int nc=t.pk.size();
  if(op!=OP_UPD){ std::vector<OV>&r=op==OP_INS?e.w:e.o; for(int i=0;i<nc;i++) r.push_back(symValue(t.pk[i]?kmask:mask,maxlen,id.c_str())); return e; }
  e.o.resize(nc); e.w.resize(nc); for(int i=0;i<nc;i++){ if(t.pk[i]){ e.o[i]=symValue(kmask,maxlen,id.c_str()); if(keyChange&&gs_choice((id+nm(".key",i)).c_str(),2)) e.w[i]=symValue(kmask,maxlen,id.c_str()); } else if(gs_choice((id+nm(".chg",i)).c_str(),2)){ e.o[i]=symValue(mask,maxlen,id.c_str()); e.w[i]=symValue(mask,maxlen,id.c_str()); } } return e; }
static inline OT pkTable(const char*name,int nc,int pkmask){ OT t; t.name=name; for(int i=0;i<nc;i++) t.pk.push_back(pkmask>>i&1); return t; }
// long texts and blobs: concrete filling, one byte symbolic (first, middle or last)
static const int BIGLEN[]={255,256,999,1000,1024,4096,5000,16384,32768,65535,65536,70001};
static inline OV bigCell(const char *tag, int len) { OV v; std::string id = nm(tag, gsCtr++); int w = gs_choice((id + ".at").c_str(), 3); v.t = w == 1 ? T_BLOB : T_TEXT; for (int i = 0; i < len; i++) v.s.push_back((unsigned char)('a' + i % 23)); if (len) { v.s[w == 0 ? 0 : w == 1 ? len / 2 : len - 1] = (unsigned char)('a' + gs_sym((id + ".c").c_str(), 4)); } return v; }
static inline OV bigOther(const OV &o, const char *tag) { OV v = o; if (gs_choice(tag, 2)) v.s.push_back('z'); else v.s.back() ^= 1; return v; }
// all or a few of the lengths
static inline int bigLen(int n) { static const int Q[]={255,256,1000,5000,16384}; int k = gs_choice("len", n > 10 ? 12 : 5); return n > 10 ? BIGLEN[k] : Q[k]; }
