#pragma once
#include "expr.h"
// Objects live in 64 KiB slots; state forking shares them copy-on-write.
enum OKind : uint8_t { K_HEAP_MALLOC, K_HEAP_NEW, K_HEAP_NEWARR, K_STACK, K_GLOBAL, K_CONST };
struct Obj {
  uint32_t refs=0; uint64_t base=0; uint64_t size=0; OKind kind=K_HEAP_MALLOC; uint32_t nslots=1; const char*name=nullptr;
  uint8_t*d=nullptr; Expr**s=nullptr;
  Obj(uint64_t b,uint64_t n,OKind k):base(b),size(n),kind(k){ d=(uint8_t*)malloc(n?n:1); }
  Obj(const Obj&o):base(o.base),size(o.size),kind(o.kind),nslots(o.nslots),name(o.name){ d=(uint8_t*)malloc(size?size:1); memcpy(d,o.d,size); if(o.s){ s=(Expr**)malloc(size*sizeof(Expr*)); memcpy(s,o.s,size*sizeof(Expr*)); } }
  ~Obj(){ free(d); free(s); }
  void needSym(){ if(!s){ s=(Expr**)calloc(size?size:1,sizeof(Expr*)); } }
};
template<class T> struct Ref { T*p=nullptr; Ref(){} Ref(T*x):p(x){ if(p)p->refs++; } Ref(const Ref&o):p(o.p){ if(p)p->refs++; } Ref(Ref&&o):p(o.p){o.p=nullptr;}
  Ref&operator=(Ref o){ std::swap(p,o.p); return *this; } ~Ref(){ if(p&&--p->refs==0) delete p; } T*operator->()const{return p;} explicit operator bool()const{return p;} };
struct Leaf { uint32_t refs=0; Ref<Obj> o[64]; };
struct Mid { uint32_t refs=0; Ref<Leaf> l[64]; };
struct PVec {
  std::vector<Ref<Mid>> m;
  Obj* get(uint64_t i) const { uint64_t a=i>>12; if(a>=m.size()||!m[a]) return nullptr; auto&L=m[a].p->l[(i>>6)&63]; if(!L) return nullptr; return L.p->o[i&63].p; }
  Ref<Obj>& ref(uint64_t i){ uint64_t a=i>>12; if(a>=m.size()) m.resize(a+1); if(!m[a]) m[a]=Ref<Mid>(new Mid); else if(m[a].p->refs>1) m[a]=Ref<Mid>(copyMid(m[a].p));
    auto&L=m[a].p->l[(i>>6)&63]; if(!L) L=Ref<Leaf>(new Leaf); else if(L.p->refs>1) L=Ref<Leaf>(copyLeaf(L.p)); return L.p->o[i&63]; }
  static Mid*copyMid(Mid*x){ Mid*n=new Mid; for(int i=0;i<64;i++) n->l[i]=x->l[i]; return n; }
  static Leaf*copyLeaf(Leaf*x){ Leaf*n=new Leaf; for(int i=0;i<64;i++) n->o[i]=x->o[i]; return n; }
};
