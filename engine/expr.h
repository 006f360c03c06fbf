// Expressions: hash-consed bit-vector DAG, widths 1..64.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
#include <unordered_map>
#include <z3.h>

enum EOp : uint8_t { E_CONST, E_SYM, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ADD, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI };

struct SymSet { std::vector<uint32_t> v; };

struct Expr {
  uint8_t op, w; uint16_t aux; uint32_t id;
  Expr *a, *b, *c; uint64_t v;      // v: constant value / symbol index / extract offset / (float width for FP ops)
  Z3_ast z3, zb; uint64_t evalTag, evalVal; const SymSet *syms; Expr *next;
};

struct Val { Expr *e; uint64_t c; Val():e(nullptr),c(0){} Val(uint64_t x):e(nullptr),c(x){} Val(Expr*x):e(x),c(0){ if(x&&x->op==E_CONST){c=x->v;e=nullptr;} }
  bool conc() const { return !e; } };

inline uint64_t maskw(unsigned w){ return w>=64?~0ULL:((1ULL<<w)-1); }
inline int64_t sx(uint64_t v,unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ULL<<(w-1); v&=maskw(w); return (int64_t)((v^m)-m); }

struct ExprPool {
  std::vector<Expr*> table; size_t mask=0, count=0; uint32_t nextId=1;
  char *cur=nullptr,*end=nullptr; uint32_t nsyms=0; std::vector<uint8_t> symW; std::vector<Expr*> symE;
  std::vector<std::string> symName;
  SymSet emptySet;
  ExprPool(){ table.assign(1<<16,nullptr); mask=table.size()-1; }
  void* alloc(size_t n){ n=(n+15)&~15ULL; if(!cur||cur+n>end){ cur=(char*)malloc(1<<20); end=cur+(1<<20);} void*p=cur; cur+=n; return p; }
  static size_t h(uint8_t op,uint8_t w,Expr*a,Expr*b,Expr*c,uint64_t v){ size_t x=op*0x9E3779B97F4A7C15ULL+w; auto mix=[&](uint64_t y){ x^=y+0x9E3779B97F4A7C15ULL+(x<<6)+(x>>2); x*=0xff51afd7ed558ccdULL; x^=x>>32;};
    mix(a?a->id:0); mix(b?b->id:0); mix(c?c->id:0); mix(v); return x; }
  const SymSet* unite(Expr*a,Expr*b,Expr*c){
    const SymSet*r=&emptySet; Expr*k[3]={a,b,c};
    for(int i=0;i<3;i++) if(k[i]&&k[i]->syms!=r&&!k[i]->syms->v.empty()){
      if(r->v.empty()) r=k[i]->syms; else {
        const auto&x=r->v; const auto&y=k[i]->syms->v;
        if(std::includes(x.begin(),x.end(),y.begin(),y.end())) continue;
        if(std::includes(y.begin(),y.end(),x.begin(),x.end())) { r=k[i]->syms; continue; }
        SymSet*n=new SymSet; std::set_union(x.begin(),x.end(),y.begin(),y.end(),std::back_inserter(n->v)); r=n; } }
    return r; }
  Expr* get(uint8_t op,uint8_t w,Expr*a,Expr*b,Expr*c,uint64_t v){
    size_t hh=h(op,w,a,b,c,v); for(Expr*e=table[hh&mask];e;e=e->next) if(e->op==op&&e->w==w&&e->a==a&&e->b==b&&e->c==c&&e->v==v) return e;
    if(count>table.size()){ std::vector<Expr*> nt(table.size()*4,nullptr); size_t nm=nt.size()-1; for(auto*e:table) while(e){ Expr*n=e->next; size_t q=h(e->op,e->w,e->a,e->b,e->c,e->v)&nm; e->next=nt[q]; nt[q]=e; e=n; } table.swap(nt); mask=nm; }
    Expr*e=(Expr*)alloc(sizeof(Expr)); memset(e,0,sizeof(*e)); e->op=op;e->w=w;e->a=a;e->b=b;e->c=c;e->v=v;e->id=nextId++; e->syms=op==E_SYM?nullptr:unite(a,b,c);
    if(op==E_SYM){ SymSet*s=new SymSet; s->v.push_back((uint32_t)v); e->syms=s; }
    e->next=table[hh&mask]; table[hh&mask]=e; count++; return e; }
  Expr* cst(uint64_t v,unsigned w){ return get(E_CONST,w,0,0,0,v&maskw(w)); }
  Expr* sym(unsigned w,const std::string&name){ uint32_t i=nsyms++; symW.push_back(w); symName.push_back(name); Expr*e=get(E_SYM,w,0,0,0,i); symE.push_back(e); return e; }
};
extern ExprPool P;

inline Expr* X(Val v,unsigned w){ return v.e?v.e:P.cst(v.c,w); }
Val mkBin(EOp op,unsigned w,Val a,Val b);     // w: operand width
Val mkExtract(Val a,unsigned aw,unsigned off,unsigned w);
Val mkConcat(Val hi,unsigned hw,Val lo,unsigned lw);
Val mkZExt(Val a,unsigned from,unsigned to);
Val mkSExt(Val a,unsigned from,unsigned to);
Val mkIte(Val c,Val a,Val b,unsigned w);
Val mkNot1(Val a);
inline Val mkEq(unsigned w,Val a,Val b){ return mkBin(E_EQ,w,a,b); }
inline Val mkAnd1(Val a,Val b){ return mkBin(E_AND,1,a,b); }
inline Val mkOr1(Val a,Val b){ return mkBin(E_OR,1,a,b); }
uint64_t ubound(Expr*e);
unsigned tz(Expr*e);
uint64_t foldBin(EOp op,unsigned w,uint64_t a,uint64_t b,bool&ok);
struct Model { std::vector<uint64_t> v; uint64_t tag; };
uint64_t evalExpr(Expr*e,const Model&m);
uint64_t evalFp(uint8_t op,unsigned w,unsigned fw,uint64_t a,uint64_t b);
