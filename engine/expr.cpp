#include "expr.h"
#include <cmath>
ExprPool P;

uint64_t foldBin(EOp op,unsigned w,uint64_t a,uint64_t b,bool&ok){
  uint64_t m=maskw(w); a&=m;b&=m; ok=true;
  switch(op){
    case E_ADD: return (a+b)&m; case E_MUL: return (a*b)&m;
    case E_UDIV: if(!b){ok=false;return 0;} return a/b;
    case E_UREM: if(!b){ok=false;return 0;} return a%b;
    case E_SDIV: { if(!b){ok=false;return 0;} int64_t x=sx(a,w),y=sx(b,w); if(y==-1) return (0-(uint64_t)x)&m; return (uint64_t)(x/y)&m; }
    case E_SREM: { if(!b){ok=false;return 0;} int64_t x=sx(a,w),y=sx(b,w); if(y==-1) return 0; return (uint64_t)(x%y)&m; }
    case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b;
    case E_SHL: return b>=w?0:(a<<b)&m; case E_LSHR: return b>=w?0:a>>b;
    case E_ASHR: return (uint64_t)(sx(a,w)>>(b>=w?(w-1):b))&m;
    case E_EQ: return a==b; case E_ULT: return a<b; case E_ULE: return a<=b;
    case E_SLT: return sx(a,w)<sx(b,w); case E_SLE: return sx(a,w)<=sx(b,w);
    default: ok=false; return 0;
  }
}
uint64_t ubound(Expr*e){
  uint64_t m=maskw(e->w);
  switch(e->op){
    case E_CONST: return e->v;
    case E_ZEXT: return ubound(e->a);
    case E_AND: return std::min(ubound(e->a),ubound(e->b));
    case E_OR: case E_XOR: { uint64_t x=ubound(e->a)|ubound(e->b); uint64_t r=x; for(int s=1;s<64;s<<=1) r|=r>>s; return r; }
    case E_ITE: return std::max(ubound(e->b),ubound(e->c));
    case E_LSHR: if(e->b->op==E_CONST) return e->b->v>=e->w?0:ubound(e->a)>>e->b->v; return ubound(e->a);
    case E_SHL: if(e->b->op==E_CONST&&e->b->v<64){ uint64_t u=ubound(e->a); if(u<=(m>>e->b->v)) return u<<e->b->v; } return m;
    case E_UREM: if(e->b->op==E_CONST&&e->b->v) return std::min(ubound(e->a),e->b->v-1); return ubound(e->a);
    case E_UDIV: if(e->b->op==E_CONST&&e->b->v) return ubound(e->a)/e->b->v; return m;
    case E_ADD: { uint64_t x=ubound(e->a),y=ubound(e->b); if(x+y>=x&&x+y<=m) return x+y; return m; }
    case E_MUL: { uint64_t x=ubound(e->a),y=ubound(e->b); unsigned __int128 p=(unsigned __int128)x*y; if(p<=m) return (uint64_t)p; return m; }
    case E_CONCAT: return (ubound(e->a)<<e->b->w)|maskw(e->b->w);
    case E_EXTRACT: if(e->v==0){ uint64_t u=ubound(e->a); if(u<=m) return u; } return m;
    default: return m;
  }
}
unsigned tz(Expr*e){
  switch(e->op){
    case E_CONST: return e->v?__builtin_ctzll(e->v):e->w;
    case E_SHL: if(e->b->op==E_CONST) return std::min<uint64_t>(e->w,tz(e->a)+e->b->v); return tz(e->a);
    case E_ZEXT: case E_SEXT: return tz(e->a)>=e->a->w?e->w:tz(e->a);
    case E_CONCAT: { unsigned t=tz(e->b); return t<e->b->w?t:t+tz(e->a); }
    case E_MUL: return std::min<unsigned>(e->w,tz(e->a)+tz(e->b));
    case E_ADD: case E_OR: case E_XOR: return std::min(tz(e->a),tz(e->b));
    case E_AND: return std::max(tz(e->a),tz(e->b));
    case E_ITE: return std::min(tz(e->b),tz(e->c));
    default: return 0;
  }
}
Val mkNot1(Val a){
  if(a.conc()) return Val((uint64_t)!(a.c&1));
  Expr*e=a.e;
  if(e->op==E_XOR&&e->b->op==E_CONST) return Val(e->a);
  if(e->op==E_ULT) return mkBin(E_ULE,e->a->w,Val(e->b),Val(e->a));
  if(e->op==E_ULE) return mkBin(E_ULT,e->a->w,Val(e->b),Val(e->a));
  if(e->op==E_SLT) return mkBin(E_SLE,e->a->w,Val(e->b),Val(e->a));
  if(e->op==E_SLE) return mkBin(E_SLT,e->a->w,Val(e->b),Val(e->a));
  return Val(P.get(E_XOR,1,e,P.cst(1,1),nullptr,0));
}
Val mkZExt(Val a,unsigned from,unsigned to){
  if(from==to) return a; if(a.conc()) return Val(a.c&maskw(from));
  if(a.e->op==E_ZEXT) return mkZExt(Val(a.e->a),a.e->a->w,to);
  if(a.e->op==E_ITE&&a.e->b->op==E_CONST&&a.e->c->op==E_CONST) return mkIte(Val(a.e->a),Val(a.e->b->v),Val(a.e->c->v),to);
  return Val(P.get(E_ZEXT,to,a.e,0,0,0));
}
Val mkSExt(Val a,unsigned from,unsigned to){
  if(from==to) return a; if(a.conc()) return Val((uint64_t)sx(a.c,from)&maskw(to));
  if(a.e->op==E_SEXT) return mkSExt(Val(a.e->a),a.e->a->w,to);
  if(a.e->op==E_ZEXT&&a.e->a->w<from) return mkZExt(Val(a.e->a),a.e->a->w,to);
  if(ubound(a.e)<=(maskw(from)>>1)) return mkZExt(a,from,to);
  if(a.e->op==E_ITE&&a.e->b->op==E_CONST&&a.e->c->op==E_CONST) return mkIte(Val(a.e->a),Val((uint64_t)sx(a.e->b->v,from)&maskw(to)),Val((uint64_t)sx(a.e->c->v,from)&maskw(to)),to);
  return Val(P.get(E_SEXT,to,a.e,0,0,0));
}
Val mkExtract(Val a,unsigned aw,unsigned off,unsigned w){
  if(a.conc()) return Val((a.c>>off)&maskw(w));
  if(off==0&&w==aw) return a;
  Expr*e=a.e;
  switch(e->op){
    case E_EXTRACT: return mkExtract(Val(e->a),e->a->w,off+e->v,w);
    case E_ZEXT: { unsigned iw=e->a->w; if(off>=iw) return Val((uint64_t)0); if(off+w<=iw) return mkExtract(Val(e->a),iw,off,w); return mkZExt(mkExtract(Val(e->a),iw,off,iw-off),iw-off,w); }
    case E_SEXT: { unsigned iw=e->a->w; if(off+w<=iw) return mkExtract(Val(e->a),iw,off,w); if(off==0) return mkSExt(Val(e->a),iw,w); break; }
    case E_CONCAT: { unsigned lw=e->b->w; if(off>=lw) return mkExtract(Val(e->a),e->a->w,off-lw,w); if(off+w<=lw) return mkExtract(Val(e->b),lw,off,w);
      return mkConcat(mkExtract(Val(e->a),e->a->w,0,off+w-lw),off+w-lw,mkExtract(Val(e->b),lw,off,lw-off),lw-off); }
    case E_AND: case E_OR: case E_XOR: return mkBin((EOp)e->op,w,mkExtract(Val(e->a),aw,off,w),mkExtract(Val(e->b),aw,off,w));
    case E_ITE: if(e->b->op==E_CONST||e->c->op==E_CONST) return mkIte(Val(e->a),mkExtract(Val(e->b),aw,off,w),mkExtract(Val(e->c),aw,off,w),w); break;
    case E_ADD: case E_MUL: if(off==0) return mkBin((EOp)e->op,w,mkExtract(Val(e->a),aw,0,w),mkExtract(Val(e->b),aw,0,w)); break;
    case E_SHL: if(e->b->op==E_CONST){ uint64_t s=e->b->v; if(off>=s) return mkExtract(Val(e->a),aw,off-s,w); if(off+w<=s) return Val((uint64_t)0);} break;
    default: break;
  }
  return Val(P.get(E_EXTRACT,w,e,0,0,off));
}
Val mkConcat(Val hi,unsigned hw,Val lo,unsigned lw){
  if(hi.conc()&&lo.conc()) return Val(((hi.c&maskw(hw))<<lw)|(lo.c&maskw(lw)));
  if(hi.conc()&&(hi.c&maskw(hw))==0) return mkZExt(lo,lw,hw+lw);
  if(!hi.conc()&&!lo.conc()){
    if(hi.e->op==E_EXTRACT&&lo.e->op==E_EXTRACT&&hi.e->a==lo.e->a&&hi.e->v==lo.e->v+lw) return mkExtract(Val(hi.e->a),hi.e->a->w,lo.e->v,hw+lw);
    if(hi.e->op==E_EXTRACT&&hi.e->a==lo.e&&hi.e->v==lw) return mkExtract(Val(lo.e),lw,0,hw+lw); // (cannot happen: widths)
    // hi is extract, lo is concat(extract of same..): right-assoc handled below
    if(lo.e->op==E_CONCAT&&hi.e->op==E_EXTRACT&&lo.e->a->op==E_EXTRACT&&hi.e->a==lo.e->a->a&&hi.e->v==lo.e->a->v+lo.e->a->w){
      unsigned nw=hw+lo.e->a->w; return mkConcat(mkExtract(Val(hi.e->a),hi.e->a->w,lo.e->a->v,nw),nw,Val(lo.e->b),lo.e->b->w); }
  }
  // zext(x) with remaining zero bits and extract of same
  if(!hi.conc()&&hi.e->op==E_CONCAT){ // make right associative: concat(concat(a,b),lo) -> concat(a,concat(b,lo))
    Expr*h=hi.e; return mkConcat(Val(h->a),h->a->w,mkConcat(Val(h->b),h->b->w,lo,lw),h->b->w+lw); }
  if(!hi.conc()&&hi.e->op==E_ZEXT){ unsigned iw=hi.e->a->w; return mkZExt(mkConcat(Val(hi.e->a),iw,lo,lw),iw+lw,hw+lw); }
  return Val(P.get(E_CONCAT,hw+lw,X(hi,hw),X(lo,lw),0,0));
}
Val mkIte(Val c,Val a,Val b,unsigned w){
  if(c.conc()) return (c.c&1)?a:b;
  if(a.conc()&&b.conc()&&((a.c^b.c)&maskw(w))==0) return a;
  if(a.e&&a.e==b.e) return a;
  if(w==1){
    if(a.conc()&&b.conc()) return a.c&1?c:mkNot1(c);
    if(a.conc()) return a.c&1?mkOr1(c,b):mkAnd1(mkNot1(c),b);
    if(b.conc()) return b.c&1?mkOr1(mkNot1(c),a):mkAnd1(c,a);
  }
  if(c.e->op==E_XOR&&c.e->b->op==E_CONST) return mkIte(Val(c.e->a),b,a,w);
  return Val(P.get(E_ITE,w,c.e,X(a,w),X(b,w),0));
}
static bool isC(const Val&v){return !v.e;}
Val mkBin(EOp op,unsigned w,Val a,Val b){
  uint64_t m=maskw(w);
  if(isC(a)) a.c&=m; if(isC(b)) b.c&=m;
  if(isC(a)&&isC(b)){ bool ok; uint64_t r=foldBin(op,w,a.c,b.c,ok); if(ok) return Val(r); return Val(P.get(op,w,P.cst(a.c,w),P.cst(b.c,w),0,0)); }
  bool cmp=op>=E_EQ&&op<=E_SLE; unsigned rw=cmp?1:w;
  if(isC(a)&&(op==E_ADD||op==E_MUL||op==E_AND||op==E_OR||op==E_XOR||op==E_EQ)) std::swap(a,b);
  switch(op){
    case E_ADD:
      if(isC(b)){ if(!b.c) return a; if(a.e->op==E_ADD&&a.e->b->op==E_CONST) return mkBin(E_ADD,w,Val(a.e->a),Val((a.e->b->v+b.c)&m)); }
      else { // keep constants outermost
        if(a.e->op==E_ADD&&a.e->b->op==E_CONST) return mkBin(E_ADD,w,mkBin(E_ADD,w,Val(a.e->a),b),Val(a.e->b->v));
        if(b.e->op==E_ADD&&b.e->b->op==E_CONST) return mkBin(E_ADD,w,mkBin(E_ADD,w,a,Val(b.e->a)),Val(b.e->b->v));
        // x + (-1 * x) = 0
        if(b.e->op==E_MUL&&b.e->b->op==E_CONST&&b.e->b->v==m&&b.e->a==a.e) return Val((uint64_t)0);
        if(a.e->op==E_MUL&&a.e->b->op==E_CONST&&a.e->b->v==m&&a.e->a==b.e) return Val((uint64_t)0);
        // (x + y) + (-1*y) = x
        if(a.e->op==E_ADD&&b.e->op==E_MUL&&b.e->b->op==E_CONST&&b.e->b->v==m){ if(a.e->b==b.e->a) return Val(a.e->a); if(a.e->a==b.e->a) return Val(a.e->b); }
        if(a.e->id>b.e->id) std::swap(a,b);
      }
      break;
    case E_MUL: if(isC(b)){ if(b.c==0) return b; if(b.c==1) return a; if(__builtin_popcountll(b.c)==1) return mkBin(E_SHL,w,a,Val((uint64_t)__builtin_ctzll(b.c)));
        if(b.c==m&&a.e->op==E_ADD&&a.e->b->op==E_CONST) return mkBin(E_ADD,w,mkBin(E_MUL,w,Val(a.e->a),b),Val((0-a.e->b->v)&m));
        if(b.c==m&&a.e->op==E_MUL&&a.e->b->op==E_CONST&&a.e->b->v==m) return Val(a.e->a); } break;
    case E_UDIV: if(isC(b)&&b.c==1) return a; if(isC(b)&&b.c&&__builtin_popcountll(b.c)==1) return mkBin(E_LSHR,w,a,Val((uint64_t)__builtin_ctzll(b.c))); break;
    case E_UREM: if(isC(b)&&b.c&&__builtin_popcountll(b.c)==1) return mkBin(E_AND,w,a,Val(b.c-1)); break;
    case E_SDIV: if(isC(b)&&b.c==1) return a; break;
    case E_AND:
      if(isC(b)){ if(!b.c) return b; if(b.c==m) return a;
        if(((b.c+1)&b.c)==0){ unsigned k=__builtin_popcountll(b.c); return mkZExt(mkExtract(a,w,0,k),k,w); }
        { unsigned t=__builtin_ctzll(b.c); uint64_t s=b.c>>t; if(((s+1)&s)==0){ unsigned k=__builtin_popcountll(s); Val mid=mkExtract(a,w,t,k); Val r=mkConcat(mid,k,Val((uint64_t)0),t); return mkZExt(r,k+t,w);} }
        if(a.e->op==E_AND&&a.e->b->op==E_CONST) return mkBin(E_AND,w,Val(a.e->a),Val(a.e->b->v&b.c));
      } else { if(a.e==b.e) return a; if(w==1){ if(mkNot1(a).e==b.e) return Val((uint64_t)0);} if(a.e->id>b.e->id) std::swap(a,b); }
      break;
    case E_OR:
      if(isC(b)){ if(!b.c) return a; if(b.c==m) return b; }
      else { if(a.e==b.e) return a; if(w==1){ if(mkNot1(a).e==b.e) return Val((uint64_t)1);}
        // disjoint: high part has low zeros, low part is a zext
        { unsigned ta=tz(a.e),tb=tz(b.e); uint64_t ua=ubound(a.e),ub=ubound(b.e);
          if(tb>0&&tb<w&&ua<=maskw(tb)) return mkConcat(mkExtract(b,w,tb,w-tb),w-tb,mkExtract(a,w,0,tb),tb);
          if(ta>0&&ta<w&&ub<=maskw(ta)) return mkConcat(mkExtract(a,w,ta,w-ta),w-ta,mkExtract(b,w,0,ta),ta); }
        if(a.e->id>b.e->id) std::swap(a,b); }
      break;
    case E_XOR:
      if(isC(b)){ if(!b.c) return a; if(w==1) return mkNot1(a); if(a.e->op==E_XOR&&a.e->b->op==E_CONST) return mkBin(E_XOR,w,Val(a.e->a),Val(a.e->b->v^b.c)); }
      else { if(a.e==b.e) return Val((uint64_t)0); if(a.e->id>b.e->id) std::swap(a,b); }
      break;
    case E_SHL: if(isC(b)){ if(!b.c) return a; if(b.c>=w) return Val((uint64_t)0); return mkConcat(mkExtract(a,w,0,w-b.c),w-b.c,Val((uint64_t)0),b.c); } break;
    case E_LSHR: if(isC(b)){ if(!b.c) return a; if(b.c>=w) return Val((uint64_t)0); return mkZExt(mkExtract(a,w,b.c,w-b.c),w-b.c,w); } break;
    case E_ASHR: if(isC(b)){ if(!b.c) return a; if(ubound(a.e)<=(m>>1)) return mkBin(E_LSHR,w,a,b); uint64_t s=b.c>=w?w-1:b.c; return mkSExt(mkExtract(a,w,s,w-s),w-s,w); } break;
    case E_EQ:
      if(w==1&&isC(b)) return b.c?a:mkNot1(a);
      if(isC(b)){
        Expr*e=a.e;
        if(e->op==E_ZEXT){ if(b.c>maskw(e->a->w)) return Val((uint64_t)0); return mkEq(e->a->w,Val(e->a),b); }
        if(e->op==E_SEXT){ uint64_t lo=b.c&maskw(e->a->w); if(((uint64_t)sx(lo,e->a->w)&m)!=b.c) return Val((uint64_t)0); return mkEq(e->a->w,Val(e->a),Val(lo)); }
        if(e->op==E_ADD&&e->b->op==E_CONST) return mkEq(w,Val(e->a),Val((b.c-e->b->v)&m));
        if(e->op==E_XOR&&e->b->op==E_CONST) return mkEq(w,Val(e->a),Val(b.c^e->b->v));
        if(e->op==E_MUL&&e->b->op==E_CONST&&e->b->v==m) return mkEq(w,Val(e->a),Val((0-b.c)&m));
        if(e->op==E_CONCAT){ unsigned lw=e->b->w; if(e->b->op==E_CONST){ if(e->b->v!=(b.c&maskw(lw))) return Val((uint64_t)0); return mkEq(e->a->w,Val(e->a),Val(b.c>>lw)); }
           if(e->a->op==E_CONST){ if(e->a->v!=(b.c>>lw)) return Val((uint64_t)0); return mkEq(lw,Val(e->b),Val(b.c&maskw(lw))); }
           return mkAnd1(mkEq(e->a->w,Val(e->a),Val(b.c>>lw)),mkEq(lw,Val(e->b),Val(b.c&maskw(lw)))); }
        if(e->op==E_ITE&&(e->b->op==E_CONST||e->c->op==E_CONST)) return mkIte(Val(e->a),mkEq(w,Val(e->b),b),mkEq(w,Val(e->c),b),1);
        if(b.c>ubound(e)) return Val((uint64_t)0);
      } else {
        if(a.e==b.e) return Val((uint64_t)1);
        if(a.e->op==E_ZEXT&&b.e->op==E_ZEXT&&a.e->a->w==b.e->a->w) return mkEq(a.e->a->w,Val(a.e->a),Val(b.e->a));
        if(a.e->op==E_SEXT&&b.e->op==E_SEXT&&a.e->a->w==b.e->a->w) return mkEq(a.e->a->w,Val(a.e->a),Val(b.e->a));
        if(a.e->op==E_ADD&&b.e->op==E_ADD&&a.e->b==b.e->b) return mkEq(w,Val(a.e->a),Val(b.e->a));
        if(a.e->op==E_ADD&&a.e->a==b.e&&a.e->b->op==E_CONST) return Val((uint64_t)0);
        if(b.e->op==E_ADD&&b.e->a==a.e&&b.e->b->op==E_CONST) return Val((uint64_t)0);
        if(a.e->op==E_CONCAT&&b.e->op==E_CONCAT&&a.e->a->w==b.e->a->w) return mkAnd1(mkEq(a.e->a->w,Val(a.e->a),Val(b.e->a)),mkEq(a.e->b->w,Val(a.e->b),Val(b.e->b)));
        if(a.e->id>b.e->id) std::swap(a,b);
      }
      break;
    case E_ULT:
      if(isC(b)){ if(b.c==0) return Val((uint64_t)0); if(ubound(a.e)<b.c) return Val((uint64_t)1); if(b.c==1) return mkEq(w,a,Val((uint64_t)0)); if(b.c==m) return mkNot1(mkEq(w,a,b)); if(a.e->op==E_ZEXT) return mkBin(E_ULT,a.e->a->w,Val(a.e->a),b);
        if(a.e->op==E_ITE&&a.e->b->op==E_CONST&&a.e->c->op==E_CONST) return mkIte(Val(a.e->a),Val((uint64_t)(a.e->b->v<b.c)),Val((uint64_t)(a.e->c->v<b.c)),1); }
      else if(isC(a)){ if(ubound(b.e)<=a.c) return Val((uint64_t)0); if(a.c==0) return mkNot1(mkEq(w,b,a)); if(b.e->op==E_ZEXT) return mkBin(E_ULT,b.e->a->w,a,Val(b.e->a)); 
        if(b.e->op==E_ITE&&b.e->b->op==E_CONST&&b.e->c->op==E_CONST) return mkIte(Val(b.e->a),Val((uint64_t)(a.c<b.e->b->v)),Val((uint64_t)(a.c<b.e->c->v)),1); }
      else { if(a.e==b.e) return Val((uint64_t)0); if(a.e->op==E_ZEXT&&b.e->op==E_ZEXT&&a.e->a->w==b.e->a->w) return mkBin(E_ULT,a.e->a->w,Val(a.e->a),Val(b.e->a)); }
      break;
    case E_ULE:
      if(isC(b)){ if(b.c==m) return Val((uint64_t)1); return mkBin(E_ULT,w,a,Val(b.c+1)); }
      if(isC(a)){ if(a.c==0) return Val((uint64_t)1); return mkBin(E_ULT,w,Val(a.c-1),b); }
      if(a.e==b.e) return Val((uint64_t)1);
      if(a.e->op==E_ZEXT&&b.e->op==E_ZEXT&&a.e->a->w==b.e->a->w) return mkBin(E_ULE,a.e->a->w,Val(a.e->a),Val(b.e->a));
      break;
    case E_SLT: case E_SLE: {
      uint64_t ua=isC(a)?a.c:ubound(a.e),ub=isC(b)?b.c:ubound(b.e);
      if(ua<=(m>>1)&&ub<=(m>>1)) return mkBin(op==E_SLT?E_ULT:E_ULE,w,a,b);
      if(!isC(a)&&!isC(b)&&a.e==b.e) return Val((uint64_t)(op==E_SLE));
      if(isC(b)&&ua<=(m>>1)) return Val((uint64_t)0);            // a>=0 > b (b negative)
      if(isC(a)&&ub<=(m>>1)) return Val((uint64_t)1);
      if(op==E_SLE&&isC(b)){ if(b.c==(m>>1)) return Val((uint64_t)1); return mkBin(E_SLT,w,a,Val((b.c+1)&m)); }
      if(op==E_SLE&&isC(a)){ if(a.c==(m>>1)+1) return Val((uint64_t)1); return mkBin(E_SLT,w,Val((a.c-1)&m),b); }
      // x < 0  -> sign bit
      if(op==E_SLT&&isC(b)&&b.c==0) return mkExtract(a,w,w-1,1);
      if(op==E_SLT&&isC(a)&&a.c==m) return mkNot1(mkExtract(b,w,w-1,1));
      if(!isC(a)&&isC(b)&&a.e->op==E_ITE&&a.e->b->op==E_CONST&&a.e->c->op==E_CONST) return mkIte(Val(a.e->a),mkBin(op,w,Val(a.e->b),b),mkBin(op,w,Val(a.e->c),b),1);
      break; }
    default: break;
  }
  return Val(P.get(op,rw,X(a,w),X(b,w),0,0));
}
uint64_t evalFp(uint8_t op,unsigned w,unsigned fw,uint64_t a,uint64_t b){
  auto D=[&](uint64_t x)->double{ if(fw==32){ float f; uint32_t y=x; memcpy(&f,&y,4); return f;} double d; memcpy(&d,&x,8); return d; };
  auto B=[&](double d)->uint64_t{ if(w==32){ float f=(float)d; uint32_t y; memcpy(&y,&f,4); return y;} uint64_t x; memcpy(&x,&d,8); return x; };
  switch(op){ case E_FADD: return B(D(a)+D(b)); case E_FSUB: return B(D(a)-D(b)); case E_FMUL: return B(D(a)*D(b)); case E_FDIV: return B(D(a)/D(b)); }
  return 0;
}
static uint64_t ev(Expr*e,const Model&m){
  if(e->op==E_CONST) return e->v;
  if(e->evalTag==m.tag) return e->evalVal;
  uint64_t r=0;
  switch(e->op){
    case E_SYM: r=e->v<m.v.size()?m.v[e->v]:0; break;
    case E_CONCAT: r=(ev(e->a,m)<<e->b->w)|ev(e->b,m); break;
    case E_EXTRACT: r=(ev(e->a,m)>>e->v)&maskw(e->w); break;
    case E_ZEXT: r=ev(e->a,m); break;
    case E_SEXT: r=(uint64_t)sx(ev(e->a,m),e->a->w)&maskw(e->w); break;
    case E_ITE: r=ev(e->a,m)?ev(e->b,m):ev(e->c,m); break;
    case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: r=evalFp(e->op,e->w,e->w,ev(e->a,m),ev(e->b,m)); break;
    case E_SITOFP: case E_UITOFP: { uint64_t x=ev(e->a,m); double d=e->op==E_SITOFP?(double)sx(x,e->a->w):(double)x; if(e->w==32){ float f=e->op==E_SITOFP?(float)sx(x,e->a->w):(float)x; uint32_t y; memcpy(&y,&f,4); r=y;} else memcpy(&r,&d,8); break; }
    case E_FPTOSI: case E_FPTOUI: { uint64_t x=ev(e->a,m); double d; if(e->a->w==32){ float f; uint32_t y=x; memcpy(&f,&y,4); d=f;} else memcpy(&d,&x,8); if(d!=d||d>1.8446744073709552e19||d<-9.3e18) r=0; else r=(e->op==E_FPTOSI||d<0)?(uint64_t)(int64_t)d:(uint64_t)d; r&=maskw(e->w); break; }
    default: { bool ok; uint64_t x=ev(e->a,m),y=ev(e->b,m); r=foldBin((EOp)e->op,e->a->w,x,y,ok);
      if(!ok){ switch(e->op){ case E_UDIV: r=maskw(e->w); break; case E_SDIV: r=sx(x,e->w)<0?1:maskw(e->w); break; default: r=x; } } }
  }
  e->evalTag=m.tag; e->evalVal=r; return r;
}
uint64_t evalExpr(Expr*e,const Model&m){ return ev(e,m); }
