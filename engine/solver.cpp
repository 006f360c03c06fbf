#include "solver.h"
#include <chrono>
#include <cstdio>
SolverStats SS;
static Z3_context C; static Z3_solver S1; static unsigned TO=20000;
static uint64_t gTag=1;
static double now(){ using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static void errh(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); }
static Z3_solver mkSolver(unsigned to){
  Z3_solver s=Z3_mk_simple_solver(C); Z3_solver_inc_ref(C,s);
  Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"rlimit"),to); Z3_solver_set_params(C,s,p); Z3_params_dec_ref(C,p); return s; }
void solverInit(unsigned t){ TO=t; Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); C=Z3_mk_context(cfg); Z3_set_error_handler(C,errh); S1=mkSolver(3000000); }
ModelP newModel(const Model*base){ Model*m=new Model; if(base) m->v=base->v; m->v.resize(P.nsyms,0); m->tag=++gTag; return ModelP(m); }
static Z3_ast z(Expr*e);
static Z3_ast mk1(Z3_ast cond){ // bool -> bv1
  return Z3_mk_ite(C,cond,Z3_mk_unsigned_int64(C,1,Z3_mk_bv_sort(C,1)),Z3_mk_unsigned_int64(C,0,Z3_mk_bv_sort(C,1))); }
static Z3_ast z(Expr*e){
  if(e->z3) return e->z3; Z3_ast r=nullptr;
  Z3_sort so=Z3_mk_bv_sort(C,e->w);
  auto fs=[&](unsigned w){ return w==32?Z3_mk_fpa_sort_32(C):Z3_mk_fpa_sort_64(C); };
  auto rm=[&](){ return Z3_mk_fpa_rne(C); };
  auto F=[&](Expr*x){ return Z3_mk_fpa_to_fp_bv(C,z(x),fs(x->w)); };
  switch(e->op){
    case E_CONST: r=Z3_mk_unsigned_int64(C,e->v,so); break;
    case E_SYM: { char nm[32]; snprintf(nm,32,"s%u",(unsigned)e->v); r=Z3_mk_const(C,Z3_mk_string_symbol(C,nm),so); break; }
    case E_CONCAT: r=Z3_mk_concat(C,z(e->a),z(e->b)); break;
    case E_EXTRACT: r=Z3_mk_extract(C,e->v+e->w-1,e->v,z(e->a)); break;
    case E_ZEXT: r=Z3_mk_zero_ext(C,e->w-e->a->w,z(e->a)); break;
    case E_SEXT: r=Z3_mk_sign_ext(C,e->w-e->a->w,z(e->a)); break;
    case E_ADD: r=Z3_mk_bvadd(C,z(e->a),z(e->b)); break; case E_MUL: r=Z3_mk_bvmul(C,z(e->a),z(e->b)); break;
    case E_UDIV: r=Z3_mk_bvudiv(C,z(e->a),z(e->b)); break; case E_SDIV: r=Z3_mk_bvsdiv(C,z(e->a),z(e->b)); break;
    case E_UREM: r=Z3_mk_bvurem(C,z(e->a),z(e->b)); break; case E_SREM: r=Z3_mk_bvsrem(C,z(e->a),z(e->b)); break;
    case E_AND: r=Z3_mk_bvand(C,z(e->a),z(e->b)); break; case E_OR: r=Z3_mk_bvor(C,z(e->a),z(e->b)); break; case E_XOR: r=Z3_mk_bvxor(C,z(e->a),z(e->b)); break;
    case E_SHL: r=Z3_mk_bvshl(C,z(e->a),z(e->b)); break; case E_LSHR: r=Z3_mk_bvlshr(C,z(e->a),z(e->b)); break; case E_ASHR: r=Z3_mk_bvashr(C,z(e->a),z(e->b)); break;
    case E_EQ: r=mk1(Z3_mk_eq(C,z(e->a),z(e->b))); break;
    case E_ULT: r=mk1(Z3_mk_bvult(C,z(e->a),z(e->b))); break; case E_ULE: r=mk1(Z3_mk_bvule(C,z(e->a),z(e->b))); break;
    case E_SLT: r=mk1(Z3_mk_bvslt(C,z(e->a),z(e->b))); break; case E_SLE: r=mk1(Z3_mk_bvsle(C,z(e->a),z(e->b))); break;
    case E_ITE: r=Z3_mk_ite(C,Z3_mk_eq(C,z(e->a),Z3_mk_unsigned_int64(C,1,Z3_mk_bv_sort(C,1))),z(e->b),z(e->c)); break;
    case E_FADD: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_add(C,rm(),F(e->a),F(e->b))); break;
    case E_FSUB: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_sub(C,rm(),F(e->a),F(e->b))); break;
    case E_FMUL: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_mul(C,rm(),F(e->a),F(e->b))); break;
    case E_FDIV: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_div(C,rm(),F(e->a),F(e->b))); break;
    case E_SITOFP: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_signed(C,rm(),z(e->a),fs(e->w))); break;
    case E_UITOFP: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_unsigned(C,rm(),z(e->a),fs(e->w))); break;
    case E_FPTOSI: r=Z3_mk_fpa_to_sbv(C,Z3_mk_fpa_rtz(C),F(e->a),e->w); break;
    case E_FPTOUI: r=Z3_mk_fpa_to_ubv(C,Z3_mk_fpa_rtz(C),F(e->a),e->w); break;
    default: fprintf(stderr,"bad op %d\n",e->op); abort();
  }
  e->z3=r; return r;
}
static Z3_ast zb0(Expr*e);
static Z3_ast zb(Expr*e){ if(!e->zb) e->zb=zb0(e); return e->zb; }
static Z3_ast zb0(Expr*e){ // as bool
  switch(e->op){
    case E_EQ: return Z3_mk_eq(C,z(e->a),z(e->b)); case E_ULT: return Z3_mk_bvult(C,z(e->a),z(e->b)); case E_ULE: return Z3_mk_bvule(C,z(e->a),z(e->b));
    case E_SLT: return Z3_mk_bvslt(C,z(e->a),z(e->b)); case E_SLE: return Z3_mk_bvsle(C,z(e->a),z(e->b));
    case E_AND: if(e->w==1){ Z3_ast k[2]={zb(e->a),zb(e->b)}; return Z3_mk_and(C,2,k);} break;
    case E_OR: if(e->w==1){ Z3_ast k[2]={zb(e->a),zb(e->b)}; return Z3_mk_or(C,2,k);} break;
    case E_XOR: if(e->w==1&&e->b->op==E_CONST) return Z3_mk_not(C,zb(e->a)); break;
    case E_CONST: return e->v?Z3_mk_true(C):Z3_mk_false(C);
    default: break; }
  return Z3_mk_eq(C,z(e),Z3_mk_unsigned_int64(C,1,Z3_mk_bv_sort(C,1)));
}
struct VH { size_t operator()(const std::vector<uint32_t>&v)const{ size_t h=v.size(); for(auto x:v) h=(h^x)*0x9E3779B97F4A7C15ULL+(h>>29); return h; } };
struct CE { SRes r; std::vector<std::pair<uint32_t,uint64_t>> m; };
static std::unordered_map<std::vector<uint32_t>,CE,VH> cache;
static std::vector<ModelP> recent; static size_t rpos=0;

static std::vector<Expr*> stack1; static unsigned sinceReset=0;
// ---- exact decision for conditions over a single symbol of at most 8 bits: truth tables
struct TT { uint64_t w[4]; };
static std::unordered_map<uint32_t,TT> tts;
static const TT& tt(Expr*e,uint32_t s){ auto it=tts.find(e->id); if(it!=tts.end()) return it->second; TT t; memset(&t,0,sizeof t); Model m; m.v.assign(s+1,0); unsigned n=1u<<P.symW[s]; for(unsigned i=0;i<n;i++){ m.v[s]=i; m.tag=++gTag; if(evalExpr(e,m)) t.w[i>>6]|=1ULL<<(i&63); } return tts[e->id]=t; }

SRes solve(const std::vector<Expr*>&cons, Expr*cond, const ModelP&base, ModelP&out){
  SS.queries++;
  if(cond->op==E_CONST){ if(cond->v){ out=base; return S_SAT;} return S_UNSAT; }
  if(evalExpr(cond,*base)){ SS.modelHits++; out=base; return S_SAT; }
  if(cond->syms->v.size()==1&&P.symW[cond->syms->v[0]]<=8){ uint32_t sy=cond->syms->v[0]; TT d=tt(cond,sy); bool multi=false;
    for(auto*e:cons){ auto&v=e->syms->v; if(v.size()==1){ if(v[0]==sy){ const TT&t=tt(e,sy); for(int i=0;i<4;i++) d.w[i]&=t.w[i]; } } else if(!multi&&std::binary_search(v.begin(),v.end(),sy)) multi=true; }
    if(!(d.w[0]|d.w[1]|d.w[2]|d.w[3])){ SS.byteDec++; return S_UNSAT; }
    int tries=multi?6:1; for(int k=0;k<4&&tries;k++) for(uint64_t w=d.w[k];w&&tries;w&=w-1){ tries--; unsigned val=k*64+__builtin_ctzll(w); ModelP m=newModel(base.get()); const_cast<Model&>(*m).v[sy]=val; bool ok=true; if(multi) for(auto*e:cons) if(e->syms->v.size()>1&&std::binary_search(e->syms->v.begin(),e->syms->v.end(),sy)&&!evalExpr(e,*m)){ ok=false; break; } if(ok){ SS.byteDec++; out=m; return S_SAT; } } }
  // independence slice
  std::vector<Expr*> sl; std::vector<uint32_t> syms=cond->syms->v; std::vector<char> in(cons.size(),0); 
  static std::vector<uint32_t> mark; static uint32_t mk=0; mk++; if(mark.size()<P.nsyms) mark.resize(P.nsyms+64,0);
  for(auto s:syms) mark[s]=mk;
  bool ch=true; while(ch){ ch=false; for(size_t i=0;i<cons.size();i++) if(!in[i]){ bool hit=false; for(auto s:cons[i]->syms->v) if(mark[s]==mk){hit=true;break;} if(hit){ in[i]=1; ch=true; sl.push_back(cons[i]); for(auto s:cons[i]->syms->v) if(mark[s]!=mk){mark[s]=mk; syms.push_back(s);} } } }
  { sl.clear(); for(size_t i=0;i<cons.size();i++) if(in[i]) sl.push_back(cons[i]); }
  std::vector<uint32_t> key; key.reserve(sl.size()+1); for(auto*e:sl) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end()); key.push_back(cond->id);
  auto it=cache.find(key);
  auto mkout=[&](const std::vector<std::pair<uint32_t,uint64_t>>&a){ ModelP m=newModel(base.get()); for(auto&p:a) const_cast<Model&>(*m).v[p.first]=p.second; out=m; };
  if(it!=cache.end()){ SS.cacheHits++; if(it->second.r==S_SAT) mkout(it->second.m); return it->second.r; }
  // try recent models
  for(size_t i=0;i<recent.size();i++){ auto&rm=recent[(rpos+recent.size()-1-i)%recent.size()]; if(!evalExpr(cond,*rm)) continue; bool ok=true; for(auto*e:sl) if(!evalExpr(e,*rm)){ok=false;break;}
    if(ok){ SS.modelHits++; std::vector<std::pair<uint32_t,uint64_t>> a; for(auto s:syms) a.push_back({s,s<rm->v.size()?rm->v[s]:0}); mkout(a); cache[key]=CE{S_SAT,a}; return S_SAT; } }
  double t0=now(); SS.z3calls++;
  SRes r=S_UNKNOWN; std::vector<std::pair<uint32_t,uint64_t>> asg;
  for(int round=0;round<2&&r==S_UNKNOWN;round++){
    Z3_solver S; 
    if(round==0){ S=S1; // incremental: keep the part of the assertion stack this query shares with the previous one
      size_t k=0; while(k<stack1.size()&&k<sl.size()&&stack1[k]==sl[k]) k++;
      if(++sinceReset>2000){ Z3_solver_reset(C,S); stack1.clear(); k=0; sinceReset=0; }
      if(stack1.size()>k){ Z3_solver_pop(C,S,stack1.size()-k); stack1.resize(k); }
      for(;k<sl.size();k++){ Z3_solver_push(C,S); Z3_solver_assert(C,S,zb(sl[k])); stack1.push_back(sl[k]); }
      Z3_solver_push(C,S); }
    else { S=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_BV")); 
      Z3_solver_inc_ref(C,S); Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),TO); Z3_solver_set_params(C,S,p); Z3_params_dec_ref(C,p); }
    if(round==1) for(auto*e:sl) Z3_solver_assert(C,S,zb(e)); Z3_solver_assert(C,S,zb(cond));
    Z3_lbool q=Z3_solver_check(C,S);
    if(q==Z3_L_TRUE){ r=S_SAT; Z3_model m=Z3_solver_get_model(C,S); Z3_model_inc_ref(C,m);
      for(auto s:syms){ Z3_ast v=nullptr; uint64_t x=0; if(Z3_model_eval(C,m,z(P.symE[s]),1,&v)&&v){ Z3_get_numeral_uint64(C,v,&x);} asg.push_back({s,x}); }
      Z3_model_dec_ref(C,m); }
    else if(q==Z3_L_FALSE) r=S_UNSAT;
    if(round==1) Z3_solver_dec_ref(C,S); else Z3_solver_pop(C,S,1);
  }
  SS.z3time+=now()-t0;
  if(r==S_SAT){ SS.sat++; mkout(asg);
    // trust but verify: the model must satisfy the slice under our own evaluator
    bool ok=evalExpr(cond,*out); for(auto*e:sl) if(!evalExpr(e,*out)) ok=false;
    if(!ok){ fprintf(stderr,"solver/evaluator mismatch\n"); r=S_UNKNOWN; SS.unknown++; }
    else { if(recent.size()<12) recent.push_back(out); else { recent[rpos]=out; rpos=(rpos+1)%recent.size(); } }
  } else if(r==S_UNSAT) SS.unsat++; else SS.unknown++;
  if(r!=S_UNKNOWN) cache[key]=CE{r,asg};
  return r;
}
