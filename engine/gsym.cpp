// gsym: symbolic executor for LLVM bitcode. See ../DESIGN.md.
#include "expr.h"
#include "mem.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/mman.h>
#include <atomic>
#include <fstream>
#include <sstream>
#include <iostream>
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32;

static double nowS(){ using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static std::unique_ptr<Module> M; static const DataLayout*DL;
static const u64 HEAP_BASE=1ULL<<44, STACK_BASE=1ULL<<45, GLOB_BASE=1ULL<<32, FUNC_BASE=0x10000; static const unsigned SLOTB=16; static const u64 OBJOFF=0x400;
static double tStart, timeLimit=300; static u64 maxPathInstr=80000000; static u64 maxStates=200000; static unsigned jobs=8; static int sampleN=3; static unsigned concLimit=80;
static bool verbose=false;
static std::map<std::string,std::string> redirects;
static std::string onlyProp; // property being decided: checks labelled for other properties are left out
static bool labelCounts(const std::string&l){ if(onlyProp.empty()) return true; bool any=false; size_t i=0; while(i+3<=l.size()&&l[i]=='C'&&isdigit((unsigned char)l[i+1])&&isdigit((unsigned char)l[i+2])){ any=true; if(l.compare(i,3,onlyProp)==0) return true; i+=3; if(i<l.size()&&l[i]==',') i++; else break; } return !(any&&i<l.size()&&l[i]==' '); }
static std::map<std::string,u64> params;
static std::map<std::string,u64> pins;

// ---------------------------------------------------------------- decoded code
enum IOp : uint8_t { I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH, I_IBR, I_RET, I_CALL, I_UNREACH, I_LPAD, I_RESUME, I_EXTRACTV, I_INSERTV, I_SITOFP, I_UITOFP, I_FPTOSI, I_FPTOUI, I_FPEXT, I_FPTRUNC, I_NOP, I_RMW, I_CMPXCHG, I_UNSUP,
  // inline intrinsics
  I_MEMCPY, I_MEMSET, I_MINMAX, I_OVF, I_SAT, I_ABS, I_CTLZ, I_CTTZ, I_CTPOP, I_BSWAP, I_FSH, I_ASSUME, I_TYPEID, I_VASTART, I_VACOPY, I_TRAP, I_OBJSIZE, I_FABS, I_ISCONST };
struct Opnd { int r=-1; u64 c=0; };
struct Func;
struct Edge { u32 target; std::vector<std::pair<int,Opnd>> phis; u32 toBlock; };
struct GepPart { Opnd idx; unsigned w; u64 scale; };
struct SwCase { u64 v; u32 edge; };
struct LClause { bool isCatch; u64 ti; };
struct Inst {
  IOp op; uint8_t sub=0; uint16_t w=0,w2=0; int dst=-1; Opnd a,b,c; u64 imm=0; std::vector<Opnd> args; std::vector<u32> edges; std::vector<SwCase> cases; std::vector<GepPart> gep; std::vector<LClause> cl; std::vector<unsigned> idx; std::vector<u64> byval; std::vector<uint16_t> aw;
  bool cleanup=false, invoke=false; Function*callee=nullptr; int builtin=-1; const Instruction*I=nullptr; Type*ty=nullptr;
};
struct Func { Function*F; std::string name; bool decoded=false; std::vector<Inst> code; std::vector<Edge> edges; std::map<const BasicBlock*,u32> bstart; unsigned nregs=0; unsigned nargs=0; std::string file; unsigned line=0; bool repo=false; u64 hits=0; std::vector<Val> aggs; std::set<u32> cov; };
static std::map<Function*,Func*> funcs; static std::map<u64,Function*> funcByAddr; static std::map<const GlobalValue*,u64> gaddr; static std::map<u64,unsigned> typeIds;
static std::vector<std::string> repoPrefixes;

struct Agg { std::vector<Val> v; };
static Val mkAgg(std::vector<Val> v){ Expr*e=(Expr*)P.alloc(sizeof(Expr)); memset(e,0,sizeof *e); e->op=255; Agg*a=new Agg; a->v=std::move(v); e->a=(Expr*)a; Val r; r.e=e; return r; }
static Agg* asAgg(const Val&v){ return v.e&&v.e->op==255?(Agg*)v.e->a:nullptr; }

// ---------------------------------------------------------------- state
struct Frame { Func*f; u32 pc=0; std::vector<Val> r; u64 stack0=0; std::vector<std::pair<Val,unsigned>> va; u64 vaObj=0; };
struct SymRec { std::string name; bool bytes; unsigned bits; std::vector<Expr*> e; };
struct LogRec { std::string name; bool bytes; std::vector<std::pair<Val,unsigned>> v; };
struct ExcInfo { u64 ti, dtor; int handlers=0; bool rethrown=false; };
struct State {
  PVec heap, stackm; u64 heapTop=0, stackTop=0; std::vector<Frame> st; std::vector<Expr*> cons; ModelP model; int entry=0;
  std::vector<SymRec> syms; std::vector<LogRec> logs; std::map<u64,ExcInfo> exc; std::vector<u64> caught; u64 lpExc=0; u64 ninstr=0; u64 liveNew=0; std::map<std::pair<void*,u32>,unsigned> conc; std::vector<std::string> marks; u64 uncaught=0; std::vector<PVec> snaps;
};
static PVec globals; static std::vector<u64> repoGlobals; // the initial state, and the writable variables of the code under test
struct Viol { std::string kind,label,where,stack,values; };
struct EntryStat { std::string name; u64 paths=0, partial=0, forks=0, checks=0; std::map<std::string,u64> covers, incomplete; std::map<std::string,Viol> viol; std::vector<std::string> samples; u64 seen=0; std::map<std::string,u64> checkLabels; };
static std::vector<EntryStat> ES; static std::vector<std::string> entryNames;
static std::deque<State*> work; static u64 totInstr=0;
struct PathEnd {}; struct Restart {};
static State*cur;

static std::string demangle_(const std::string&n){ return llvm::demangle(n); }
static std::string jstr(const std::string&s){ std::string o="\""; char b[8]; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<32||c>126){ snprintf(b,8,"\\u%04x",c); o+=b;} else o+=c; } return o+"\""; }
static std::string locOf(const Instruction*I){ if(!I) return "?"; const DebugLoc&d=I->getDebugLoc(); if(!d) return "?"; auto*sc=cast<DIScope>(d.getScope()); return (sc->getFilename()+":"+std::to_string(d.getLine())).str(); }
static std::string stackTrace(State&s,bool full){ std::string o; int n=0; for(int i=(int)s.st.size()-1;i>=0&&n<(full?24:1);i--){ auto&f=s.st[i]; const Instruction*I=f.pc<f.f->code.size()?f.f->code[f.pc].I:nullptr; std::string l=demangle_(f.f->name)+" @ "+locOf(I); if(I&&I->getDebugLoc()) for(auto*ia=I->getDebugLoc().getInlinedAt();ia;ia=ia->getInlinedAt()) l+=" <- "+ia->getFilename().str()+":"+std::to_string(ia->getLine()); if(n) o+=" | "; o+=l; n++; } return o; }
static std::string repoWhere(State&s){ for(int i=(int)s.st.size()-1;i>=0;i--){ auto&f=s.st[i]; if(f.f->repo){ const Instruction*I=f.f->code[f.pc].I; return demangle_(f.f->name)+" @ "+locOf(I);} } return s.st.empty()?"?":demangle_(s.st.back().f->name); }
static std::string valuesOf(State&s,const Model&m){ std::string o="["; bool first=true; for(auto&r:s.syms){ if(!first) o+=","; first=false; o+="["+jstr(r.name)+",";
   if(r.bytes){ o+="\"hex\",\""; char b[4]; for(auto*e:r.e){ snprintf(b,4,"%02x",(unsigned)evalExpr(e,m)); o+=b;} o+="\"]"; } else { o+=std::to_string(r.bits)+",\""+std::to_string(evalExpr(r.e[0],m))+"\"]"; } } return o+"]"; }
static std::string logsOf(State&s,const Model&m){ std::string o="["; bool first=true; for(auto&r:s.logs){ if(!first)o+=","; first=false; o+="["+jstr(r.name)+",\""; if(r.bytes){ char b[4]; for(auto&p:r.v){ u64 x=p.first.e?evalExpr(p.first.e,m):p.first.c; snprintf(b,4,"%02x",(unsigned)(x&255)); o+=b; } } else { u64 x=r.v[0].first.e?evalExpr(r.v[0].first.e,m):r.v[0].first.c; o+=std::to_string(x);} o+="\"]"; } return o+"]"; }
static EntryStat&es(State&s){ return ES[s.entry]; }
static void incomplete(State&s,const std::string&why){ es(s).incomplete[why]++; throw PathEnd(); }
static void report(State&s,const std::string&kind,const std::string&label,ModelP m){
  std::string where=repoWhere(s); std::string key=kind+"|"+label+"|"+(kind=="check"?"":where);
  auto&v=es(s).viol; if(v.count(key)) return; Viol x; x.kind=kind;x.label=label;x.where=where;x.stack=stackTrace(s,true);x.values=valuesOf(s,*m); v[key]=x;
  if(verbose) fprintf(stderr,"[viol] %s %s %s\n   %s\n   %s\n",es(s).name.c_str(),kind.c_str(),label.c_str(),x.stack.c_str(),x.values.c_str()); }
[[noreturn]] static void fail(State&s,const std::string&kind,const std::string&label){ report(s,kind,label,s.model); es(s).partial++; throw PathEnd(); }

// ---------------------------------------------------------------- branching
static void addCons(State&s,Expr*c){ if(c->op==E_CONST) return; if(c->op==E_AND&&c->w==1){ addCons(s,c->a); addCons(s,c->b); return; } s.cons.push_back(c); }
// decide cond; may fork. Returns the value for the current state.
static bool decide(State&s,Val cv){
  if(cv.conc()) return cv.c&1; Expr*c=cv.e; bool cm=evalExpr(c,*s.model)&1; Val n=mkNot1(cv); Expr*other=cm?X(n,1):c;
  ModelP om; SRes r=solve(s.cons,other,s.model,om);
  if(r==S_UNSAT) return cm;
  if(r==S_UNKNOWN){ es(s).incomplete["solver unknown"]++; addCons(s,cm?c:X(n,1)); return cm; }
  if(work.size()<maxStates){ State*k=new State(s); addCons(*k,other); k->model=om; es(s).forks++; work.push_back(k); } else es(s).incomplete["state limit"]++;
  addCons(s,cm?c:X(n,1)); return cm; }
static bool mustBeTrue(State&s,Val cv,ModelP&cex){ if(cv.conc()){ if(cv.c&1) return true; cex=s.model; return false; } Val n=mkNot1(cv); if(n.conc()) { if(!n.c) return true; cex=s.model; return false; } SRes r=solve(s.cons,n.e,s.model,cex); if(r==S_UNKNOWN){ es(s).incomplete["solver unknown"]++; return true; } return r==S_UNSAT; }
static u64 concretize(State&s,Val v,unsigned w,bool limited=true){ if(v.conc()) return v.c&maskw(w); u64 x=evalExpr(v.e,*s.model);
  Val eq=mkEq(w,v,Val(x)); if(eq.conc()) return x; auto&f=s.st.back();
  ModelP om; SRes r=solve(s.cons,X(mkNot1(eq),1),s.model,om); if(r==S_UNSAT) return x;
  if(r==S_UNKNOWN) es(s).incomplete["solver unknown"]++;
  else { unsigned&n=s.conc[{f.f,f.pc}]; n++; if(limited&&n>concLimit) es(s).incomplete["concretization limit at "+locOf(f.f->code[f.pc].I)]++; else { State*k=new State(s); addCons(*k,X(mkNot1(eq),1)); k->model=om; es(s).forks++; work.push_back(k); } }
  addCons(s,X(eq,1)); return x; }

// ---------------------------------------------------------------- memory
static Obj* slotObj(State&s,u64 addr){ if(addr>=STACK_BASE){ return s.stackm.get((addr-STACK_BASE)>>SLOTB);} if(addr>=HEAP_BASE) return s.heap.get((addr-HEAP_BASE)>>SLOTB); return nullptr; }
static Obj* wobj(State&s,Obj*o){ PVec&pv=o->base>=STACK_BASE?s.stackm:s.heap; u64 i=(o->base-(o->base>=STACK_BASE?STACK_BASE:HEAP_BASE))>>SLOTB; Ref<Obj>&r=pv.ref(i);
  if(o->nslots==1){ if(r.p->refs>1) r=Ref<Obj>(new Obj(*r.p)); return r.p; }
  if(r.p->refs>o->nslots||true){ // multi-slot: copy when shared beyond own slots
    if(r.p->refs>o->nslots){ Ref<Obj> n(new Obj(*r.p)); for(u32 k=0;k<o->nslots;k++) pv.ref(i+k)=n; return n.p; } }
  return pv.ref(i).p; }
static Obj* allocObj(State&s,u64 size,OKind kind){ u64 n=(size+OBJOFF+OBJOFF+0xffff)>>SLOTB; if(!n) n=1; bool stk=kind==K_STACK; u64&top=stk?s.stackTop:s.heapTop; PVec&pv=stk?s.stackm:s.heap; u64 i=top; top+=n; u64 base=(stk?STACK_BASE:HEAP_BASE)+(i<<SLOTB)+OBJOFF; Obj*o=new Obj(base,size,kind); o->nslots=n; memset(o->d,0xAB,size); Ref<Obj> r(o); for(u64 k=0;k<n;k++) pv.ref(i+k)=r; return o; }
static void freeObj(State&s,Obj*o){ bool stk=o->base>=STACK_BASE; PVec&pv=stk?s.stackm:s.heap; u64 i=(o->base-(stk?STACK_BASE:HEAP_BASE))>>SLOTB; u32 n=o->nslots; for(u32 k=0;k<n;k++) pv.ref(i+k)=Ref<Obj>(); }
static void badPtr(State&s,u64 addr,u64 n,bool wr){ char b[200]; const char*k="invalid memory access"; if(addr<65536) k=addr<FUNC_BASE?"null pointer dereference":"access to code address"; else { Obj*o=slotObj(s,addr); u64 rs=(addr>=STACK_BASE?addr-STACK_BASE:addr-HEAP_BASE)>>SLOTB; if(o) k="out-of-bounds access"; else if(addr>=STACK_BASE?rs<s.stackTop+100000:rs<s.heapTop) k="use after free"; } snprintf(b,200,"%s (%s)",k,wr?"write":"read"); fail(s,"memory",b); }
// concrete address access check
static Obj* chk(State&s,u64 addr,u64 n,bool wr){ Obj*o=slotObj(s,addr); if(!o||addr<o->base||addr-o->base>o->size||n>o->size-(addr-o->base)) badPtr(s,addr,n,wr); if(wr&&o->kind==K_CONST) fail(s,"memory","write to constant memory"); return o; }
static Val loadBytes(Obj*o,u64 off,unsigned nb){ if(o->s){ bool any=false; for(unsigned i=0;i<nb;i++) if(o->s[off+i]){any=true;break;} if(any){ Val r=o->s[off+nb-1]?Val(o->s[off+nb-1]):Val((u64)o->d[off+nb-1]); unsigned w=8; for(int i=(int)nb-2;i>=0;i--){ Val b=o->s[off+i]?Val(o->s[off+i]):Val((u64)o->d[off+i]); r=mkConcat(r,w,b,8); w+=8; } return r; } }
  u64 x=0; memcpy(&x,o->d+off,nb); return Val(x); }
static void storeBytes(Obj*o,u64 off,unsigned nb,Val v){ if(v.conc()){ memcpy(o->d+off,&v.c,nb); if(o->s) for(unsigned i=0;i<nb;i++) o->s[off+i]=nullptr; } else { o->needSym(); for(unsigned i=0;i<nb;i++){ Val b=mkExtract(v,nb*8,i*8,8); if(b.conc()){ o->d[off+i]=b.c; o->s[off+i]=nullptr; } else { o->s[off+i]=b.e; o->d[off+i]=0; } } } }
static Val byteAt(Obj*o,u64 off){ return o->s&&o->s[off]?Val(o->s[off]):Val((u64)o->d[off]); }
static Expr* findPtrIte(Expr*e,int d){ if(d>6) return nullptr; if(e->op==E_ITE){ Expr*x=e->b; while(x->op==E_ADD||x->op==E_ITE) x=x->op==E_ADD?x->b:x->b; Expr*y=e->c; while(y->op==E_ADD||y->op==E_ITE) y=y->op==E_ADD?y->b:y->c; if((x->op==E_CONST&&x->v>=HEAP_BASE)||(y->op==E_CONST&&y->v>=HEAP_BASE)) return e; return nullptr; } if(e->op==E_ADD){ if(Expr*r=findPtrIte(e->a,d+1)) return r; return findPtrIte(e->b,d+1);} return nullptr; }
static Val replaceIte(Expr*e,Expr*ite,Expr*by){ if(e==ite) return Val(by); if(e->op==E_ADD) return mkBin(E_ADD,e->w,replaceIte(e->a,ite,by),replaceIte(e->b,ite,by)); return Val(e); }
// make the address either concrete, or (obj, symbolic in-bounds offset)
static Obj* resolve(State&s,Val addr,u64 n,bool wr,Val&off){
  while(!addr.conc()){ Expr*it=findPtrIte(addr.e,0); if(!it) break; bool t=decide(s,Val(it->a)); addr=replaceIte(addr.e,it,t?it->b:it->c); }
  if(addr.conc()){ Obj*o=chk(s,addr.c,n,wr); off=Val(addr.c-o->base); return o; }
  Obj*o=nullptr; if(addr.e->op==E_ADD&&addr.e->b->op==E_CONST) o=slotObj(s,addr.e->b->v); if(!o){ u64 a=evalExpr(addr.e,*s.model); o=slotObj(s,a); if(!o){ ModelP m; badPtr(s,a,n,wr);} }
  off=mkBin(E_ADD,64,addr,Val(0-o->base)); 
  if(o->size<n) badPtr(s,evalExpr(addr.e,*s.model),n,wr);
  Val inb=mkBin(E_ULE,64,off,Val(o->size-n)); ModelP cex;
  if(!mustBeTrue(s,inb,cex)){ ModelP keep=s.model; s.model=cex; std::string l=wr?"out-of-bounds access (write)":"out-of-bounds access (read)"; report(s,"memory",l,cex); s.model=keep; ModelP om; SRes r=inb.conc()?S_UNSAT:solve(s.cons,inb.e,s.model,om); if(r!=S_SAT){ es(s).partial++; throw PathEnd(); } addCons(s,inb.e); s.model=om; }
  if(wr&&o->kind==K_CONST) fail(s,"memory","write to constant memory");
  return o; }
static Val memLoad(State&s,Val addr,unsigned nb){ Val off; if(addr.conc()){ Obj*o=chk(s,addr.c,nb,false); return loadBytes(o,addr.c-o->base,nb);} Obj*o=resolve(s,addr,nb,false,off); if(off.conc()) return loadBytes(o,off.c,nb);
  u64 hi=std::min<u64>(ubound(off.e),o->size-nb); unsigned t=tz(off.e); u64 step=t<16?(1ULL<<t):1; u64 lo=0; if(off.e->op==E_ADD&&off.e->b->op==E_CONST&&off.e->b->v<=hi) { u64 ub=ubound(off.e->a); if(ub+off.e->b->v>=ub&&ub+off.e->b->v<=hi) lo=off.e->b->v; }
  if((hi-lo)/step>320){ u64 v=concretize(s,off,64); return loadBytes(o,v,nb); }
  Val r=loadBytes(o,hi-(hi%step),nb); for(u64 i=hi-(hi%step);i>=lo+step||(i>lo&&i>=step);){ i-=step; r=mkIte(mkEq(64,off,Val(i)),loadBytes(o,i,nb),r,nb*8); if(i==0) break; } return r; }
static void memStore(State&s,Val addr,unsigned nb,Val v){ Val off; Obj*o; if(addr.conc()){ o=chk(s,addr.c,nb,true); off=Val(addr.c-o->base);} else { o=resolve(s,addr,nb,true,off); if(!off.conc()){ u64 x=concretize(s,off,64); off=Val(x);} } o=wobj(s,o); storeBytes(o,off.c,nb,v); }
static u64 concPtr(State&s,Val a){ while(!a.conc()){ Expr*it=findPtrIte(a.e,0); if(!it) break; bool t=decide(s,Val(it->a)); a=replaceIte(a.e,it,t?it->b:it->c);} if(a.conc()) return a.c; return concretize(s,a,64); }
static std::string cstr(State&s,Val p){ u64 a=concPtr(s,p); std::string r; for(;;a++){ Obj*o=chk(s,a,1,false); Val b=byteAt(o,a-o->base); u64 x=b.conc()?b.c:concretize(s,b,8); if(!x) return r; r+=(char)x; if(r.size()>100000) incomplete(s,"string too long"); } }

// ---------------------------------------------------------------- constants
static u64 constAddr(const Constant*C);
static Val constVal(const Constant*C){
  if(auto*ci=dyn_cast<ConstantInt>(C)){ if(ci->getBitWidth()>64) return Val(ci->getValue().extractBitsAsZExtValue(64,0)); return Val(ci->getZExtValue()); }
  if(isa<ConstantPointerNull>(C)) return Val((u64)0);
  if(auto*fp=dyn_cast<ConstantFP>(C)) return Val(fp->getValueAPF().bitcastToAPInt().extractBitsAsZExtValue(std::min(64u,fp->getValueAPF().bitcastToAPInt().getBitWidth()),0));
  if(isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)){ if(auto*stt=dyn_cast<StructType>(C->getType())){ std::vector<Val> v; for(unsigned i=0;i<stt->getNumElements();i++) v.push_back(constVal(isa<UndefValue>(C)?(Constant*)UndefValue::get(stt->getElementType(i)):Constant::getNullValue(stt->getElementType(i)))); return mkAgg(v);} return Val((u64)0); }
  if(auto*cs=dyn_cast<ConstantStruct>(C)){ std::vector<Val> v; for(unsigned i=0;i<cs->getNumOperands();i++) v.push_back(constVal(cs->getOperand(i))); return mkAgg(v);} 
  return Val(constAddr(C)); }
static u64 constAddr(const Constant*C){
  if(auto*gv=dyn_cast<GlobalAlias>(C)) return constAddr(gv->getAliasee());
  if(auto*g=dyn_cast<GlobalValue>(C)){ auto it=gaddr.find(g); if(it==gaddr.end()){ fprintf(stderr,"no address for %s\n",g->getName().str().c_str()); return 0;} return it->second; }
  if(auto*ce=dyn_cast<ConstantExpr>(C)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { auto*go=cast<GEPOperator>(ce); APInt off(64,0); if(!go->accumulateConstantOffset(*DL,off)) break; return constVal(ce->getOperand(0)).c+off.getSExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0)).c;
      case Instruction::Sub: return constVal(ce->getOperand(0)).c-constVal(ce->getOperand(1)).c;
      case Instruction::Add: return constVal(ce->getOperand(0)).c+constVal(ce->getOperand(1)).c;
      case Instruction::Trunc: return constVal(ce->getOperand(0)).c&maskw(ce->getType()->getIntegerBitWidth());
      case Instruction::ICmp: { u64 a=constVal(ce->getOperand(0)).c,b=constVal(ce->getOperand(1)).c; return ce->getPredicate()==CmpInst::ICMP_EQ?a==b:a!=b; }
      default: break; } }
  std::string t; raw_string_ostream os(t); C->print(os); fprintf(stderr,"unsupported constant: %s\n",os.str().c_str()); return 0; }
static void writeConst(uint8_t*d,const Constant*C){ Type*T=C->getType();
  if(isa<ConstantAggregateZero>(C)||isa<UndefValue>(C)||isa<ConstantPointerNull>(C)){ memset(d,0,DL->getTypeAllocSize(T)); return; }
  if(auto*cds=dyn_cast<ConstantDataSequential>(C)){ unsigned es=cds->getElementByteSize(); for(unsigned i=0;i<cds->getNumElements();i++){ u64 x=0; if(cds->getElementType()->isIntegerTy()) x=cds->getElementAsInteger(i); else { APInt a=cds->getElementAsAPFloat(i).bitcastToAPInt(); x=a.getZExtValue(); } memcpy(d+i*es,&x,es);} return; }
  if(auto*ca=dyn_cast<ConstantArray>(C)){ u64 es=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) writeConst(d+i*es,ca->getOperand(i)); return; }
  if(auto*cs=dyn_cast<ConstantStruct>(C)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) writeConst(d+sl->getElementOffset(i),cs->getOperand(i)); return; }
  u64 x=constVal(C).c; memcpy(d,&x,DL->getTypeStoreSize(T)); }

static unsigned tw(Type*T){ if(T->isIntegerTy()) return T->getIntegerBitWidth(); if(T->isPointerTy()) return 64; if(T->isFloatTy()) return 32; if(T->isDoubleTy()) return 64; return 0; }
static bool okTy(Type*T){ unsigned w=tw(T); return w>=1&&w<=64; }

#include "builtins.inc"

// ---------------------------------------------------------------- decoding
static Func* getFunc(Function*F){ auto it=funcs.find(F); if(it!=funcs.end()) return it->second; Func*f=new Func; f->F=F; f->name=F->getName().str(); f->nargs=F->arg_size(); if(auto*sp=F->getSubprogram()){ f->file=(sp->getFile()->getDirectory()+"/"+sp->getFile()->getFilename()).str(); if(!sp->getFilename().empty()&&sp->getFilename()[0]=='/') f->file=sp->getFilename().str(); f->line=sp->getLine(); for(auto&p:repoPrefixes) if(f->file.compare(0,p.size(),p)==0) f->repo=true; } funcs[F]=f; return f; }
static void decode(Func*f){
  Function*F=f->F; std::map<const Value*,int> reg; unsigned n=0; for(auto&a:F->args()) reg[&a]=n++; for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()) reg[&I]=n++; f->nregs=n;
  auto op=[&](const Value*v)->Opnd{ Opnd o; auto it=reg.find(v); if(it!=reg.end()){ o.r=it->second; return o;} if(auto*C=dyn_cast<Constant>(v)){ Val c=constVal(C); if(c.e){ f->aggs.push_back(c); o.r=-2-(int)(f->aggs.size()-1);} else { o.r=-1; o.c=c.c; if(okTy(C->getType())) o.c&=maskw(tw(C->getType())); } return o;} o.r=-1; return o; };
  for(auto&B:*F){ f->bstart[&B]=f->code.size(); for(auto&I:B){ if(isa<PHINode>(I)) continue; if(isa<DbgInfoIntrinsic>(I)) continue; if(auto*ii=dyn_cast<IntrinsicInst>(&I)){ switch(ii->getIntrinsicID()){ case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: continue; default: break; } } f->code.push_back(Inst()); f->code.back().I=&I; } }
  auto edge=[&](const BasicBlock*from,const BasicBlock*to)->u32{ Edge e; e.toBlock=0; e.target=f->bstart[to]; for(auto&ph:to->phis()) e.phis.push_back({reg[&ph],op(ph.getIncomingValueForBlock(from))}); f->edges.push_back(e); return f->edges.size()-1; };
  for(auto&in:f->code){ const Instruction&I=*in.I; Type*T=I.getType(); in.dst=T->isVoidTy()?-1:reg[&I]; in.w=tw(T); auto unsup=[&](){ in.op=I_UNSUP; };
    switch(I.getOpcode()){
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if(!okTy(T)){unsup();break;} in.op=I_BIN; in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); in.imm=0;
        switch(I.getOpcode()){ case Instruction::Add: in.sub=E_ADD; break; case Instruction::Sub: in.sub=E_ADD; in.imm=1; break; case Instruction::Mul: in.sub=E_MUL; break; case Instruction::UDiv: in.sub=E_UDIV; break; case Instruction::SDiv: in.sub=E_SDIV; break; case Instruction::URem: in.sub=E_UREM; break; case Instruction::SRem: in.sub=E_SREM; break; case Instruction::And: in.sub=E_AND; break; case Instruction::Or: in.sub=E_OR; break; case Instruction::Xor: in.sub=E_XOR; break; case Instruction::Shl: in.sub=E_SHL; break; case Instruction::LShr: in.sub=E_LSHR; break; default: in.sub=E_ASHR; } break; }
      case Instruction::ICmp: { if(!okTy(I.getOperand(0)->getType())){unsup();break;} in.op=I_ICMP; in.w2=tw(I.getOperand(0)->getType()); in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); in.sub=cast<ICmpInst>(I).getPredicate(); break; }
      case Instruction::FCmp: { if(!okTy(I.getOperand(0)->getType())){unsup();break;} in.op=I_FCMP; in.w2=tw(I.getOperand(0)->getType()); in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); in.sub=cast<FCmpInst>(I).getPredicate(); break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: if(!okTy(T)){unsup();break;} in.op=I_FBIN; in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); in.sub=I.getOpcode()==Instruction::FAdd?E_FADD:I.getOpcode()==Instruction::FSub?E_FSUB:I.getOpcode()==Instruction::FMul?E_FMUL:E_FDIV; break;
      case Instruction::FNeg: in.op=I_FNEG; in.a=op(I.getOperand(0)); if(!okTy(T)) unsup(); break;
      case Instruction::Select: in.op=I_SELECT; in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); in.c=op(I.getOperand(2)); in.sub=T->isPointerTy(); break;
      case Instruction::ZExt: in.op=I_ZEXT; in.a=op(I.getOperand(0)); in.w2=tw(I.getOperand(0)->getType()); if(!okTy(T)||!okTy(I.getOperand(0)->getType())) unsup(); break;
      case Instruction::SExt: in.op=I_SEXT; in.a=op(I.getOperand(0)); in.w2=tw(I.getOperand(0)->getType()); if(!okTy(T)||!okTy(I.getOperand(0)->getType())) unsup(); break;
      case Instruction::Trunc: in.op=I_TRUNC; in.a=op(I.getOperand(0)); in.w2=tw(I.getOperand(0)->getType()); if(!okTy(T)||!okTy(I.getOperand(0)->getType())) unsup(); break;
      case Instruction::PtrToInt: in.op=in.w<64?I_TRUNC:I_MOV; in.w2=64; in.a=op(I.getOperand(0)); break;
      case Instruction::IntToPtr: in.op=tw(I.getOperand(0)->getType())<64?I_ZEXT:I_MOV; in.w2=tw(I.getOperand(0)->getType()); in.a=op(I.getOperand(0)); break;
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: in.op=I_MOV; in.a=op(I.getOperand(0)); break;
      case Instruction::SIToFP: in.op=I_SITOFP; in.a=op(I.getOperand(0)); in.w2=tw(I.getOperand(0)->getType()); break;
      case Instruction::UIToFP: in.op=I_UITOFP; in.a=op(I.getOperand(0)); in.w2=tw(I.getOperand(0)->getType()); break;
      case Instruction::FPToSI: in.op=I_FPTOSI; in.a=op(I.getOperand(0)); in.w2=tw(I.getOperand(0)->getType()); break;
      case Instruction::FPToUI: in.op=I_FPTOUI; in.a=op(I.getOperand(0)); in.w2=tw(I.getOperand(0)->getType()); break;
      case Instruction::FPExt: in.op=I_FPEXT; in.a=op(I.getOperand(0)); if(!okTy(T)) unsup(); break;
      case Instruction::FPTrunc: in.op=I_FPTRUNC; in.a=op(I.getOperand(0)); if(!okTy(I.getOperand(0)->getType())) unsup(); break;
      case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); in.op=I_ALLOCA; in.imm=DL->getTypeAllocSize(A.getAllocatedType()); in.a=op(A.getArraySize()); in.w2=tw(A.getArraySize()->getType()); break; }
      case Instruction::Load: if(!okTy(T)){ if(T->isStructTy()) { in.op=I_LOAD; in.ty=T; in.a=op(I.getOperand(0)); } else unsup(); break;} in.op=I_LOAD; in.a=op(I.getOperand(0)); in.imm=(in.w+7)/8; break;
      case Instruction::Store: { Type*VT=I.getOperand(0)->getType(); if(!okTy(VT)){ if(VT->isStructTy()){ in.op=I_STORE; in.ty=VT; in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); } else unsup(); break;} in.op=I_STORE; in.w2=tw(VT); in.imm=(in.w2+7)/8; in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); break; }
      case Instruction::GetElementPtr: { if(!okTy(T)){unsup();break;} in.op=I_GEP; in.a=op(I.getOperand(0)); in.imm=0; for(auto gi=gep_type_begin(I),ge=gep_type_end(I);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(auto*stt=gi.getStructTypeOrNull()){ in.imm+=DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 sc=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) in.imm+=sc*(u64)ci->getSExtValue(); else { GepPart g; g.idx=op(ix); g.w=tw(ix->getType()); g.scale=sc; in.gep.push_back(g);} } } break; }
      case Instruction::Br: { auto&B=cast<BranchInst>(I); if(B.isUnconditional()){ in.op=I_BR; in.edges.push_back(edge(I.getParent(),B.getSuccessor(0))); } else { in.op=I_CBR; in.a=op(B.getCondition()); u32 e0=edge(I.getParent(),B.getSuccessor(0)); u32 e1=edge(I.getParent(),B.getSuccessor(1)); in.edges={e0,e1}; } break; }
      case Instruction::Switch: { auto&S=cast<SwitchInst>(I); in.op=I_SWITCH; in.a=op(S.getCondition()); in.w2=tw(S.getCondition()->getType()); in.edges.push_back(edge(I.getParent(),S.getDefaultDest())); for(auto&c:S.cases()){ SwCase k; k.v=c.getCaseValue()->getZExtValue(); k.edge=edge(I.getParent(),c.getCaseSuccessor()); in.cases.push_back(k);} break; }
      case Instruction::Ret: in.op=I_RET; if(I.getNumOperands()){ in.a=op(I.getOperand(0)); in.imm=1; } break;
      case Instruction::Unreachable: in.op=I_UNREACH; break;
      case Instruction::LandingPad: { auto&L=cast<LandingPadInst>(I); in.op=I_LPAD; in.cleanup=L.isCleanup(); for(unsigned i=0;i<L.getNumClauses();i++){ LClause c; c.isCatch=L.isCatch(i); c.ti=0; if(c.isCatch){ auto*C=L.getClause(i); c.ti=isa<ConstantPointerNull>(C)?0:constAddr(C);} in.cl.push_back(c);} break; }
      case Instruction::Resume: in.op=I_RESUME; in.a=op(I.getOperand(0)); break;
      case Instruction::ExtractValue: in.op=I_EXTRACTV; in.a=op(I.getOperand(0)); for(auto k:cast<ExtractValueInst>(I).indices()) in.idx.push_back(k); break;
      case Instruction::InsertValue: in.op=I_INSERTV; in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); for(auto k:cast<InsertValueInst>(I).indices()) in.idx.push_back(k); break;
      case Instruction::Fence: in.op=I_NOP; break;
      case Instruction::AtomicRMW: { auto&A=cast<AtomicRMWInst>(I); in.op=I_RMW; in.a=op(A.getPointerOperand()); in.b=op(A.getValOperand()); in.sub=A.getOperation(); in.imm=in.w/8; break; }
      case Instruction::AtomicCmpXchg: { auto&A=cast<AtomicCmpXchgInst>(I); in.op=I_CMPXCHG; in.a=op(A.getPointerOperand()); in.b=op(A.getCompareOperand()); in.c=op(A.getNewValOperand()); in.w2=tw(A.getCompareOperand()->getType()); in.imm=in.w2/8; break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto&Cb=cast<CallBase>(I); in.op=I_CALL; in.invoke=isa<InvokeInst>(I); Function*cf=dyn_cast<Function>(Cb.getCalledOperand()->stripPointerCastsAndAliases());
        for(unsigned i=0;i<Cb.arg_size();i++){ in.args.push_back(op(Cb.getArgOperand(i))); in.aw.push_back(tw(Cb.getArgOperand(i)->getType())); in.byval.push_back(Cb.isByValArgument(i)?(u64)DL->getTypeAllocSize(Cb.getParamByValType(i)):0); }
        if(in.invoke){ auto&iv=cast<InvokeInst>(I); u32 e0=edge(I.getParent(),iv.getNormalDest()); u32 e1=edge(I.getParent(),iv.getUnwindDest()); in.edges={e0,e1}; }
        if(cf&&cf->isIntrinsic()){ unsigned w0=in.args.empty()?0:in.aw[0];
          switch(cf->getIntrinsicID()){
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: in.op=I_MEMCPY; break; case Intrinsic::memset: in.op=I_MEMSET; break;
            case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { auto id=cf->getIntrinsicID(); in.op=I_MINMAX; in.sub=id==Intrinsic::umin?0:id==Intrinsic::umax?1:id==Intrinsic::smin?2:3; break; }
            case Intrinsic::uadd_with_overflow: in.op=I_OVF; in.sub=0; in.w=w0; break; case Intrinsic::usub_with_overflow: in.op=I_OVF; in.sub=1; in.w=w0; break; case Intrinsic::umul_with_overflow: in.op=I_OVF; in.sub=2; in.w=w0; break;
            case Intrinsic::sadd_with_overflow: in.op=I_OVF; in.sub=3; in.w=w0; break; case Intrinsic::ssub_with_overflow: in.op=I_OVF; in.sub=4; in.w=w0; break; case Intrinsic::smul_with_overflow: in.op=I_OVF; in.sub=5; in.w=w0; break;
            case Intrinsic::uadd_sat: in.op=I_SAT; in.sub=0; break; case Intrinsic::usub_sat: in.op=I_SAT; in.sub=1; break;
            case Intrinsic::abs: in.op=I_ABS; break; case Intrinsic::ctlz: in.op=I_CTLZ; break; case Intrinsic::cttz: in.op=I_CTTZ; break; case Intrinsic::ctpop: in.op=I_CTPOP; break; case Intrinsic::bswap: in.op=I_BSWAP; break;
            case Intrinsic::fshl: in.op=I_FSH; in.sub=0; break; case Intrinsic::fshr: in.op=I_FSH; in.sub=1; break; case Intrinsic::assume: in.op=I_NOP; break; case Intrinsic::expect: in.op=I_MOV; in.a=in.args[0]; break;
            case Intrinsic::eh_typeid_for: in.op=I_TYPEID; break; case Intrinsic::vastart: in.op=I_VASTART; break; case Intrinsic::vaend: in.op=I_NOP; break; case Intrinsic::vacopy: in.op=I_VACOPY; break; case Intrinsic::trap: in.op=I_TRAP; break; case Intrinsic::objectsize: in.op=I_OBJSIZE; break; case Intrinsic::fabs: in.op=I_FABS; break; case Intrinsic::is_constant: in.op=I_ISCONST; break; case Intrinsic::stacksave: in.op=I_ISCONST; break; case Intrinsic::stackrestore: in.op=I_NOP; break;
            default: in.op=I_UNSUP; }
          if((in.op==I_MINMAX||in.op==I_ABS||in.op==I_SAT||in.op==I_CTLZ||in.op==I_BSWAP)&&!okTy(T)) in.op=I_UNSUP;
        } else { if(cf){ auto rd=redirects.find(cf->getName().str()); if(rd!=redirects.end()) if(Function*t=M->getFunction(rd->second)) if(!t->isDeclaration()&&t->arg_size()==cf->arg_size()) cf=t; } in.callee=cf; if(cf){ auto bi=builtinIds.find(cf->getName().str()); if(bi!=builtinIds.end()) in.builtin=bi->second; else if(cf->isDeclaration()) in.builtin=-2; } else in.a=op(Cb.getCalledOperand()); }
        break; }
      default: unsup();
    } }
  f->decoded=true; }

// ---------------------------------------------------------------- execution
static inline Val rd(const Frame&f,const Opnd&o){ if(o.r>=0) return f.r[o.r]; if(o.r==-1) return Val(o.c); return f.f->aggs[-2-o.r]; }
static void take(Frame&f,u32 ei){ Edge&e=f.f->edges[ei]; if(!e.phis.empty()){ if(e.phis.size()==1) f.r[e.phis[0].first]=rd(f,e.phis[0].second); else { Val tmp[64]; std::vector<Val> big; Val*t=tmp; if(e.phis.size()>64){ big.resize(e.phis.size()); t=big.data(); } for(size_t i=0;i<e.phis.size();i++) t[i]=rd(f,e.phis[i].second); for(size_t i=0;i<e.phis.size();i++) f.r[e.phis[i].first]=t[i]; } } f.pc=e.target; }
static void popFrame(State&s){ Frame&f=s.st.back(); while(s.stackTop>f.stack0){ s.stackTop--; s.stackm.ref(s.stackTop)=Ref<Obj>(); } s.st.pop_back(); }
static void pushFrame(State&s,Function*F,const std::vector<Val>&args,const Inst*ci){ Func*f=getFunc(F); if(!f->decoded) decode(f); f->hits++; if(s.st.size()>3000) fail(s,"crash","stack overflow (call depth)"); Frame fr; fr.f=f; fr.r.resize(f->nregs); fr.stack0=s.stackTop; fr.pc=0;
  for(unsigned i=0;i<args.size();i++){ Val v=args[i]; if(ci&&i<ci->byval.size()&&ci->byval[i]){ u64 n=ci->byval[i]; u64 a=concPtr(s,v); Obj*src=chk(s,a,n,false); Obj*o=allocObj(s,n,K_STACK); for(u64 k=0;k<n;k++){ Val b=byteAt(src,a-src->base+k); storeBytes(o,k,1,b);} v=Val(o->base); } if(i<f->nargs) fr.r[i]=v; else { unsigned w=ci&&i<ci->aw.size()?ci->aw[i]:64; fr.va.push_back({v,w}); } }
  s.st.push_back(std::move(fr)); }
static void finishCall(State&s,Val rv){ Frame&f=s.st.back(); const Inst&in=f.f->code[f.pc]; if(in.dst>=0) f.r[in.dst]=rv; if(in.invoke) take(f,in.edges[0]); else f.pc++; }
static bool tiMatch(State&s,u64 thrown,u64 want,int d=0){ if(!want||thrown==want) return true; if(d>20||!thrown) return false; Obj*o=slotObj(s,thrown); if(!o) return false; u64 vt=0; memcpy(&vt,o->d+(thrown-o->base),8); 
  static u64 vsi=0,vvmi=0; if(!vsi){ if(auto*g=M->getNamedValue("_ZTVN10__cxxabiv120__si_class_type_infoE")) vsi=gaddr[g]+16; if(auto*g=M->getNamedValue("_ZTVN10__cxxabiv121__vmi_class_type_infoE")) vvmi=gaddr[g]+16; }
  u64 off=thrown-o->base; if(vt==vsi&&vsi){ u64 b; memcpy(&b,o->d+off+16,8); return tiMatch(s,b,want,d+1);} if(vt==vvmi&&vvmi){ u32 n; memcpy(&n,o->d+off+20,4); for(u32 i=0;i<n;i++){ u64 b; memcpy(&b,o->d+off+24+i*16,8); if(tiMatch(s,b,want,d+1)) return true; } } 
  // same name = same type
  Obj*w=slotObj(s,want); if(w){ u64 n1,n2; memcpy(&n1,o->d+off+8,8); memcpy(&n2,w->d+(want-w->base)+8,8); if(n1==n2) return true; }
  return false; }
static unsigned typeId(u64 ti){ auto it=typeIds.find(ti); if(it!=typeIds.end()) return it->second; unsigned n=typeIds.size()+1; typeIds[ti]=n; return n; }
static std::string tiName(State&s,u64 ti){ for(auto&p:gaddr) if(p.second==ti) return demangle_(p.first->getName().str()); return "?"; }
// unwind from the top frame (which contains the throwing call instruction)
static void unwind(State&s,u64 ex,bool fromTop){
  ExcInfo&xi=s.exc[ex];
  for(;;){ if(s.st.empty()) { throw PathEnd(); }
    Frame&f=s.st.back(); const Inst&in=f.f->code[f.pc];
    if(in.op==I_CALL&&in.invoke){ Edge&e=f.f->edges[in.edges[1]]; const Inst&lp=f.f->code[e.target]; if(lp.op==I_LPAD){ unsigned sel=0; bool hit=false; for(auto&c:lp.cl){ if(c.isCatch&&tiMatch(s,xi.ti,c.ti)){ sel=c.ti?typeId(c.ti):typeId(0); hit=true; break; } }
        if(hit||lp.cleanup){ take(f,in.edges[1]); f.r[lp.dst]=mkAgg({Val(ex),Val((u64)sel)}); f.pc++; return; } } }
    if(s.st.size()==1) fail(s,"exception","uncaught exception of type "+tiName(s,xi.ti));
    popFrame(s); } }
static Val fcmp(unsigned pred,unsigned w,Val a,Val b){
  unsigned mant=w==32?23:52; u64 expm=w==32?0xffULL:0x7ffULL; u64 absm=maskw(w-1);
  if(a.conc()&&b.conc()){ double x,y; if(w==32){ float p,q; u32 i=a.c,j=b.c; memcpy(&p,&i,4); memcpy(&q,&j,4); x=p;y=q;} else { memcpy(&x,&a.c,8); memcpy(&y,&b.c,8);} bool uno=x!=x||y!=y; bool r; switch(pred&7){ case 0: r=false; break; case 1: r=x==y; break; case 2: r=x>y; break; case 3: r=x>=y; break; case 4: r=x<y; break; case 5: r=x<=y; break; case 6: r=x!=y&&!uno; break; default: r=!uno; } if(pred&8) { if(pred==CmpInst::FCMP_UNO) r=uno; else if(pred==CmpInst::FCMP_TRUE) r=true; else { bool o; switch(pred){ case CmpInst::FCMP_UEQ:o=x==y;break; case CmpInst::FCMP_UGT:o=x>y;break; case CmpInst::FCMP_UGE:o=x>=y;break; case CmpInst::FCMP_ULT:o=x<y;break; case CmpInst::FCMP_ULE:o=x<=y;break; default:o=x!=y;} r=uno||o; } } return Val((u64)r); }
  Val aa=mkBin(E_AND,w,a,Val(absm)),bb=mkBin(E_AND,w,b,Val(absm)); u64 inf=expm<<mant; Val uno=mkOr1(mkBin(E_ULT,w,Val(inf),aa),mkBin(E_ULT,w,Val(inf),bb));
  Val bz=mkAnd1(mkEq(w,aa,Val((u64)0)),mkEq(w,bb,Val((u64)0))); Val eq=mkAnd1(mkNot1(uno),mkOr1(mkEq(w,a,b),bz));
  auto key=[&](Val v){ Val sgn=mkExtract(v,w,w-1,1); return mkIte(sgn,mkBin(E_XOR,w,v,Val(maskw(w))),mkBin(E_OR,w,v,Val(1ULL<<(w-1))),w); };
  Val lt=mkAnd1(mkAnd1(mkNot1(uno),mkNot1(bz)),mkBin(E_ULT,w,key(a),key(b))); Val gt=mkAnd1(mkAnd1(mkNot1(uno),mkNot1(bz)),mkBin(E_ULT,w,key(b),key(a)));
  Val o; switch(pred){ case CmpInst::FCMP_FALSE: return Val((u64)0); case CmpInst::FCMP_TRUE: return Val((u64)1); case CmpInst::FCMP_OEQ: return eq; case CmpInst::FCMP_OGT: return gt; case CmpInst::FCMP_OGE: return mkOr1(gt,eq); case CmpInst::FCMP_OLT: return lt; case CmpInst::FCMP_OLE: return mkOr1(lt,eq); case CmpInst::FCMP_ONE: return mkOr1(lt,gt); case CmpInst::FCMP_ORD: return mkNot1(uno); case CmpInst::FCMP_UNO: return uno; case CmpInst::FCMP_UEQ: return mkOr1(uno,eq); case CmpInst::FCMP_UGT: return mkOr1(uno,gt); case CmpInst::FCMP_UGE: return mkOr1(uno,mkOr1(gt,eq)); case CmpInst::FCMP_ULT: return mkOr1(uno,lt); case CmpInst::FCMP_ULE: return mkOr1(uno,mkOr1(lt,eq)); default: return mkOr1(uno,mkOr1(lt,gt)); } }
static Val icmp(unsigned p,unsigned w,Val a,Val b){ switch(p){ case CmpInst::ICMP_EQ: return mkEq(w,a,b); case CmpInst::ICMP_NE: return mkNot1(mkEq(w,a,b)); case CmpInst::ICMP_UGT: return mkBin(E_ULT,w,b,a); case CmpInst::ICMP_UGE: return mkBin(E_ULE,w,b,a); case CmpInst::ICMP_ULT: return mkBin(E_ULT,w,a,b); case CmpInst::ICMP_ULE: return mkBin(E_ULE,w,a,b); case CmpInst::ICMP_SGT: return mkBin(E_SLT,w,b,a); case CmpInst::ICMP_SGE: return mkBin(E_SLE,w,b,a); case CmpInst::ICMP_SLT: return mkBin(E_SLT,w,a,b); default: return mkBin(E_SLE,w,a,b); } }
static Val neg(unsigned w,Val b){ if(b.conc()) return Val((0-b.c)&maskw(w)); return mkBin(E_MUL,w,b,Val(maskw(w))); }
static Val sub(unsigned w,Val a,Val b){ if(a.conc()&&b.conc()) return Val((a.c-b.c)&maskw(w)); if(b.conc()) return mkBin(E_ADD,w,a,neg(w,b)); return mkBin(E_ADD,w,a,neg(w,b)); }
static void endPath(State&s){ EntryStat&e=es(s); e.paths++; e.seen++; u64 h=e.seen*0x9E3779B97F4A7C15ULL; 
  if(sampleN>0){ std::string o="{\"values\":"+valuesOf(s,*s.model)+",\"logs\":"+logsOf(s,*s.model)+"}"; if((int)e.samples.size()<sampleN) e.samples.push_back(o); else { u64 k=(h>>20)%e.seen; if(k<(u64)sampleN) e.samples[k]=o; } }
  throw PathEnd(); }

static void step(State&s){
  Frame&f=s.st.back(); const Inst&in=f.f->code[f.pc]; s.ninstr++;
  switch(in.op){
    case I_BIN: { Val a=rd(f,in.a),b=rd(f,in.b); unsigned w=in.w; u64 m=maskw(w);
      if(a.conc()&&b.conc()){ u64 r; switch(in.sub){ case E_ADD: r=in.imm?a.c-b.c:a.c+b.c; break; case E_MUL: r=a.c*b.c; break; case E_AND: r=a.c&b.c; break; case E_OR: r=a.c|b.c; break; case E_XOR: r=a.c^b.c; break; default: { bool ok; r=foldBin((EOp)in.sub,w,a.c,b.c,ok); if(!ok) fail(s,"crash","division by zero"); } } f.r[in.dst]=Val(r&m); f.pc++; return; }
      if(in.sub==E_UDIV||in.sub==E_SDIV||in.sub==E_UREM||in.sub==E_SREM){ Val z=mkEq(w,b,Val((u64)0)); if(decide(s,z)) fail(s,"crash","division by zero"); }
      Frame&g=s.st.back(); if(in.imm&&in.sub==E_ADD) g.r[in.dst]=sub(w,a,b); else g.r[in.dst]=mkBin((EOp)in.sub,w,a,b); g.pc++; return; }
    case I_ICMP: f.r[in.dst]=icmp(in.sub,in.w2,rd(f,in.a),rd(f,in.b)); f.pc++; return;
    case I_FCMP: f.r[in.dst]=fcmp(in.sub,in.w2,rd(f,in.a),rd(f,in.b)); f.pc++; return;
    case I_FBIN: { Val a=rd(f,in.a),b=rd(f,in.b); if(a.conc()&&b.conc()) f.r[in.dst]=Val(evalFp(in.sub,in.w,in.w,a.c,b.c)); else f.r[in.dst]=Val(P.get(in.sub,in.w,X(a,in.w),X(b,in.w),0,0)); f.pc++; return; }
    case I_FNEG: f.r[in.dst]=mkBin(E_XOR,in.w,rd(f,in.a),Val(1ULL<<(in.w-1))); f.pc++; return;
    case I_SELECT: { Val c=rd(f,in.a); Val a=rd(f,in.b),b=rd(f,in.c); if(!c.conc()&&(in.sub||!in.w)){ bool t=decide(s,c); Frame&g=s.st.back(); g.r[in.dst]=t?a:b; g.pc++; return; } f.r[in.dst]=c.conc()?((c.c&1)?a:b):mkIte(c,a,b,in.w); f.pc++; return; }
    case I_ZEXT: f.r[in.dst]=mkZExt(rd(f,in.a),in.w2,in.w); f.pc++; return;
    case I_SEXT: f.r[in.dst]=mkSExt(rd(f,in.a),in.w2,in.w); f.pc++; return;
    case I_TRUNC: f.r[in.dst]=mkExtract(rd(f,in.a),in.w2,0,in.w); f.pc++; return;
    case I_MOV: f.r[in.dst]=rd(f,in.a); f.pc++; return;
    case I_SITOFP: case I_UITOFP: { Val a=rd(f,in.a); Expr*e=P.get(in.op==I_SITOFP?E_SITOFP:E_UITOFP,in.w,X(a,in.w2),0,0,0); f.r[in.dst]=a.conc()?Val(evalExpr(e,*s.model)):Val(e); f.pc++; return; }
    case I_FPTOSI: case I_FPTOUI: { Val a=rd(f,in.a); Expr*e=P.get(in.op==I_FPTOSI?E_FPTOSI:E_FPTOUI,in.w,X(a,in.w2),0,0,0); f.r[in.dst]=a.conc()?Val(evalExpr(e,*s.model)):Val(e); f.pc++; return; }
    case I_FPEXT: { u64 a=concretize(s,rd(f,in.a),32); float x; u32 i=a; memcpy(&x,&i,4); double d=x; u64 r; memcpy(&r,&d,8); Frame&g=s.st.back(); g.r[in.dst]=Val(r); g.pc++; return; }
    case I_FPTRUNC: { u64 a=concretize(s,rd(f,in.a),64); double d; memcpy(&d,&a,8); float x=(float)d; u32 i; memcpy(&i,&x,4); Frame&g=s.st.back(); g.r[in.dst]=Val((u64)i); g.pc++; return; }
    case I_FABS: f.r[in.dst]=mkBin(E_AND,in.w,rd(f,in.args[0]),Val(maskw(in.w-1))); f.pc++; return;
    case I_ALLOCA: { u64 n=concretize(s,rd(f,in.a),in.w2); Obj*o=allocObj(s,n*in.imm,K_STACK); Frame&g=s.st.back(); g.r[in.dst]=Val(o->base); g.pc++; return; }
    case I_LOAD: { Val a=rd(f,in.a); if(in.ty){ auto*stt=cast<StructType>(in.ty); auto*sl=DL->getStructLayout(stt); std::vector<Val> v; for(unsigned i=0;i<stt->getNumElements();i++){ unsigned w=tw(stt->getElementType(i)); if(!w) incomplete(s,"unsupported aggregate load"); v.push_back(mkExtract(memLoad(s,mkBin(E_ADD,64,a,Val((u64)sl->getElementOffset(i))),(w+7)/8),(w+7)/8*8,0,w)); } Frame&g=s.st.back(); g.r[in.dst]=mkAgg(v); g.pc++; return; }
      Val v=memLoad(s,a,in.imm); if(in.w!=in.imm*8) v=mkExtract(v,in.imm*8,0,in.w); Frame&g=s.st.back(); g.r[in.dst]=v; g.pc++; return; }
    case I_STORE: { Val v=rd(f,in.a),a=rd(f,in.b); if(in.ty){ auto*stt=cast<StructType>(in.ty); auto*sl=DL->getStructLayout(stt); Agg*g=asAgg(v); u64 p=concPtr(s,a); for(unsigned i=0;i<stt->getNumElements();i++){ unsigned w=tw(stt->getElementType(i)); if(!w||!g) incomplete(s,"unsupported aggregate store"); memStore(s,Val(p+sl->getElementOffset(i)),(w+7)/8,mkZExt(g->v[i],w,(w+7)/8*8)); } s.st.back().pc++; return; }
      if(in.w2!=in.imm*8) v=mkZExt(v,in.w2,in.imm*8); memStore(s,a,in.imm,v); s.st.back().pc++; return; }
    case I_GEP: { Val a=rd(f,in.a); if(in.imm) a=a.conc()?Val(a.c+in.imm):mkBin(E_ADD,64,a,Val(in.imm)); for(auto&g:in.gep){ Val i=rd(f,g.idx); if(g.w<64) i=mkSExt(i,g.w,64); if(g.scale!=1) i=i.conc()?Val(i.c*g.scale):mkBin(E_MUL,64,i,Val(g.scale)); a=(a.conc()&&i.conc())?Val(a.c+i.c):mkBin(E_ADD,64,a,i); } f.r[in.dst]=a; f.pc++; return; }
    case I_BR: take(f,in.edges[0]); return;
    case I_CBR: { Val c=rd(f,in.a); bool t=decide(s,c); take(s.st.back(),in.edges[t?0:1]); return; }
    case I_SWITCH: { Val v=rd(f,in.a); if(v.conc()){ for(auto&c:in.cases) if(c.v==v.c){ take(f,c.edge); return; } take(f,in.edges[0]); return; }
      // group cases by target
      std::map<u32,Val> byT; std::map<u32,u32> eOf; std::vector<u32> order; for(auto&c:in.cases){ u32 key=f.f->edges[c.edge].target; if(!f.f->edges[c.edge].phis.empty()) key=0x80000000u|c.edge; Val q=mkEq(in.w2,v,Val(c.v)); auto it=byT.find(key); if(it==byT.end()){ byT[key]=q; eOf[key]=c.edge; order.push_back(key);} else it->second=mkOr1(it->second,q); }
      for(auto k:order) if(decide(s,byT[k])){ take(s.st.back(),eOf[k]); return; } take(s.st.back(),in.edges[0]); return; }
    case I_RET: { Val rv; if(in.imm) rv=rd(f,in.a); popFrame(s); if(s.st.empty()) endPath(s); finishCall(s,rv); return; }
    case I_UNREACH: fail(s,"crash","unreachable code reached");
    case I_TRAP: fail(s,"crash","trap");
    case I_LPAD: incomplete(s,"landingpad"); return;
    case I_RESUME: { Val v=rd(f,in.a); Agg*g=asAgg(v); u64 ex=g->v[0].c; if(s.st.size()==1) fail(s,"exception","uncaught exception of type "+tiName(s,s.exc[ex].ti)); popFrame(s); unwind(s,ex,false); return; }
    case I_EXTRACTV: { Val v=rd(f,in.a); for(auto k:in.idx){ Agg*g=asAgg(v); if(!g) incomplete(s,"extractvalue"); Val t=g->v[k]; v=t; } f.r[in.dst]=v; f.pc++; return; }
    case I_INSERTV: { Val v=rd(f,in.a); Agg*g=asAgg(v); if(!g||in.idx.size()!=1) incomplete(s,"insertvalue"); std::vector<Val> n=g->v; n[in.idx[0]]=rd(f,in.b); f.r[in.dst]=mkAgg(n); f.pc++; return; }
    case I_NOP: f.pc++; return;
    case I_RMW: { Val a=rd(f,in.a),v=rd(f,in.b); Val o=memLoad(s,a,in.imm); Val n; switch(in.sub){ case AtomicRMWInst::Add: n=mkBin(E_ADD,in.w,o,v); break; case AtomicRMWInst::Sub: n=sub(in.w,o,v); break; case AtomicRMWInst::Xchg: n=v; break; case AtomicRMWInst::Or: n=mkBin(E_OR,in.w,o,v); break; case AtomicRMWInst::And: n=mkBin(E_AND,in.w,o,v); break; default: incomplete(s,"atomicrmw"); } memStore(s,a,in.imm,n); Frame&g=s.st.back(); g.r[in.dst]=o; g.pc++; return; }
    case I_CMPXCHG: { Val a=rd(f,in.a); Val o=memLoad(s,a,in.imm); bool eq=decide(s,mkEq(in.w2,o,rd(s.st.back(),in.b))); if(eq) memStore(s,a,in.imm,rd(s.st.back(),in.c)); Frame&g=s.st.back(); g.r[in.dst]=mkAgg({o,Val((u64)eq)}); g.pc++; return; }
    case I_MEMCPY: { Val d=rd(f,in.args[0]),sr=rd(f,in.args[1]),n=rd(f,in.args[2]); doMemcpy(s,d,sr,n,in.aw[2]); s.st.back().pc++; return; }
    case I_MEMSET: { Val d=rd(f,in.args[0]),v=rd(f,in.args[1]),n=rd(f,in.args[2]); doMemset(s,d,v,n,in.aw[2]); s.st.back().pc++; return; }
    case I_MINMAX: { Val a=rd(f,in.args[0]),b=rd(f,in.args[1]); Val lt=mkBin(in.sub<2?E_ULT:E_SLT,in.w,a,b); f.r[in.dst]=(in.sub&1)?mkIte(lt,b,a,in.w):mkIte(lt,a,b,in.w); f.pc++; return; }
    case I_OVF: { Val a=rd(f,in.args[0]),b=rd(f,in.args[1]); unsigned w=in.w; Val r,o; 
      if(in.sub==0){ r=mkBin(E_ADD,w,a,b); o=mkBin(E_ULT,w,r,a);} else if(in.sub==1){ r=sub(w,a,b); o=mkBin(E_ULT,w,a,b);} else if(in.sub==3||in.sub==4){ r=in.sub==3?mkBin(E_ADD,w,a,b):sub(w,a,b); Val sa=mkExtract(a,w,w-1,1),sb=mkExtract(b,w,w-1,1),sr=mkExtract(r,w,w-1,1); Val x=mkNot1(mkBin(E_XOR,1,sa,sb)); if(in.sub==4) x=mkBin(E_XOR,1,sa,sb); o=mkAnd1(x,mkBin(E_XOR,1,sa,sr)); }
      else { if(w<=32){ Val p=in.sub==2?mkBin(E_MUL,2*w,mkZExt(a,w,2*w),mkZExt(b,w,2*w)):mkBin(E_MUL,2*w,mkSExt(a,w,2*w),mkSExt(b,w,2*w)); r=mkExtract(p,2*w,0,w); Val back=in.sub==2?mkZExt(r,w,2*w):mkSExt(r,w,2*w); o=mkNot1(mkEq(2*w,back,p)); }
        else { u64 x=concretize(s,a,w),y=concretize(s,b,w); if(in.sub==2){ unsigned __int128 p=(unsigned __int128)x*y; r=Val((u64)p&maskw(w)); o=Val((u64)((p>>w)!=0)); } else { __int128 p=(__int128)sx(x,w)*sx(y,w); r=Val((u64)p&maskw(w)); o=Val((u64)(p!=(__int128)sx((u64)p,w))); } } }
      Frame&g=s.st.back(); g.r[in.dst]=mkAgg({r,o}); g.pc++; return; }
    case I_SAT: { Val a=rd(f,in.args[0]),b=rd(f,in.args[1]); if(in.sub){ Val lt=mkBin(E_ULT,in.w,a,b); f.r[in.dst]=mkIte(lt,Val((u64)0),sub(in.w,a,b),in.w);} else { Val r=mkBin(E_ADD,in.w,a,b); f.r[in.dst]=mkIte(mkBin(E_ULT,in.w,r,a),Val(maskw(in.w)),r,in.w);} f.pc++; return; }
    case I_ABS: { Val a=rd(f,in.args[0]); f.r[in.dst]=mkIte(mkBin(E_SLT,in.w,a,Val((u64)0)),neg(in.w,a),a,in.w); f.pc++; return; }
    case I_CTLZ: case I_CTTZ: { Val a=rd(f,in.args[0]); unsigned w=in.w; if(a.conc()){ u64 r=a.c?(in.op==I_CTLZ?__builtin_clzll(a.c)-(64-w):__builtin_ctzll(a.c)):w; f.r[in.dst]=Val(r);} else { Val r((u64)w); for(unsigned k=0;k<w;k++){ unsigned bit=in.op==I_CTLZ?k:w-1-k; r=mkIte(mkExtract(a,w,bit,1),Val((u64)(in.op==I_CTLZ?w-1-bit:bit)),r,w);} f.r[in.dst]=r; } f.pc++; return; }
    case I_CTPOP: { Val a=rd(f,in.args[0]); Val r((u64)0); for(unsigned k=0;k<in.w;k++) r=mkBin(E_ADD,in.w,r,mkZExt(mkExtract(a,in.w,k,1),1,in.w)); f.r[in.dst]=r; f.pc++; return; }
    case I_BSWAP: { Val a=rd(f,in.args[0]); unsigned w=in.w; Val r=mkExtract(a,w,0,8); unsigned cw=8; for(unsigned k=8;k<w;k+=8){ r=mkConcat(r,cw,mkExtract(a,w,k,8),8); cw+=8;} f.r[in.dst]=r; f.pc++; return; }
    case I_FSH: { Val a=rd(f,in.args[0]),b=rd(f,in.args[1]),c=rd(f,in.args[2]); unsigned w=in.w; u64 k=concretize(s,c,w)%w; Val r; if(in.sub==0) r=k?mkBin(E_OR,w,mkBin(E_SHL,w,a,Val(k)),mkBin(E_LSHR,w,b,Val(w-k))):a; else r=k?mkBin(E_OR,w,mkBin(E_SHL,w,a,Val(w-k)),mkBin(E_LSHR,w,b,Val(k))):b; Frame&g=s.st.back(); g.r[in.dst]=r; g.pc++; return; }
    case I_TYPEID: f.r[in.dst]=Val((u64)typeId(rd(f,in.args[0]).c)); f.pc++; return;
    case I_VASTART: { u64 ap=concPtr(s,rd(f,in.args[0])); Frame&g=s.st.back(); u64 n=g.va.size(); Obj*o=allocObj(s,n*8+8,K_STACK); for(u64 i=0;i<n;i++) storeBytes(o,i*8,8,mkZExt(g.va[i].first,g.va[i].second,64)); u64 base=o->base; memStore(s,Val(ap),4,Val((u64)48)); memStore(s,Val(ap+4),4,Val((u64)304)); memStore(s,Val(ap+8),8,Val(base)); memStore(s,Val(ap+16),8,Val((u64)0)); s.st.back().pc++; return; }
    case I_VACOPY: { doMemcpy(s,rd(f,in.args[0]),rd(f,in.args[1]),Val((u64)24),64); s.st.back().pc++; return; }
    case I_OBJSIZE: f.r[in.dst]=Val(rd(f,in.args[1]).c?(u64)0:maskw(in.w)); f.pc++; return;
    case I_ISCONST: f.r[in.dst]=Val((u64)0); f.pc++; return;
    case I_CALL: {
      Function*cf=in.callee; int bi=in.builtin; std::vector<Val> args; args.reserve(in.args.size());
      if(!cf){ u64 a=concPtr(s,rd(f,in.a)); auto it=funcByAddr.find(a); if(it==funcByAddr.end()) fail(s,"memory",a<65536?"call through null or invalid function pointer":"call through invalid function pointer"); cf=it->second; auto b=builtinIds.find(cf->getName().str()); bi=b!=builtinIds.end()?b->second:(cf->isDeclaration()?-2:-1); }
      Frame&g=s.st.back(); for(auto&o:in.args) args.push_back(rd(g,o));
      if(bi==-1){ pushFrame(s,cf,args,&in); return; }
      if(bi==-2) incomplete(s,"call of unmodelled function "+demangle_(cf->getName().str()));
      Val rv; if(callBuiltin(s,bi,args,in,rv)) finishCall(s,rv); return; }
    case I_UNSUP: { std::string t; raw_string_ostream os(t); in.I->print(os); incomplete(s,"unsupported instruction "+os.str()); return; }
    default: incomplete(s,"unsupported op"); return;
  } }

static double deadline; static int myId=0;
static bool timeUp(){ return nowS()>deadline; }
static void runState(State*s){
  cur=s; try { u64 k=0; for(;;){ step(*s); if((++k&4095)==0){ totInstr+=4096; if(timeUp()){ es(*s).incomplete["time limit"]++; break; } if(s->ninstr>maxPathInstr){ fail(*s,"hang","path instruction limit reached (possible non-termination)"); } } } } catch(PathEnd&){ }
  delete s; }

// ---------------------------------------------------------------- set-up
static State* initState(){
  State*s=new State; u64 fa=FUNC_BASE; for(auto&F:*M){ gaddr[&F]=fa; funcByAddr[fa]=&F; fa+=16; }
  std::vector<std::pair<GlobalVariable*,Obj*>> gl;
  for(auto&G:M->globals()){ u64 sz=G.getValueType()->isSized()?(u64)DL->getTypeAllocSize(G.getValueType()):8; if(G.isDeclaration()&&sz<64) sz=64; Obj*o=allocObj(*s,sz,K_GLOBAL); memset(o->d,0,sz); o->name=strdup(G.getName().str().c_str()); gaddr[&G]=o->base; gl.push_back({&G,o}); }
  for(auto&p:gl) if(p.first->hasInitializer()) writeConst(p.second->d,p.first->getInitializer());
  for(auto&p:gl) if(p.first->isConstant()) p.second->kind=K_CONST;
  s->model=newModel(nullptr);
  if(auto*g=M->getGlobalVariable("llvm.global_ctors")){ if(auto*ca=dyn_cast<ConstantArray>(g->getInitializer())){ std::vector<std::pair<u64,Function*>> fs; for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),cast<Function>(cs->getOperand(1)->stripPointerCasts())}); } std::stable_sort(fs.begin(),fs.end(),[](auto&a,auto&b){return a.first<b.first;});
      for(auto&p:fs){ pushFrame(*s,p.second,{},nullptr); try { for(;;) step(*s); } catch(PathEnd&){ ES[0].paths=0; ES[0].seen=0; ES[0].samples.clear(); if(!ES[0].viol.empty()||!ES[0].incomplete.empty()) { fprintf(stderr,"global constructor failed: %s\n",p.second->getName().str().c_str()); for(auto&i:ES[0].incomplete) fprintf(stderr,"  %s\n",i.first.c_str()); for(auto&v:ES[0].viol) fprintf(stderr,"  %s\n",v.second.stack.c_str()); } } } } }
  ES[0].viol.clear(); ES[0].incomplete.clear();
  // a variable belongs to the code under test if only its functions (and constructors of globals) use it
  for(auto&p:gl) if(!p.first->isConstant()&&p.first->hasInitializer()){ bool mine=false,other=false; std::set<Value*> seen; std::vector<Value*> q(1,p.first); while(!q.empty()){ Value*v=q.back(); q.pop_back(); for(auto*u:v->users()) if(seen.insert(u).second){ if(auto*I=dyn_cast<Instruction>(u)){ Function*F=const_cast<Function*>(I->getFunction()); if(getFunc(F)->repo) mine=true; else if(F->getName().find("__cxx_global_var_init")==StringRef::npos&&F->getName().find("_GLOBAL__")==StringRef::npos) other=true; } else if(isa<Constant>(u)&&!isa<GlobalValue>(u)) q.push_back(u); } } if(mine&&!other) repoGlobals.push_back(p.second->base); }
  globals=s->heap;
  return s; }

static std::string dumpJson(){ std::string o="{\"entries\":{"; bool f1=true; for(auto&e:ES){ if(!f1)o+=","; f1=false; o+=jstr(e.name)+":{\"paths\":"+std::to_string(e.paths)+",\"partial\":"+std::to_string(e.partial)+",\"forks\":"+std::to_string(e.forks)+",\"checks\":"+std::to_string(e.checks)+",\"covers\":{"; bool g=true; for(auto&c:e.covers){ if(!g)o+=","; g=false; o+=jstr(c.first)+":"+std::to_string(c.second);} o+="},\"labels\":{"; g=true; for(auto&c:e.checkLabels){ if(!g)o+=","; g=false; o+=jstr(c.first)+":"+std::to_string(c.second);} o+="},\"incomplete\":{"; g=true; for(auto&c:e.incomplete){ if(!g)o+=","; g=false; o+=jstr(c.first)+":"+std::to_string(c.second);} o+="},\"violations\":["; g=true; for(auto&v:e.viol){ if(!g)o+=","; g=false; o+="{\"kind\":"+jstr(v.second.kind)+",\"label\":"+jstr(v.second.label)+",\"where\":"+jstr(v.second.where)+",\"stack\":"+jstr(v.second.stack)+",\"values\":"+v.second.values+"}"; } o+="],\"samples\":["; g=true; for(auto&x:e.samples){ if(!g)o+=","; g=false; o+=x; } o+="]}"; }
  o+="},\"functions\":{"; bool g=true; for(auto&p:funcs) if(p.second->hits&&p.second->repo){ if(!g)o+=","; g=false; o+=jstr(p.second->file+":"+std::to_string(p.second->line)+" "+demangle_(p.second->name))+":"+std::to_string(p.second->hits); }
  char b[400]; snprintf(b,400,"},\"solver\":{\"queries\":%lu,\"z3calls\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"modelHits\":%lu,\"cacheHits\":%lu,\"byteDecisions\":%lu,\"z3time\":%.3f},\"instructions\":%lu,\"wall\":%.2f}",SS.queries,SS.z3calls,SS.sat,SS.unsat,SS.unknown,SS.modelHits,SS.cacheHits,SS.byteDec,SS.z3time,totInstr,nowS()-tStart); o+=b; return o; }

// Work is shared by forking: a process with spare states hands half of them to a new process while fewer than --jobs are running.
struct Shm { std::atomic<int> running; std::atomic<int> ids; }; static Shm*shm; static std::string gPrefix; static std::map<pid_t,std::pair<int,std::map<std::string,int>>> kids;
static void writeOut(int id){ std::ofstream f(gPrefix+"."+std::to_string(id)+".tmp"); f<<dumpJson(); f.close(); rename((gPrefix+"."+std::to_string(id)+".tmp").c_str(),(gPrefix+"."+std::to_string(id)+".json").c_str()); }
static void reap(bool block){ while(!kids.empty()){ int st; pid_t p=waitpid(-1,&st,block?0:WNOHANG); if(p<=0) return; auto it=kids.find(p); if(it==kids.end()) continue; if(!WIFEXITED(st)||WEXITSTATUS(st)){ if(WIFSIGNALED(st)) shm->running--; std::ofstream f(gPrefix+"."+std::to_string(it->second.first)+".json"); f<<"{\"crashed\":"<<st<<",\"pending\":{"; bool g=true; for(auto&q:it->second.second){ if(!g) f<<","; g=false; f<<jstr(q.first)<<":"<<q.second; } f<<"}}"; } kids.erase(it); } }
static void share(){ while(work.size()>=2&&shm->running<(int)jobs){ reap(false); if(shm->running.fetch_add(1)>=(int)jobs){ shm->running--; return; } int id=++shm->ids; size_t half=work.size()/2; std::map<std::string,int> pend; fflush(stdout); fflush(stderr);
    // hand over every second state so that both parts hold shallow and deep ones
    std::deque<State*> mine,theirs; for(size_t i=0;i<work.size();i++) (i%2==0&&theirs.size()<half?theirs:mine).push_back(work[i]); for(auto*s:theirs) pend[es(*s).name]++;
    pid_t p=fork(); if(p<0){ shm->running--; return; }
    if(p==0){ kids.clear(); work=theirs; for(auto&e:ES){ std::string n=e.name; u64 seen=e.seen; e=EntryStat(); e.name=n; e.seen=seen; } for(auto&f:funcs) f.second->hits=0; SS=SolverStats(); totInstr=0; tStart=nowS(); myId=id; continue; }
    kids[p]={id,pend}; for(auto*s:theirs) delete s; work=mine; } }
static void drain(bool top){ bool bfs=true; u64 rounds=0; while(!work.empty()&&!timeUp()){ State*s; if(bfs&&myId==0&&work.size()<jobs*12&&rounds++<4000){ s=work.front(); work.pop_front(); } else { bfs=false; s=work.back(); work.pop_back(); } runState(s); if(!bfs||myId) share(); }
  for(auto*s:work) es(*s).incomplete["time limit"]++; writeOut(myId); shm->running--; reap(true); if(myId) _exit(0); }

int main(int argc,char**argv){
  { rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(4ULL<<30)&&!getenv("GSYM_REEXEC")){ rl.rlim_cur=rl.rlim_max==RLIM_INFINITY?(4ULL<<30):rl.rlim_max; if(setrlimit(RLIMIT_STACK,&rl)==0){ setenv("GSYM_REEXEC","1",1); execv("/proc/self/exe",argv); } } }
  tStart=nowS(); std::string bc,outPrefix="gsym.out"; unsigned to=20000; 
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&](){ return std::string(argv[++i]); };
    if(a=="--entries"){ std::stringstream ss(nx()); std::string t; while(getline(ss,t,',')) entryNames.push_back(t); }
    else if(a=="--time") timeLimit=atof(nx().c_str()); else if(a=="--out") outPrefix=nx(); else if(a=="--jobs") jobs=atoi(nx().c_str()); else if(a=="--param"){ std::string t=nx(); auto p=t.find('='); params[t.substr(0,p)]=strtoull(t.c_str()+p+1,0,10);} else if(a=="--redirect"){ std::string t=nx(); auto p=t.find('='); redirects[t.substr(0,p)]=t.substr(p+1); } else if(a=="--pin"){ std::string t=nx(); auto p=t.find('='); pins[t.substr(0,p)]=strtoull(t.c_str()+p+1,0,10);} 
    else if(a=="--repo") repoPrefixes.push_back(nx()); else if(a=="--samples") sampleN=atoi(nx().c_str()); else if(a=="--max-instr") maxPathInstr=strtoull(nx().c_str(),0,10); else if(a=="-v") verbose=true; else if(a=="--solver-timeout") to=atoi(nx().c_str()); else if(a=="--prop") onlyProp=nx(); else if(a=="--conc") concLimit=atoi(nx().c_str()); else bc=a; }
  LLVMContext ctx; SMDiagnostic err; M=parseIRFile(bc,err,ctx); if(!M){ err.print("gsym",errs()); return 2; } DL=&M->getDataLayout();
  initBuiltins(); solverInit(to); deadline=tStart+timeLimit;
  for(auto&n:entryNames){ ES.push_back(EntryStat()); ES.back().name=n; }
  State*base=initState();
  for(size_t i=0;i<entryNames.size();i++){ Function*F=M->getFunction(entryNames[i]); if(!F||F->isDeclaration()){ fprintf(stderr,"no entry %s\n",entryNames[i].c_str()); return 2; } State*s=new State(*base); s->entry=i; s->ninstr=0; pushFrame(*s,F,{},nullptr); work.push_back(s); }
  shm=(Shm*)mmap(nullptr,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); shm->running=1; shm->ids=0; gPrefix=outPrefix;
  drain(true);
  fflush(stdout); _exit(0);
}
