// Runtime functions implemented inside the engine.
static void pushFrame(State&s,Function*F,const std::vector<Val>&args,const Inst*ci);
static void unwind(State&s,u64 ex,bool fromTop);
static void finishCall(State&s,Val rv);
static void popFrame(State&s);
[[noreturn]] static void endPath(State&s);

static void doMemcpy(State&s,Val d,Val sr,Val nv,unsigned nw){
  u64 n=concretize(s,nv,nw); if(!n) return; u64 dp=concPtr(s,d),sp=concPtr(s,sr);
  Obj*so=chk(s,sp,n,false); Obj*dq=chk(s,dp,n,true); (void)dq; Obj*dob=wobj(s,slotObj(s,dp)); so=slotObj(s,sp); u64 so_=sp-so->base,do_=dp-dob->base;
  memmove(dob->d+do_,so->d+so_,n);
  if(so->s){ dob->needSym(); memmove(dob->s+do_,so->s+so_,n*sizeof(Expr*)); } else if(dob->s) memset(dob->s+do_,0,n*sizeof(Expr*)); }
static void doMemset(State&s,Val d,Val v,Val nv,unsigned nw){
  u64 n=concretize(s,nv,nw); if(!n) return; u64 dp=concPtr(s,d); chk(s,dp,n,true); Obj*o=wobj(s,slotObj(s,dp)); u64 off=dp-o->base; Val b=(v.e&&v.e->w==8)?v:mkExtract(v,32,0,8);
  if(v.conc()){ memset(o->d+off,(int)(v.c&255),n); if(o->s) memset(o->s+off,0,n*sizeof(Expr*)); } else { o->needSym(); for(u64 i=0;i<n;i++) o->s[off+i]=b.e; } }

enum BI { B_MALLOC,B_CALLOC,B_REALLOC,B_FREE,B_NEW,B_NEWARR,B_NEWNT,B_DEL,B_DELARR,B_MEMCPY,B_MEMSET,B_MEMCMP,B_BCMP,B_MEMCHR,B_STRLEN,B_STRCMP,B_STRNCMP,
  B_CXA_ALLOC,B_CXA_FREE,B_CXA_THROW,B_CXA_RETHROW,B_CXA_BEGIN,B_CXA_END,B_CXA_GETPTR,B_RET0,B_GUARD_ACQ,B_GUARD_REL,B_PUREV,B_ABORT,B_EXIT,B_ASSERT,B_TERMINATE,B_UNCAUGHT,
  B_GS_SYM,B_GS_BYTES,B_GS_CHOICE,B_GS_ASSUME,B_GS_CHECK,B_GS_COVER,B_GS_LOG,B_GS_LOGB,B_GS_CONC,B_GS_PARAM,B_GS_FMTD,B_GS_STRTOD,B_GS_LIVE,B_GS_PRINT,B_GS_UNSUP,B_GS_END,B_GS_ISSYM,B_GS_MAYBE,B_GS_GSAVE,B_GS_GLOAD };
static std::map<std::string,int> builtinIds;
static void initBuiltins(){
  auto&b=builtinIds; b["malloc"]=B_MALLOC; b["calloc"]=B_CALLOC; b["realloc"]=B_REALLOC; b["free"]=B_FREE; b["_Znwm"]=B_NEW; b["_Znam"]=B_NEWARR; b["_ZnwmRKSt9nothrow_t"]=B_NEWNT; b["_ZdlPv"]=b["_ZdlPvm"]=b["_ZdlPvRKSt9nothrow_t"]=B_DEL; b["_ZdaPv"]=b["_ZdaPvm"]=B_DELARR;
  b["memcpy"]=b["memmove"]=B_MEMCPY; b["memset"]=B_MEMSET; b["memcmp"]=B_MEMCMP; b["bcmp"]=B_BCMP; b["memchr"]=B_MEMCHR; b["strlen"]=B_STRLEN; b["strcmp"]=B_STRCMP; b["strncmp"]=B_STRNCMP;
  b["__cxa_allocate_exception"]=B_CXA_ALLOC; b["__cxa_free_exception"]=B_CXA_FREE; b["__cxa_throw"]=B_CXA_THROW; b["__cxa_rethrow"]=B_CXA_RETHROW; b["__cxa_begin_catch"]=B_CXA_BEGIN; b["__cxa_end_catch"]=B_CXA_END; b["__cxa_get_exception_ptr"]=B_CXA_GETPTR;
  b["__cxa_atexit"]=B_RET0; b["atexit"]=B_RET0; b["__cxa_thread_atexit"]=B_RET0; b["__cxa_guard_acquire"]=B_GUARD_ACQ; b["__cxa_guard_release"]=B_GUARD_REL; b["__cxa_guard_abort"]=B_RET0; b["__cxa_pure_virtual"]=B_PUREV; b["abort"]=B_ABORT; b["exit"]=b["_exit"]=b["quick_exit"]=B_EXIT; b["__assert_fail"]=B_ASSERT; b["_ZSt9terminatev"]=B_TERMINATE; b["_ZSt19uncaught_exceptionsv"]=b["_ZSt18uncaught_exceptionv"]=B_UNCAUGHT;
  b["gs_globals_save"]=B_GS_GSAVE; b["gs_globals_load"]=B_GS_GLOAD; b["gs_sym"]=B_GS_SYM; b["gs_bytes"]=B_GS_BYTES; b["gs_choice"]=B_GS_CHOICE; b["gs_assume"]=B_GS_ASSUME; b["gs_check"]=B_GS_CHECK; b["gs_cover"]=B_GS_COVER; b["gs_log"]=B_GS_LOG; b["gs_log_bytes"]=B_GS_LOGB; b["gs_conc"]=B_GS_CONC; b["gs_param"]=B_GS_PARAM; b["gs_fmt_double"]=B_GS_FMTD; b["gs_strtod"]=B_GS_STRTOD; b["gs_heap_live"]=B_GS_LIVE; b["gs_print"]=B_GS_PRINT; b["gs_unsupported"]=B_GS_UNSUP; b["gs_end_path"]=B_GS_END; b["gs_is_symbolic"]=B_GS_ISSYM; b["gs_maybe"]=B_GS_MAYBE;
}
static const u64 BIGALLOC=64ULL<<20;
static void doFree(State&s,u64 p,OKind k,const char*what){ if(!p) return; Obj*o=slotObj(s,p); if(!o){ u64 rs=(p-HEAP_BASE)>>SLOTB; fail(s,"memory",p>=HEAP_BASE&&p<STACK_BASE&&rs<s.heapTop?std::string("double free in ")+what:std::string("invalid pointer in ")+what);} if(o->base!=p||o->kind>K_HEAP_NEWARR) fail(s,"memory",std::string("invalid pointer in ")+what); if(o->kind!=k) fail(s,"memory",std::string("mismatched deallocation in ")+what); if(k!=K_HEAP_MALLOC) s.liveNew--; freeObj(s,o); }
static bool callModel(State&s,const char*name,std::vector<Val> a){ Function*F=M->getFunction(name); if(!F||F->isDeclaration()) incomplete(s,std::string("missing model ")+name); pushFrame(s,F,a,nullptr); return false; }
static void addSym(State&s,const std::string&name,bool bytes,unsigned bits,std::vector<Expr*> e){ SymRec r; r.name=name; r.bytes=bytes; r.bits=bits; r.e=std::move(e); s.syms.push_back(std::move(r)); }

static bool callBuiltin(State&s,int bi,std::vector<Val>&a,const Inst&in,Val&rv){
  auto AW=[&](unsigned i){ return i<in.aw.size()&&in.aw[i]?in.aw[i]:64; };
  switch(bi){
    case B_MALLOC: { u64 n=concretize(s,a[0],64); if(n>BIGALLOC){ rv=Val((u64)0); return true;} rv=Val(allocObj(s,n,K_HEAP_MALLOC)->base); return true; }
    case B_CALLOC: { u64 n=concretize(s,a[0],64),m=concretize(s,a[1],64); if(n*m>BIGALLOC){ rv=Val((u64)0); return true;} Obj*o=allocObj(s,n*m,K_HEAP_MALLOC); memset(o->d,0,n*m); rv=Val(o->base); return true; }
    case B_REALLOC: { u64 p=concPtr(s,a[0]); u64 n=concretize(s,a[1],64); if(n>BIGALLOC){ rv=Val((u64)0); return true;} if(!p){ rv=Val(allocObj(s,n,K_HEAP_MALLOC)->base); return true; } Obj*o=slotObj(s,p); if(!o||o->base!=p||o->kind!=K_HEAP_MALLOC) fail(s,"memory","invalid pointer in realloc"); u64 osz=o->size; Obj*q=allocObj(s,n,K_HEAP_MALLOC); u64 qb=q->base; doMemcpy(s,Val(qb),Val(p),Val(std::min(osz,n)),64); freeObj(s,slotObj(s,p)); rv=Val(qb); return true; }
    case B_FREE: { u64 p=concPtr(s,a[0]); doFree(s,p,K_HEAP_MALLOC,"free"); return true; }
    case B_NEW: case B_NEWARR: { u64 n=concretize(s,a[0],64); if(n>BIGALLOC) return callModel(s,"gs_throw_bad_alloc",{}); s.liveNew++; rv=Val(allocObj(s,n,bi==B_NEW?K_HEAP_NEW:K_HEAP_NEWARR)->base); return true; }
    case B_NEWNT: { u64 n=concretize(s,a[0],64); if(n>BIGALLOC){ rv=Val((u64)0); return true;} s.liveNew++; rv=Val(allocObj(s,n,K_HEAP_NEW)->base); return true; }
    case B_DEL: { u64 p=concPtr(s,a[0]); doFree(s,p,K_HEAP_NEW,"operator delete"); return true; }
    case B_DELARR: { u64 p=concPtr(s,a[0]); doFree(s,p,K_HEAP_NEWARR,"operator delete[]"); return true; }
    case B_MEMCPY: doMemcpy(s,a[0],a[1],a[2],64); rv=a[0]; return true;
    case B_MEMSET: doMemset(s,a[0],a[1],a[2],64); rv=a[0]; return true;
    case B_MEMCMP: case B_BCMP: { u64 n=concretize(s,a[2],64); if(!n){ rv=Val((u64)0); return true; } u64 p=concPtr(s,a[0]),q=concPtr(s,a[1]); Obj*x=chk(s,p,n,false),*y=chk(s,q,n,false); u64 xo=p-x->base,yo=q-y->base;
      if(!x->s&&!y->s){ rv=Val((u64)(u32)memcmp(x->d+xo,y->d+yo,n)); return true; }
      if(bi==B_BCMP){ Val eq((u64)1); for(u64 i=0;i<n;i++){ eq=mkAnd1(eq,mkEq(8,byteAt(x,xo+i),byteAt(y,yo+i))); if(eq.conc()&&!eq.c) break; } rv=mkIte(eq,Val((u64)0),Val((u64)1),32); return true; }
      Val r((u64)0); for(long i=(long)n-1;i>=0;i--){ Val l=byteAt(x,xo+i),m=byteAt(y,yo+i); Val eq=mkEq(8,l,m); if(eq.conc()&&eq.c) continue; r=mkIte(eq,r,mkIte(mkBin(E_ULT,8,l,m),Val(maskw(32)),Val((u64)1),32),32); } rv=r; return true; }
    case B_MEMCHR: { u64 n=concretize(s,a[2],64); u64 p=concPtr(s,a[0]); Val c=mkExtract(a[1],32,0,8); for(u64 i=0;i<n;i++){ Obj*o=chk(s,p+i,1,false); if(decide(s,mkEq(8,byteAt(o,p+i-o->base),c))){ rv=Val(p+i); return true; } } rv=Val((u64)0); return true; }
    case B_STRLEN: { u64 p=concPtr(s,a[0]); for(u64 i=0;;i++){ Obj*o=chk(s,p+i,1,false); Val b=byteAt(o,p+i-o->base); if(decide(s,mkEq(8,b,Val((u64)0)))){ rv=Val(i); return true; } } }
    case B_STRCMP: case B_STRNCMP: { u64 p=concPtr(s,a[0]),q=concPtr(s,a[1]); u64 n=bi==B_STRCMP?~0ULL:concretize(s,a[2],64); for(u64 i=0;i<n;i++){ Obj*o=chk(s,p+i,1,false); Val x=byteAt(o,p+i-o->base); Obj*o2=chk(s,q+i,1,false); Val y=byteAt(o2,q+i-o2->base); if(!decide(s,mkEq(8,x,y))){ rv=mkIte(mkBin(E_ULT,8,x,y),Val(maskw(32)),Val((u64)1),32); return true; } if(decide(s,mkEq(8,x,Val((u64)0)))) break; } rv=Val((u64)0); return true; }
    case B_CXA_ALLOC: { u64 n=concretize(s,a[0],64); Obj*o=allocObj(s,n,K_HEAP_MALLOC); rv=Val(o->base); return true; }
    case B_CXA_FREE: { u64 p=concPtr(s,a[0]); if(Obj*o=slotObj(s,p)) freeObj(s,o); return true; }
    case B_CXA_THROW: { u64 ex=a[0].c; ExcInfo xi; xi.ti=a[1].c; xi.dtor=a[2].c; s.exc[ex]=xi; s.uncaught++; unwind(s,ex,true); return false; }
    case B_CXA_RETHROW: { if(s.caught.empty()) fail(s,"crash","rethrow without exception"); u64 ex=s.caught.back(); s.exc[ex].rethrown=true; s.uncaught++; unwind(s,ex,true); return false; }
    case B_CXA_BEGIN: { u64 ex=a[0].c; s.caught.push_back(ex); s.exc[ex].handlers++; s.exc[ex].rethrown=false; if(s.uncaught) s.uncaught--; rv=a[0]; return true; }
    case B_CXA_END: { if(s.caught.empty()) return true; u64 ex=s.caught.back(); s.caught.pop_back(); ExcInfo&xi=s.exc[ex]; if(--xi.handlers==0&&!xi.rethrown){ u64 d=xi.dtor; s.exc.erase(ex); if(d){ Function*F=funcByAddr[d]; pushFrame(s,F,{Val(ex)},nullptr); return false; } } return true; }
    case B_CXA_GETPTR: rv=a[0]; return true;
    case B_RET0: rv=Val((u64)0); return true;
    case B_GUARD_ACQ: { Val b=memLoad(s,a[0],1); rv=Val((u64)(b.conc()&&b.c?0:1)); return true; }
    case B_GUARD_REL: memStore(s,a[0],1,Val((u64)1)); return true;
    case B_PUREV: fail(s,"crash","pure virtual call");
    case B_ABORT: fail(s,"crash","abort() called");
    case B_EXIT: fail(s,"crash","exit() called");
    case B_ASSERT: fail(s,"crash","assertion failed: "+cstr(s,a[0]));
    case B_TERMINATE: fail(s,"exception","std::terminate called");
    case B_UNCAUGHT: rv=Val(s.uncaught); return true;
    case B_GS_SYM: { std::string n=cstr(s,a[0]); unsigned w=concretize(s,a[1],AW(1)); Expr*e; auto it=pins.find(n); if(it!=pins.end()) e=P.cst(it->second,w); else { e=P.sym(w,n); } addSym(s,n,false,w,{e}); if(s.model->v.size()<P.nsyms) s.model=newModel(s.model.get()); rv=mkZExt(Val(e),w,64); return true; }
    case B_GS_BYTES: { u64 p=concPtr(s,a[0]); u64 n=concretize(s,a[1],64); std::string nm=cstr(s,a[2]); std::vector<Expr*> v; if(n){ chk(s,p,n,true); Obj*o=wobj(s,slotObj(s,p)); o->needSym(); for(u64 i=0;i<n;i++){ Expr*e=P.sym(8,nm); v.push_back(e); o->s[p-o->base+i]=e; o->d[p-o->base+i]=0; } } addSym(s,nm,true,8,v); if(s.model->v.size()<P.nsyms) s.model=newModel(s.model.get()); return true; }
    case B_GS_CHOICE: { std::string n=cstr(s,a[0]); u64 k=concretize(s,a[1],AW(1)); if(!k) incomplete(s,"empty choice"); auto it=pins.find(n); if(it!=pins.end()){ if(it->second>=k) throw PathEnd(); addSym(s,n,false,32,{P.cst(it->second,32)}); rv=Val(it->second); return true; }
      for(u64 i=k-1;i>=1;i--){ if(work.size()>=maxStates){ es(s).incomplete["state limit"]++; break; } State*c=new State(s); addSym(*c,n,false,32,{P.cst(i,32)}); es(s).forks++; finishCall(*c,Val(i)); work.push_back(c); }
      addSym(s,n,false,32,{P.cst(0,32)}); rv=Val((u64)0); return true; }
    case B_GS_ASSUME: { Val c=mkNot1(mkEq(AW(0),a[0],Val((u64)0))); if(c.conc()){ if(!c.c) throw PathEnd(); return true; } ModelP om; SRes r=solve(s.cons,c.e,s.model,om); if(r==S_UNSAT) throw PathEnd(); if(r==S_UNKNOWN) incomplete(s,"solver unknown in assume"); addCons(s,c.e); s.model=om; return true; }
    case B_GS_CHECK: { std::string l=cstr(s,a[1]); if(!labelCounts(l)) return true; Val c=mkNot1(mkEq(AW(0),a[0],Val((u64)0))); es(s).checks++; es(s).checkLabels[l]++; ModelP cex; if(mustBeTrue(s,c,cex)) return true; report(s,"check",l,cex); if(c.conc()) { es(s).partial++; throw PathEnd(); } ModelP om; SRes r=solve(s.cons,c.e,s.model,om); if(r!=S_SAT){ es(s).partial++; throw PathEnd(); } addCons(s,c.e); s.model=om; return true; }
    case B_GS_COVER: { es(s).covers[cstr(s,a[0])]++; return true; }
    case B_GS_LOG: { LogRec r; r.name=cstr(s,a[0]); r.bytes=false; r.v.push_back({a[1],64}); s.logs.push_back(r); return true; }
    case B_GS_LOGB: { LogRec r; r.name=cstr(s,a[0]); r.bytes=true; u64 n=concretize(s,a[2],64); u64 p=concPtr(s,a[1]); if(n){ Obj*o=chk(s,p,n,false); for(u64 i=0;i<n;i++) r.v.push_back({byteAt(o,p-o->base+i),8}); } s.logs.push_back(r); return true; }
    case B_GS_CONC: rv=Val(concretize(s,a[0],64,false)); return true;
    case B_GS_PARAM: { std::string n=cstr(s,a[0]); auto it=params.find(n); rv=it!=params.end()?Val(it->second):a[1]; return true; }
    case B_GS_FMTD: { u64 p=concPtr(s,a[0]); u64 n=concretize(s,a[1],64); std::string f=cstr(s,a[2]); u64 dv=concretize(s,a[3],64); double d; memcpy(&d,&dv,8); std::vector<char> b(n+1); int r=snprintf(b.data(),n,f.c_str(),d); if(n){ u64 m=std::min<u64>(r+1,n); chk(s,p,m,true); Obj*o=wobj(s,slotObj(s,p)); for(u64 i=0;i<m;i++) storeBytes(o,p-o->base+i,1,Val((u64)(uint8_t)b[i])); } rv=Val((u64)(u32)r); return true; }
    case B_GS_STRTOD: { std::string t=cstr(s,a[0]); u64 ep=concPtr(s,a[1]); u64 base=concPtr(s,a[0]); char*e; double d=strtod(t.c_str(),&e); if(ep) memStore(s,Val(ep),8,Val(base+(u64)(e-t.c_str()))); u64 r; memcpy(&r,&d,8); rv=Val(r); return true; }
    case B_GS_GSAVE: s.snaps.push_back(s.heap); rv=Val((u64)s.snaps.size()); return true;
    case B_GS_GLOAD: { u64 k=concretize(s,a[0],AW(0)); PVec&src=k?s.snaps.at(k-1):globals; for(u64 b:repoGlobals){ u64 i=(b-HEAP_BASE)>>SLOTB; s.heap.ref(i)=Ref<Obj>(src.get(i)); } return true; }
    case B_GS_LIVE: rv=Val(s.liveNew); return true;
    case B_GS_PRINT: fprintf(stderr,"[print] %s\n",cstr(s,a[0]).c_str()); return true;
    case B_GS_UNSUP: incomplete(s,"unsupported by model: "+cstr(s,a[0]));
    case B_GS_END: { std::string l=cstr(s,a[0]); es(s).covers["end:"+l]++; throw PathEnd(); }
    case B_GS_ISSYM: rv=Val((u64)!a[0].conc()); return true;
    case B_GS_MAYBE: rv=a[0]; return true;
  }
  incomplete(s,"unknown builtin"); return false; }
