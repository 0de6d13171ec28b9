// symir: symbolic executor for rustc-generated LLVM IR.  Every branch that depends on
// an input byte is decided for all values by a per-byte domain procedure or z3; every
// assertion is decided by z3 (validity of the path condition => assertion).
#include "ir.h"
#include <chrono>
#include <deque>
#include <cinttypes>
ExprPool P; TypePool TP; Module M;
typedef std::chrono::steady_clock Clk;
static double now(){ return std::chrono::duration<double>(Clk::now().time_since_epoch()).count(); }

struct Obj { u64 base; u64 size; vector<u8> d; vector<Expr*> s; bool ro=false; bool heap=false; };
typedef shared_ptr<Obj> ObjP;
struct Frame { Func*f; int blk=0,prev=-1; size_t pc=0; vector<V> s; int ret=-1; int retn=0; int contBlk=-1; vector<u64> al; };
typedef shared_ptr<Frame> FrameP;

struct State {
  vector<FrameP> fr; map<u64,ObjP> mem; u64 stackTop=0x7f0000000000ull, heapTop=0x500000000000ull;
  vector<Expr*> pc; vector<Bits256> dom; vector<char> ent; vector<u8> model; unsigned nv=0; u64 steps=0; vector<V> trace; int forks=0; u64 h=1469598103934665603ull; vector<u32> covers; map<Expr*,u64> eq;
};
typedef std::unique_ptr<State> StateP;

struct Opts { string ll, entry, out; double tmax=1e18; u64 stepMax=20000000; bool z3only=false,nomerge=false, crashes=false; vector<u8> concrete; bool isConcrete=false; int shardI=0, shardN=1, shardD=6; int samples=16; int maxViol=3; size_t memMB=6000; bool verbose=false; unsigned qto=120000; } O;

struct Viol { string kind; u32 id; vector<u8> bytes; string where; };
struct Sample { vector<u8> bytes; vector<u64> trace; };
struct Stats { u64 paths=0,pruned=0,instr=0,forks=0,qBranch=0,qAssert=0,qAssertUnsat=0,foldAssert=0,qCache=0,domDecide=0,unknown=0,shardSkip=0,concretize=0,asserts=0,witness=0,merges=0,nomerge=0; double zt=0; u64 maxSteps=0,fallback=0,cut=0; unsigned maxVars=0; } S;
vector<Viol> viols; vector<Sample> samples; map<u32,u64> covers; map<u32,u64> assertCount; string incomplete; 
vector<StateP> work;

// ---------------------------------------------------------------- z3
Z3_context Z; Z3_solver SV; static Z3_sort bvs[129];
static Z3_sort bvsort(unsigned w){ if(!bvs[w]){ bvs[w]=Z3_mk_bv_sort(Z,w); Z3_inc_ref(Z,Z3_sort_to_ast(Z,bvs[w])); } return bvs[w]; }
static Z3_ast zbool(Z3_ast b){ return b; }
static Z3_ast tr(Expr*e){
  if(e->z) return e->z; Z3_ast r; 
  auto B=[&](Expr*x){ return tr(x); };
  switch(e->op){
    case O_CONST: if(e->w==1) r=e->imm?Z3_mk_true(Z):Z3_mk_false(Z); else if(e->w<=64) r=Z3_mk_unsigned_int64(Z,(u64)e->imm,bvsort(e->w)); else { Z3_ast hi=Z3_mk_unsigned_int64(Z,(u64)(e->imm>>64),bvsort(e->w-64)), lo=Z3_mk_unsigned_int64(Z,(u64)e->imm,bvsort(64)); r=Z3_mk_concat(Z,hi,lo);} break;
    case O_VAR: r=Z3_mk_const(Z,Z3_mk_int_symbol(Z,(int)e->imm),bvsort(8)); break;
    default: {
      bool b1 = e->a->w==1; // boolean-typed operands
      if(e->w==1||b1){
        auto toBV=[&](Expr*x){ Z3_ast t=B(x); return x->w==1? Z3_mk_ite(Z,t,Z3_mk_unsigned_int64(Z,1,bvsort(1)),Z3_mk_unsigned_int64(Z,0,bvsort(1))) : t; };
        switch(e->op){
          case O_AND: { Z3_ast x[2]={B(e->a),B(e->b)}; r=Z3_mk_and(Z,2,x); goto done; }
          case O_OR: { Z3_ast x[2]={B(e->a),B(e->b)}; r=Z3_mk_or(Z,2,x); goto done; }
          case O_XOR: case O_ADD: case O_SUB: if(e->w==1){ r=Z3_mk_xor(Z,B(e->a),B(e->b)); goto done; } break;
          case O_EQ: if(b1) r=Z3_mk_iff(Z,B(e->a),B(e->b)); else r=Z3_mk_eq(Z,B(e->a),B(e->b)); goto done;
          case O_ULT: r=Z3_mk_bvult(Z,toBV(e->a),toBV(e->b)); goto done; case O_ULE: r=Z3_mk_bvule(Z,toBV(e->a),toBV(e->b)); goto done;
          case O_SLT: r=Z3_mk_bvslt(Z,toBV(e->a),toBV(e->b)); goto done; case O_SLE: r=Z3_mk_bvsle(Z,toBV(e->a),toBV(e->b)); goto done;
          case O_ITE: r=Z3_mk_ite(Z,B(e->a),B(e->b),B(e->c)); goto done;
          case O_ZEXT: r=Z3_mk_ite(Z,B(e->a),Z3_mk_unsigned_int64(Z,1,bvsort(e->w)),Z3_mk_unsigned_int64(Z,0,bvsort(e->w))); if(e->w>64){ r=Z3_mk_zero_ext(Z,e->w-1,toBV(e->a)); } goto done;
          case O_SEXT: r=Z3_mk_sign_ext(Z,e->w-1,toBV(e->a)); goto done;
          case O_EXTRACT: { Z3_ast t=Z3_mk_extract(Z,(unsigned)e->imm,(unsigned)e->imm,toBV(e->a)); r=Z3_mk_eq(Z,t,Z3_mk_unsigned_int64(Z,1,bvsort(1))); goto done; }
          case O_CONCAT: r=Z3_mk_concat(Z,toBV(e->a),toBV(e->b)); goto done;
          default: { // width-1 arithmetic: go through 1-bit vectors
            Z3_ast x=toBV(e->a),y=toBV(e->b),q; switch(e->op){ case O_MUL:q=Z3_mk_bvmul(Z,x,y);break; case O_SHL:q=Z3_mk_bvshl(Z,x,y);break; case O_LSHR:q=Z3_mk_bvlshr(Z,x,y);break; default: fprintf(stderr,"1-bit op %d\n",e->op); abort(); }
            r=Z3_mk_eq(Z,q,Z3_mk_unsigned_int64(Z,1,bvsort(1))); goto done; }
        }
      }
      { auto C=[&](Expr*x){ Z3_ast t=B(x); return x->w==1? Z3_mk_ite(Z,t,Z3_mk_unsigned_int64(Z,1,bvsort(1)),Z3_mk_unsigned_int64(Z,0,bvsort(1))) : t; };
      switch(e->op){
        case O_ADD:r=Z3_mk_bvadd(Z,B(e->a),B(e->b));break; case O_SUB:r=Z3_mk_bvsub(Z,B(e->a),B(e->b));break; case O_MUL:r=Z3_mk_bvmul(Z,B(e->a),B(e->b));break;
        case O_UDIV:r=Z3_mk_bvudiv(Z,B(e->a),B(e->b));break; case O_SDIV:r=Z3_mk_bvsdiv(Z,B(e->a),B(e->b));break; case O_UREM:r=Z3_mk_bvurem(Z,B(e->a),B(e->b));break; case O_SREM:r=Z3_mk_bvsrem(Z,B(e->a),B(e->b));break;
        case O_AND:r=Z3_mk_bvand(Z,B(e->a),B(e->b));break; case O_OR:r=Z3_mk_bvor(Z,B(e->a),B(e->b));break; case O_XOR:r=Z3_mk_bvxor(Z,B(e->a),B(e->b));break;
        case O_SHL:r=Z3_mk_bvshl(Z,B(e->a),B(e->b));break; case O_LSHR:r=Z3_mk_bvlshr(Z,B(e->a),B(e->b));break; case O_ASHR:r=Z3_mk_bvashr(Z,B(e->a),B(e->b));break;
        case O_CONCAT:r=Z3_mk_concat(Z,C(e->a),C(e->b));break; case O_EXTRACT:r=Z3_mk_extract(Z,(unsigned)e->imm+e->w-1,(unsigned)e->imm,B(e->a));break;
        case O_ZEXT:r=Z3_mk_zero_ext(Z,e->w-e->a->w,C(e->a));break; case O_SEXT:r=Z3_mk_sign_ext(Z,e->w-e->a->w,C(e->a));break;
        case O_ITE:r=Z3_mk_ite(Z,B(e->a),B(e->b),B(e->c));break;
        default: abort();
      } }
    }
  }
  done: Z3_inc_ref(Z,r); e->z=r; return r;
}
enum Res { UNSAT, SAT, UNK };
struct CacheE { Res r; vector<std::pair<uint16_t,u8>> m; };
struct VKH { size_t operator()(const vector<u32>&v) const { u64 h=1469598103934665603ull; for(u32 x:v){ h^=x; h*=1099511628211ull; h^=h>>29; } return h; } };
static std::unordered_map<vector<u32>,CacheE,VKH> qcache;

static Res zquery(State&st,Expr*e,vector<u8>*model){
  // slice: constraints transitively sharing bytes with e
  vector<char> in(st.nv,0); for(auto v:*e->vs) in[v]=1;
  vector<char> used(st.pc.size(),0); bool ch=true; vector<Expr*> sl;
  while(ch){ ch=false; for(size_t i=0;i<st.pc.size();i++) if(!used[i]){ bool hit=false; for(auto v:*st.pc[i]->vs) if(in[v]){ hit=true; break; } if(hit){ used[i]=1; sl.push_back(st.pc[i]); for(auto v:*st.pc[i]->vs) if(!in[v]){ in[v]=1; ch=true; } } } }
  vector<u32> key; for(auto*x:sl) key.push_back(x->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end()); key.push_back(e->id);
  auto it=qcache.find(key);
  if(it!=qcache.end()){ S.qCache++; if(it->second.r==SAT&&model){ *model=st.model; for(auto&p:it->second.m) (*model)[p.first]=p.second; } return it->second.r; }
  double t=now();
  Z3_solver_push(Z,SV); for(auto*x:sl) Z3_solver_assert(Z,SV,tr(x)); Z3_solver_assert(Z,SV,tr(e));
  Z3_lbool r=Z3_solver_check(Z,SV); CacheE ce; Z3_solver US=SV;
  if(r==Z3_L_UNDEF){ // second attempt: bit-blasting solver, full time limit
    S.fallback++; US=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,US); Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),O.qto); Z3_solver_set_params(Z,US,p); Z3_params_dec_ref(Z,p);
    for(auto*x:sl) Z3_solver_assert(Z,US,tr(x)); Z3_solver_assert(Z,US,tr(e)); r=Z3_solver_check(Z,US); } ce.r= r==Z3_L_TRUE?SAT: r==Z3_L_FALSE?UNSAT:UNK;
  if(ce.r==SAT){ Z3_model m=Z3_solver_get_model(Z,US); Z3_model_inc_ref(Z,m); for(unsigned v=0;v<st.nv;v++) if(in[v]){ Z3_ast o; u64 x=0; if(Z3_model_eval(Z,m,tr(P.var(v)),true,&o)) Z3_get_numeral_uint64(Z,o,&x); ce.m.push_back({(uint16_t)v,(u8)x}); } Z3_model_dec_ref(Z,m); }
  if(US!=SV) Z3_solver_dec_ref(Z,US);
  Z3_solver_pop(Z,SV,1); S.zt+=now()-t; if(ce.r==UNK) S.unknown++;
  if(ce.r==SAT&&model){ *model=st.model; for(auto&p:ce.m) (*model)[p.first]=p.second; }
  if(ce.r!=UNK) qcache[key]=ce; return ce.r;
}
static bool evalb(Expr*e,const vector<u8>&m){ return (bool)P.eval(e,m.data()); }
// cheap search for a witness near the current model (a found witness is checked against the whole path condition)
static bool trySat(State&st,Expr*e,vector<u8>*model){
  static u64 rng=88172645463325252ull; auto rnd=[&]{ rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; };
  auto&vs=*e->vs; vector<u8> m=st.model; vector<Expr*> rel; for(auto*c:st.pc){ for(auto v:*c->vs) if(std::binary_search(vs.begin(),vs.end(),v)){ rel.push_back(c); break; } }
  auto test=[&]{ P.epoch++; if(!P.evalN(e,m.data())) return false; for(auto*c:rel) if(!P.evalN(c,m.data())) return false; return true; };
  if(vs.size()==1){ unsigned v=vs[0]; Bits256 T=st.dom[v]&*P.truth(e); vector<u8> c; for(int i=0;i<256;i++) if(T.get(i)) c.push_back(i); size_t n=std::min<size_t>(c.size(),16); for(size_t k=0;k<n;k++){ std::swap(c[k],c[k+rnd()%(c.size()-k)]); m[v]=c[k]; if(test()){ S.witness++; if(model) *model=m; return true; } } return false; }
  for(int k=0;k<24;k++){ m=st.model; if(k<16){ unsigned v=vs[rnd()%vs.size()]; auto&D=st.dom[v]; int cnt=D.count(); int x=rnd()%cnt; for(int i=0;i<256;i++) if(D.get(i)&&x--==0){ m[v]=i; break; } }
    else for(auto v:vs) if(rnd()&1){ auto&D=st.dom[v]; int cnt=D.count(); int x=rnd()%cnt; for(int i=0;i<256;i++) if(D.get(i)&&x--==0){ m[v]=i; break; } }
    if(test()){ S.witness++; if(model) *model=m; return true; } }
  return false; }
// Decide a boolean through a small cut: if every path from e to an input byte runs through one
// node d of at most 8 bits, e is a function of d; tabulate it. 1: true for every value of d
// (so valid), 0: false for every value (so unsatisfiable), -1: not decided this way.
static std::unordered_map<Expr*,int> cutCache;
static int cutDecide(Expr*e){
  auto it=cutCache.find(e); if(it!=cutCache.end()) return it->second; int res=-1;
  // topological order (iterative)
  vector<Expr*> ord; std::unordered_map<Expr*,int> idx; { vector<std::pair<Expr*,int>> stk; stk.push_back({e,0}); idx[e]=-1;
    while(!stk.empty()){ auto&tp=stk.back(); Expr*x=tp.first; Expr*ch[3]={x->a,x->b,x->c}; if(tp.second<3){ Expr*y=ch[tp.second++]; if(y&&!y->vs->empty()&&!idx.count(y)){ idx[y]=-1; stk.push_back({y,0}); } } else { idx[x]=ord.size(); ord.push_back(x); stk.pop_back(); } if(ord.size()>200000) return cutCache[e]=-1; } }
  size_t n=ord.size(); vector<u64> down(n),up(n,0); auto rw=[](u64 x){ x^=x>>33; x*=0xff51afd7ed558ccdull; x^=x>>33; return x|1; };
  for(size_t i=0;i<n;i++){ Expr*x=ord[i]; if(x->op==O_VAR){ down[i]=rw(x->id+77); continue; } u64 t=0; Expr*ch[3]={x->a,x->b,x->c}; for(auto*y:ch) if(y&&!y->vs->empty()) t+=down[idx[y]]; down[i]=t; }
  up[n-1]=1; for(size_t i=n;i-->0;){ Expr*x=ord[i]; Expr*ch[3]={x->a,x->b,x->c}; for(auto*y:ch) if(y&&!y->vs->empty()) up[idx[y]]+=up[i]; }
  u64 tot=down[n-1]; int tried=0;
  for(size_t i=0;i<n-1&&res<0&&tried<4;i++){ Expr*d=ord[i]; if(d->w>8||d->op==O_VAR||up[i]*down[i]!=tot) continue; tried++;
    // the nodes between d and e, evaluated for every value of d
    std::unordered_map<Expr*,u128> val; bool bad=false, anyT=false, anyF=false;
    for(unsigned k=0;k<(1u<<d->w)&&!bad&&!(anyT&&anyF);k++){ val.clear(); val[d]=k;
      auto g=[&](Expr*x)->u128{ if(x->op==O_CONST) return x->imm; auto q=val.find(x); if(q==val.end()){ bad=true; return 0; } return q->second; };
      for(size_t j=i+1;j<n;j++){ Expr*x=ord[j]; if(x->op==O_VAR) continue; auto need=[&](Expr*y){ return !y||y->op==O_CONST||val.count(y); }; if(!need(x->a)||!need(x->b)||!need(x->c)) continue; u128 r;
        switch(x->op){ case O_CONCAT: r=(g(x->a)<<x->b->w)|g(x->b); break; case O_EXTRACT: r=(g(x->a)>>(unsigned)x->imm)&maskw(x->w); break; case O_ZEXT: r=g(x->a); break; case O_SEXT: r=(u128)sx(g(x->a),x->a->w)&maskw(x->w); break; case O_ITE: r=g(x->a)?g(x->b):g(x->c); break; default: r=ExprPool::fold(x->op,(x->op>=O_EQ)?1:x->w,g(x->a),g(x->b),x->a->w); }
        val[x]=r; }
      auto q=val.find(e); if(q==val.end()){ bad=true; break; } (q->second?anyT:anyF)=true; }
    if(!bad){ if(!anyF) res=1; else if(!anyT) res=0; } }
  return cutCache[e]=res; }
// is e satisfiable together with the path condition?
static Res query(State&st,Expr*e,vector<u8>*model){
  if(P.isc(e)){ if(e->imm){ if(model)*model=st.model; return SAT; } return UNSAT; }
  if(evalb(e,st.model)){ if(model)*model=st.model; return SAT; }
  if(!O.z3only && e->vs->size()==1){ unsigned v=(*e->vs)[0]; Bits256 T=st.dom[v]&*P.truth(e); if(!T.any()){ S.domDecide++; return UNSAT; } if(!st.ent[v]){ S.domDecide++; if(model){ *model=st.model; (*model)[v]=T.first(); } return SAT; } }
  if(!O.z3only&&e->vs->size()>1&&cutDecide(e)==0){ S.cut++; return UNSAT; }
  if(!O.z3only&&trySat(st,e,model)) return SAT;
  S.qBranch++; return zquery(st,e,model);
}
// does the path condition imply e? (SAT: no, *m is a counterexample)
static Res refute(State&st,Expr*e,vector<u8>*m,int depth=0){
  if(P.isc(e)){ if(e->imm) return UNSAT; *m=st.model; return SAT; }
  if(!evalb(e,st.model)){ *m=st.model; return SAT; }
  if(!O.z3only){
    if(e->op==O_AND&&e->w==1){ Res r=refute(st,e->a,m,depth); if(r!=UNSAT) return r; return refute(st,e->b,m,depth); }
    if(e->vs->size()==1){ unsigned v=(*e->vs)[0]; if(!(st.dom[v]&~*P.truth(e)).any()){ S.domDecide++; return UNSAT; } }
    else { if(cutDecide(e)==1){ S.cut++; return UNSAT; }
      if(e->op==O_EQ&&e->a->w>4&&e->a->w%4==0&&depth<2){ unsigned g=e->a->w%8==0&&e->a->w>8?8:4; vector<Expr*> ps; bool ok=true; for(unsigned i=0;i<e->a->w;i+=g){ Expr*q=P.bin(O_EQ,P.extract(e->a,i,g),P.extract(e->b,i,g)); if(!P.isc(q)&&q->vs->size()>2) ok=false; ps.push_back(q); }
        if(ok){ for(auto*q:ps){ Res r=refute(st,q,m,depth+1); if(r!=UNSAT) return r; } return UNSAT; } } }
  }
  S.qAssert++; Res r=zquery(st,P.bnot(e),m); if(r==UNSAT) S.qAssertUnsat++; return r; }
static void addC(State&st,Expr*e){
  if(P.isc(e)) return;
  if(e->op==O_AND&&e->w==1){ addC(st,e->a); addC(st,e->b); return; }
  for(auto*x:st.pc) if(x==e) return;
  st.pc.push_back(e);
  if(e->vs->size()==1){ unsigned v=(*e->vs)[0]; st.dom[v]=st.dom[v]&*P.truth(e); } else for(auto v:*e->vs) st.ent[v]=1;
}

// ---------------------------------------------------------------- globals
struct GObj { ObjP o; bool cst; };
static map<u64,GObj> gmem; static u64 gnext=0x10000000;
static u64 globalAddr(const string&n){
  auto it=M.globals.find(n); if(it==M.globals.end()) throw Unsupported("unknown symbol "+n);
  GlobalDef*g=it->second; if(g->parsed) return g->addr; g->parsed=true;
  Lex L(g->beg,g->end); L.need("@"); L.name(); L.need("=");
  for(;;){ string w=L.peekWord(); if(w=="global"||w=="constant"){ L.word(); g->isConst=w=="constant"; break; } if(w=="external"||w=="extern_weak") g->isExt=true; L.word(); L.ws(); if(*L.p=='(') L.skipBal(); }
  g->t=FParser::type(L); u64 al=16; { string rest(L.p,L.e-L.p); size_t a=rest.rfind(", align "); if(a!=string::npos) al=std::max<u64>(16,atoi(rest.c_str()+a+8)); }
  gnext=(gnext+al-1)/al*al; g->addr=gnext; gnext+=g->t->size+32;
  ObjP o=std::make_shared<Obj>(); o->base=g->addr; o->size=g->t->size; o->d.assign(o->size,0); o->ro=g->isConst; gmem[g->addr]={o,g->isConst};
  if(!g->isExt){ vector<V> vals; FParser::constant(L,g->t,vals); auto&lv=TP.leaves(g->t); for(size_t i=0;i<lv.size();i++){ unsigned n=(lv[i].w+7)/8; u128 c=vals[i].e?vals[i].e->imm:vals[i].c; for(unsigned k=0;k<n;k++) o->d[lv[i].off+k]=(u8)(c>>(8*k)); } }
  return g->addr;
}

// ---------------------------------------------------------------- errors
struct PathEnd {}; // path terminated (recorded already)
struct Refork {};  // state was re-forked; re-execute the instruction
static string demangle(const string&n){ return n; }
static string where(State&st){ string r; for(int i=(int)st.fr.size()-1;i>=0&&i>=(int)st.fr.size()-4;i--){ r+=demangle(st.fr[i]->f->name); auto&f=*st.fr[i]; if(f.blk<(int)f.f->blocks.size()&&f.pc<f.f->blocks[f.blk].ins.size()) r+="!"+std::to_string(f.f->blocks[f.blk].ins[f.pc].dbg); r+=" < "; } return r; }
static void violate(State&st,const string&kind,u32 id,const vector<u8>&m){
  Viol v; v.kind=kind; v.id=id; v.bytes.assign(m.begin(),m.begin()+st.nv); v.where=where(st); viols.push_back(v);
}
static void pathViol(State&st,const string&kind){ violate(st,kind,0,st.model); throw PathEnd(); }

// ---------------------------------------------------------------- execution
struct Exec {
  State*st; Frame*f;
  Frame& top(){ FrameP&p=st->fr.back(); if(p.use_count()>1) p=std::make_shared<Frame>(*p); f=p.get(); return *f; }
  V get(int oi,int k=0){ const Opn&o=f->f->ops[oi]; if(o.slot<0) return M.cpool[o.ci+k]; const V&v=f->s[o.slot+k]; if(v.e&&!st->eq.empty()){ auto it=st->eq.find(v.e); if(it!=st->eq.end()) return mkc(it->second); } return v; }
  int cnt(int oi){ return f->f->ops[oi].n; }

  ObjP find(u64 a,u64 n){
    auto it=st->mem.upper_bound(a); if(it!=st->mem.begin()){ --it; Obj&o=*it->second; if(a>=o.base&&a+n<=o.base+o.size&&a+n>=a) return it->second; }
    auto g=gmem.upper_bound(a); if(g!=gmem.begin()){ --g; Obj&o=*g->second.o; if(a>=o.base&&a+n<=o.base+o.size&&a+n>=a) return g->second.o; }
    return nullptr; }
  Obj* rd(u64 a,u64 n){ static Obj dummy; if(n==0) return &dummy; ObjP o=find(a,n); if(!o) pathViol(*st,"memory-read"); return o.get(); }
  Obj* wr(u64 a,u64 n){
    auto it=st->mem.upper_bound(a); if(it!=st->mem.begin()){ --it; Obj&o=*it->second; if(a>=o.base&&a+n<=o.base+o.size&&a+n>=a){ if(it->second.use_count()>1) it->second=std::make_shared<Obj>(o); return it->second.get(); } }
    auto g=gmem.upper_bound(a); if(g!=gmem.begin()){ --g; Obj&o=*g->second.o; if(a>=o.base&&a+n<=o.base+o.size){ if(o.ro) pathViol(*st,"memory-write-const"); ObjP c=std::make_shared<Obj>(o); st->mem[c->base]=c; return c.get(); } }
    pathViol(*st,"memory-write"); return nullptr; }
  static void symz(Obj&o){ if(o.s.empty()) o.s.assign(o.size,nullptr); }
  V load(u64 a,unsigned w){
    unsigned n=(w+7)/8; Obj*o=rd(a,n); u64 off=a-o->base; bool sy=false; if(!o->s.empty()) for(unsigned i=0;i<n;i++) if(o->s[off+i]){ sy=true; break; }
    if(!sy){ if(w<=64){ u64 c=0; memcpy(&c,&o->d[off],n); return mkc(w==64?c:(u64)(c&maskw(w))); } u128 c=0; memcpy(&c,&o->d[off],n); return V{0,P.cst(c,w)}; }
    Expr*e=nullptr; for(int i=n-1;i>=0;i--){ Expr*b=o->s[off+i]?o->s[off+i]:P.cst(o->d[off+i],8); e=e?P.concat(e,b):b; }
    if(e->w!=w) e=P.extract(e,0,w); return fromE(e); }
  void store(u64 a,unsigned w,const V&v){
    unsigned n=(w+7)/8; Obj*o=wr(a,n); u64 off=a-o->base;
    if(!v.e){ memcpy(&o->d[off],&v.c,n); if(!o->s.empty()) for(unsigned i=0;i<n;i++) o->s[off+i]=nullptr; return; }
    if(P.isc(v.e)){ u128 c=v.e->imm; memcpy(&o->d[off],&c,n); if(!o->s.empty()) for(unsigned i=0;i<n;i++) o->s[off+i]=nullptr; return; }
    symz(*o); Expr*e=v.e; if(e->w<n*8) e=P.zext(e,n*8);
    for(unsigned i=0;i<n;i++){ Expr*b=P.extract(e,8*i,8); if(P.isc(b)){ o->d[off+i]=(u8)b->imm; o->s[off+i]=nullptr; } else { o->s[off+i]=b; o->d[off+i]=0; } } }

  // enumerate all feasible values of e on this path
  vector<std::pair<u128,vector<u8>>> values(Expr*e,size_t cap){
    vector<std::pair<u128,vector<u8>>> r;
    if(!O.z3only&&e->vs->size()==1&&!st->ent[(*e->vs)[0]]){ unsigned v=(*e->vs)[0]; map<u128,u8> m; vector<u8> t=st->model; for(int i=0;i<256;i++) if(st->dom[v].get(i)){ t[v]=i; u128 x=P.eval(e,t.data()); if(!m.count(x)) m[x]=i; } for(auto&p:m){ vector<u8> mm=st->model; mm[v]=p.second; r.push_back({p.first,mm}); if(r.size()>cap) break; } return r; }
    Expr*c=P.cst(1,1); vector<u8> mm; bool first=true;
    for(;;){ if(first){ mm=st->model; first=false; if(!evalb(c,mm)) abort(); } else { Res q=query(*st,c,&mm); if(q==UNSAT) break; if(q==UNK){ incomplete="solver unknown"; throw PathEnd(); } }
      u128 x=P.eval(e,mm.data()); r.push_back({x,mm}); if(r.size()>cap) break; c=P.band(c,P.bnot(P.bin(O_EQ,e,P.cst(x,e->w)))); }
    return r; }
  // make operand oi concrete, forking once per feasible value
  u64 conc(int oi){ V v=get(oi); if(!v.e) return v.c; u64 c=concE(v.e); const Opn&o=f->f->ops[oi]; if(o.slot>=0) f->s[o.slot]=mkc(c); return c; }
  u64 concE(Expr*e){
    if(P.isc(e)) return (u64)e->imm;
    auto vs=values(e,1024); if(vs.size()>1024){ incomplete="too many values to concretize at "+where(*st); throw PathEnd(); }
    S.concretize++;
    for(size_t i=1;i<vs.size();i++){ StateP n(new State(*st)); addC(*n,P.bin(O_EQ,e,P.cst(vs[i].first,e->w))); if(e->w<=64) n->eq[e]=(u64)vs[i].first; n->model=vs[i].second; n->forks++; n->h=(n->h^(i+7))*1099511628211ull; if(shardKeep(*n)){ S.forks++; work.push_back(std::move(n)); } else S.shardSkip++; }
    if(vs.size()>1){ addC(*st,P.bin(O_EQ,e,P.cst(vs[0].first,e->w))); st->model=vs[0].second; st->forks++; st->h=(st->h^7)*1099511628211ull; if(!shardKeep(*st)){ S.shardSkip++; throw PathEnd(); } }
    if(e->w<=64) st->eq[e]=(u64)vs[0].first;
    top(); // (the forked states share this frame)
    return (u64)vs[0].first; }
  static bool shardKeep(State&s){ if(O.shardN<=1||s.forks!=O.shardD) return true; return ((s.h>>17)%O.shardN)==(u64)O.shardI; }

  // decide a boolean, forking if both outcomes are feasible; returns the outcome taken by the current state
  // the alternative state is produced by `mk(otherState)` which must redirect it
  template<class Fn> bool decide(Expr*c,Fn mk){
    if(P.isc(c)) return c->imm; bool mv=evalb(c,st->model); Expr*o=mv?P.bnot(c):c; vector<u8> om; Res r=query(*st,o,&om);
    if(r==UNK){ incomplete="solver unknown"; throw PathEnd(); }
    if(r==UNSAT) return mv;
    StateP n(new State(*st)); addC(*n,o); n->model=om; n->forks++; n->h=(n->h^(mv?2:1))*1099511628211ull; mk(*n,!mv);
    if(shardKeep(*n)){ S.forks++; work.push_back(std::move(n)); } else S.shardSkip++;
    addC(*st,mv?c:P.bnot(c)); st->forks++; st->h=(st->h^(mv?1:2))*1099511628211ull; if(!shardKeep(*st)){ S.shardSkip++; throw PathEnd(); }
    return mv; }
  static void jumpIn(State&n,int blk){ FrameP&p=n.fr.back(); if(p.use_count()>1) p=std::make_shared<Frame>(*p); jump(*p,blk); }
  static void jump(Frame&f,int blk){
    Block&B=f.f->blocks[blk]; int from=f.blk; if(B.nphi){ static thread_local vector<V> tmp; tmp.clear();
      for(int i=0;i<B.nphi;i++){ Instr&I=B.ins[i]; I.hit=true; int j=-1; for(size_t k=0;k<I.blks.size();k++) if(I.blks[k]==from){ j=k; break; } if(j<0){ fprintf(stderr,"phi edge missing\n"); abort(); } const Opn&o=f.f->ops[I.ops[j]]; for(int k=0;k<I.nd;k++) tmp.push_back(o.slot>=0?f.s[o.slot+k]:M.cpool[o.ci+k]); }
      size_t t=0; for(int i=0;i<B.nphi;i++){ Instr&I=B.ins[i]; for(int k=0;k<I.nd;k++) f.s[I.dst+k]=tmp[t++]; } }
    f.prev=from; f.blk=blk; f.pc=B.nphi; }

  void setD(Instr&I,const V&v){ f->s[I.dst]=v; }
  static V binop(Op op,unsigned w,const V&a,const V&b){
    if(!a.e&&!b.e&&w<=64){ u64 m=w==64?~0ull:((1ull<<w)-1); switch(op){ case O_ADD:return mkc((a.c+b.c)&m); case O_SUB:return mkc((a.c-b.c)&m); case O_AND:return mkc(a.c&b.c); case O_OR:return mkc(a.c|b.c); case O_XOR:return mkc(a.c^b.c); case O_MUL:return mkc((a.c*b.c)&m); case O_SHL:return mkc(b.c>=w?0:(a.c<<b.c)&m); case O_LSHR:return mkc(b.c>=w?0:a.c>>b.c); default: return mkc((u64)ExprPool::fold(op,w,a.c,b.c,w)); } }
    return w>64? V{0,P.bin(op,toE(a,w),toE(b,w))} : fromE(P.bin(op,toE(a,w),toE(b,w))); }
  static V cmp(int pr,unsigned w,const V&a,const V&b){
    if(!a.e&&!b.e){ u64 x=a.c,y=b.c; long long p=(long long)sx(x,w),q=(long long)sx(y,w); bool r; switch(pr){ case P_EQ:r=x==y;break;case P_NE:r=x!=y;break;case P_UGT:r=x>y;break;case P_UGE:r=x>=y;break;case P_ULT:r=x<y;break;case P_ULE:r=x<=y;break;case P_SGT:r=p>q;break;case P_SGE:r=p>=q;break;case P_SLT:r=p<q;break;default:r=p<=q; } return mkc(r); }
    Expr*x=toE(a,w),*y=toE(b,w),*e; switch(pr){ case P_EQ:e=P.bin(O_EQ,x,y);break;case P_NE:e=P.bnot(P.bin(O_EQ,x,y));break;case P_UGT:e=P.bin(O_ULT,y,x);break;case P_UGE:e=P.bin(O_ULE,y,x);break;case P_ULT:e=P.bin(O_ULT,x,y);break;case P_ULE:e=P.bin(O_ULE,x,y);break;case P_SGT:e=P.bin(O_SLT,y,x);break;case P_SGE:e=P.bin(O_SLE,y,x);break;case P_SLT:e=P.bin(O_SLT,x,y);break;default:e=P.bin(O_SLE,x,y); }
    return fromE(e); }
  u64 alloc(u64 size,u64 align,bool heap){
    u64&t=heap?st->heapTop:st->stackTop; t=(t+align-1)/align*align; u64 a=t; t+=size+48; ObjP o=std::make_shared<Obj>(); o->base=a; o->size=size; o->heap=heap; o->d.assign(size,heap?0xAA:0); st->mem[a]=o; return a; }
  void copyMem(u64 d,u64 s,u64 n){ if(!n) return; Obj*so=rd(s,n); vector<u8> tb(so->d.begin()+(s-so->base),so->d.begin()+(s-so->base)+n); vector<Expr*> te; if(!so->s.empty()){ auto b=so->s.begin()+(s-so->base); bool any=false; for(u64 i=0;i<n;i++) if(b[i]){ any=true; break; } if(any) te.assign(b,b+n); }
    Obj*o=wr(d,n); u64 off=d-o->base; memcpy(&o->d[off],tb.data(),n); if(!te.empty()){ symz(*o); std::copy(te.begin(),te.end(),o->s.begin()+off); } else if(!o->s.empty()) std::fill(o->s.begin()+off,o->s.begin()+off+n,nullptr); }
  V byteAt(u64 a){ return load(a,8); }


  // ---- state merging -------------------------------------------------------------
  // A branch whose feasible arms only compute (no stores, calls or traps) and meet again
  // is executed as one state: the arms are evaluated under their guards and the values
  // they define become if-then-else terms.  Infeasible arms are dropped by the solver.
  typedef map<int,V> Delta;
  struct Arr { int blk; Expr*g; Delta d; };
  V mget(const Delta&d,int oi,int k=0){ const Opn&o=f->f->ops[oi]; if(o.slot<0) return M.cpool[o.ci+k]; auto it=d.find(o.slot+k); return it!=d.end()?it->second:f->s[o.slot+k]; }
  struct NoMerge {};
  void arrive(map<long,Arr>&fr,int from,int to,Expr*g,const Delta&d0){
    Delta d=d0; Block&B=f->f->blocks[to];
    if(B.nphi){ vector<V> tmp; for(int i=0;i<B.nphi;i++){ Instr&I=B.ins[i]; int j=-1; for(size_t k=0;k<I.blks.size();k++) if(I.blks[k]==from){ j=k; break; } if(j<0) throw NoMerge(); for(int k=0;k<I.nd;k++) tmp.push_back(mget(d0,I.ops[j],k)); } size_t t=0; for(int i=0;i<B.nphi;i++){ Instr&I=B.ins[i]; for(int k=0;k<I.nd;k++) d[I.dst+k]=tmp[t++]; } }
    long key=f->f->rpo[to]; if(key<=f->f->rpo[from]) key+=1L<<40;
    auto it=fr.find(key); if(it==fr.end()){ fr[key]=Arr{to,g,std::move(d)}; return; }
    Arr&o=it->second; Delta m;
    for(auto&p:d){ auto q=o.d.find(p.first); if(q==o.d.end()) continue; V a=p.second,b=q->second; if(a.e==b.e&&a.c==b.c){ m[p.first]=a; continue; }
      unsigned w=f->f->sw[p.first]; if(w==0||w==1000||w>128) throw NoMerge(); if(!a.e&&!b.e&&w==64) throw NoMerge();
      Expr*x=P.ite(g,toE(a,w),toE(b,w)); m[p.first]= w>64?V{0,x}:fromE(x); }
    o.d.swap(m); o.g=P.bor(o.g,g); }
  bool tryMerge(Instr&I0){
    if(O.nomerge||(I0.mfail>=24&&I0.mok*4<I0.mfail)) return false;
    map<long,Arr> fr; int budget=300; vector<Instr*> hits;
    auto feas=[&](Expr*g){ if(P.isc(g)) return g->imm!=0; Res r=query(*st,g,nullptr); if(r==UNK) throw NoMerge(); return r==SAT; };
    auto branch=[&](Instr&I,int from,Expr*g,const Delta&d,bool first){
      if(I.op==I_BR){ arrive(fr,from,I.t1,g,d); return; }
      V c=mget(d,I.a);
      if(I.op==I_CBR){ if(!c.e){ arrive(fr,from,c.c?I.t1:I.t2,g,d); return; } Expr*g1=P.band(g,c.e),*g2=P.band(g,P.bnot(c.e)); bool a=feas(g1),b=feas(g2); if(a) arrive(fr,from,I.t1,b?g1:g,d); if(b) arrive(fr,from,I.t2,a?g2:g,d); return; }
      // switch
      if(!c.e){ int t=I.t1; for(size_t k=0;k<I.ks.size();k++) if(I.ks[k]==c.c){ t=I.blks[k]; break; } arrive(fr,from,t,g,d); return; }
      vector<int> tg; vector<Expr*> cs; for(size_t k=0;k<I.ks.size();k++){ if(I.blks[k]==I.t1) continue; Expr*q=P.bin(O_EQ,c.e,P.cst(I.ks[k],I.w)); size_t j=0; while(j<tg.size()&&tg[j]!=I.blks[k]) j++; if(j==tg.size()){ tg.push_back(I.blks[k]); cs.push_back(q); } else cs[j]=P.bor(cs[j],q); }
      Expr*dd=P.cst(1,1); for(auto*x:cs) dd=P.band(dd,P.bnot(x)); tg.push_back(I.t1); cs.push_back(dd);
      if(tg.size()>24) throw NoMerge();
      for(size_t j=0;j<tg.size();j++){ Expr*gg=P.band(g,cs[j]); if(feas(gg)) arrive(fr,from,tg[j],gg,d); } };
    try {
      branch(I0,f->blk,P.cst(1,1),Delta(),true);
      while(fr.size()>1){
        auto it=fr.begin(); if(it->first>=(1L<<40)) throw NoMerge(); Arr a=std::move(it->second); fr.erase(it);
        Block&B=f->f->blocks[a.blk]; for(size_t pc=B.nphi;;pc++){ Instr&I=B.ins[pc]; if(--budget<0) throw NoMerge(); hits.push_back(&I); bool term=false; Delta&d=a.d;
          switch(I.op){
            case I_BIN: if(I.sub==O_UDIV||I.sub==O_SDIV||I.sub==O_UREM||I.sub==O_SREM) throw NoMerge(); if(I.n!=1) throw NoMerge(); d[I.dst]=binop((Op)I.sub,I.w,mget(d,I.a),mget(d,I.b)); break;
            case I_ICMP: if(I.n!=1) throw NoMerge(); d[I.dst]=cmp(I.sub,I.w,mget(d,I.a),mget(d,I.b)); break;
            case I_TRUNC: { if(I.n!=1) throw NoMerge(); V v=mget(d,I.a); if(!v.e) d[I.dst]=mkc(v.c&(u64)maskw(I.w2)); else { Expr*e=P.extract(v.e,0,I.w2); d[I.dst]=I.w2>64?V{0,e}:fromE(e); } break; }
            case I_ZEXT: { if(I.n!=1) throw NoMerge(); V v=mget(d,I.a); if(!v.e&&I.w2<=64) d[I.dst]=v; else { Expr*e=P.zext(toE(v,I.w),I.w2); d[I.dst]=I.w2>64?V{0,e}:fromE(e); } break; }
            case I_SEXT: { if(I.n!=1) throw NoMerge(); V v=mget(d,I.a); if(!v.e&&I.w2<=64) d[I.dst]=mkc((u64)sx(v.c,I.w)&(u64)maskw(I.w2)); else { Expr*e=P.sext(toE(v,I.w),I.w2); d[I.dst]=I.w2>64?V{0,e}:fromE(e); } break; }
            case I_COPY: for(int k=0;k<I.nd;k++){ V v=mget(d,I.a,k); d[I.dst+k]=v; } break;
            case I_SELECT: { if(I.n>1) throw NoMerge(); V c=mget(d,I.a); auto&lv=TP.leaves(I.ty); for(int k=0;k<I.nd;k++){ V x=mget(d,I.b,k),y=mget(d,I.c,k); if(!c.e) d[I.dst+k]=c.c?x:y; else if(!x.e&&!y.e&&x.c==y.c) d[I.dst+k]=x; else { Expr*e=P.ite(c.e,toE(x,lv[k].w),toE(y,lv[k].w)); d[I.dst+k]=lv[k].w>64?V{0,e}:fromE(e); } } break; }
            case I_GEP: { V r=mget(d,I.a); if(I.imm) r=binop(O_ADD,64,r,mkc(I.imm)); for(size_t k=0;k<I.ops.size();k++){ V ix=mget(d,I.ops[k]); unsigned w=I.tys[k]->w; if(w<64){ if(!ix.e) ix=mkc((u64)sx(ix.c,w)); else ix=fromE(P.sext(ix.e,64)); } r=binop(O_ADD,64,r,binop(O_MUL,64,ix,mkc((u64)I.ks[k]))); } d[I.dst]=r; break; }
            case I_EXTRACT: for(int k=0;k<I.nd;k++){ V v=mget(d,I.a,I.imm+k); d[I.dst+k]=v; } break;
            case I_INSERT: { vector<V> t; for(int k=0;k<I.nd;k++) t.push_back((k>=(int)I.imm&&k<(int)(I.imm+I.w))? mget(d,I.b,k-I.imm): mget(d,I.a,k)); for(int k=0;k<I.nd;k++) d[I.dst+k]=t[k]; break; }
            case I_LOAD: { V av=mget(d,I.a); if(av.e||I.ty->k==T_VEC) throw NoMerge(); auto&lv=TP.leaves(I.ty); for(size_t k=0;k<lv.size();k++){ if(!find(av.c+lv[k].off,(lv[k].w+7)/8)) throw NoMerge(); d[I.dst+k]=load(av.c+lv[k].off,lv[k].w); } break; }
            case I_BR: case I_CBR: case I_SWITCH: branch(I,a.blk,a.g,d,false); term=true; break;
            default: throw NoMerge(); }
          if(term) break; } }
      if(fr.size()!=1) throw NoMerge();
      Arr&a=fr.begin()->second; int from=f->blk; for(auto&p:a.d) f->s[p.first]=p.second; Block&B=f->f->blocks[a.blk]; for(int i=0;i<B.nphi;i++) B.ins[i].hit=true; for(auto*h:hits) h->hit=true; st->steps+=hits.size(); S.instr+=hits.size(); f->prev=from; f->blk=a.blk; f->pc=B.nphi; I0.mok++; S.merges++; return true;
    } catch(NoMerge&){ I0.mfail++; S.nomerge++; return false; }
  }

  // returns false if the instruction has to be re-executed (never), handles one instruction
  void step(){
    top(); Block&B=f->f->blocks[f->blk]; Instr&I=B.ins[f->pc]; I.hit=true; st->steps++; S.instr++;
    switch(I.op){
      case I_BIN: for(int k=0;k<I.n;k++){ V b=get(I.b,k); V a=get(I.a,k);
        if(I.sub==O_UDIV||I.sub==O_SDIV||I.sub==O_UREM||I.sub==O_SREM){ if(!b.e&&b.c==0&&I.w<=64) pathViol(*st,"division-by-zero"); }
        f->s[I.dst+k]=binop((Op)I.sub,I.w,a,b); } f->pc++; break;
      case I_ICMP: for(int k=0;k<I.n;k++) f->s[I.dst+k]=cmp(I.sub,I.w,get(I.a,k),get(I.b,k)); f->pc++; break;
      case I_TRUNC: for(int k=0;k<I.n;k++){ V a=get(I.a,k); if(!a.e) f->s[I.dst+k]=mkc(a.c&(u64)maskw(I.w2)); else { Expr*e=P.extract(a.e,0,I.w2); f->s[I.dst+k]=I.w2>64?V{0,e}:fromE(e); } } f->pc++; break;
      case I_ZEXT: for(int k=0;k<I.n;k++){ V a=get(I.a,k); if(!a.e&&I.w2<=64) f->s[I.dst+k]=a; else { Expr*e=P.zext(toE(a,I.w),I.w2); f->s[I.dst+k]=I.w2>64?V{0,e}:fromE(e); } } f->pc++; break;
      case I_SEXT: for(int k=0;k<I.n;k++){ V a=get(I.a,k); if(!a.e&&I.w2<=64) f->s[I.dst+k]=mkc((u64)sx(a.c,I.w)&(u64)maskw(I.w2)); else { Expr*e=P.sext(toE(a,I.w),I.w2); f->s[I.dst+k]=I.w2>64?V{0,e}:fromE(e); } } f->pc++; break;
      case I_RECAST: { auto&sl=TP.leaves(I.ty); auto&dl=TP.leaves(I.tys[0]); unsigned tot=0; for(auto&l:sl) tot+=l.w; if(tot>128) throw Unsupported("wide bitcast"); Expr*e=nullptr; for(size_t k=0;k<sl.size();k++){ Expr*x=toE(get(I.a,k),sl[k].w); e=e?P.concat(x,e):x; } unsigned o=0; for(size_t k=0;k<dl.size();k++){ Expr*x=P.extract(e,o,dl[k].w); f->s[I.dst+k]=dl[k].w>64?V{0,x}:fromE(x); o+=dl[k].w; } f->pc++; break; }
      case I_XELT: { u64 i=conc(I.b); if(i>=I.w) pathViol(*st,"extractelement-oob"); f->s[I.dst]=get(I.a,i); f->pc++; break; }
      case I_IELT: { u64 i=conc(I.c); if(i>=I.w) pathViol(*st,"insertelement-oob"); V x=get(I.b); vector<V> t; for(unsigned k=0;k<I.w;k++) t.push_back(k==i?x:get(I.a,k)); for(unsigned k=0;k<I.w;k++) f->s[I.dst+k]=t[k]; f->pc++; break; }
      case I_SHUF: { vector<V> t; for(auto m:I.ks){ u64 i=(u64)m; t.push_back(i<I.w?get(I.a,i):i<2*I.w?get(I.b,i-I.w):get(I.a,0)); } for(size_t k=0;k<t.size();k++) f->s[I.dst+k]=t[k]; f->pc++; break; }
      case I_COPY: for(int k=0;k<I.nd;k++) f->s[I.dst+k]=get(I.a,k); f->pc++; break;
      case I_SELECT: { if(I.n>1){ auto&lv=TP.leaves(I.ty); for(int k=0;k<I.nd;k++){ V c=get(I.a,k),x=get(I.b,k),y=get(I.c,k); if(!c.e) f->s[I.dst+k]=c.c?x:y; else { Expr*e=P.ite(c.e,toE(x,lv[k].w),toE(y,lv[k].w)); f->s[I.dst+k]=fromE(e); } } f->pc++; break; }
          V c=get(I.a); if(!c.e){ int o=c.c?I.b:I.c; for(int k=0;k<I.nd;k++) f->s[I.dst+k]=get(o,k); }
          else { auto&lv=TP.leaves(I.ty); for(int k=0;k<I.nd;k++){ V x=get(I.b,k),y=get(I.c,k); if(!x.e&&!y.e&&x.c==y.c) f->s[I.dst+k]=x; else { Expr*e=P.ite(c.e,toE(x,lv[k].w),toE(y,lv[k].w)); f->s[I.dst+k]=lv[k].w>64?V{0,e}:fromE(e); } } }
          f->pc++; break; }
      case I_ALLOCA: { u64 a=alloc(I.imm,I.w,false); f->al.push_back(a); setD(I,mkc(a)); f->pc++; break; }
      case I_LOAD: doLoad(I); f->pc++; break;
      case I_STORE: { u64 a=conc(I.b); auto&lv=TP.leaves(I.ty); if(I.ty->k==T_VEC&&I.ty->el->w%8) throw Unsupported("bit vector store"); for(size_t k=0;k<lv.size();k++) store(a+lv[k].off,lv[k].w,get(I.a,k)); f->pc++; break; }
      case I_GEP: { V a=get(I.a); V r=a; if(I.imm) r=binop(O_ADD,64,r,mkc(I.imm)); for(size_t k=0;k<I.ops.size();k++){ V ix=get(I.ops[k]); unsigned w=I.tys[k]->w; if(w<64){ if(!ix.e) ix=mkc((u64)sx(ix.c,w)); else ix=fromE(P.sext(ix.e,64)); } r=binop(O_ADD,64,r,binop(O_MUL,64,ix,mkc((u64)I.ks[k]))); } setD(I,r); f->pc++; break; }
      case I_BR: jump(*f,I.t1); break;
      case I_CBR: { V c=get(I.a); bool t; if(!c.e) t=c.c; else { if(tryMerge(I)) break; int t1=I.t1,t2=I.t2; t=decide(c.e,[&](State&n,bool o){ jumpIn(n,o?t1:t2); }); top(); } jump(*f,t?I.t1:I.t2); break; }
      case I_SWITCH: doSwitch(I); break;
      case I_RET: { V r[64]; int n=0; if(I.a>=0){ n=cnt(I.a); if(n>64) throw Unsupported("ret size"); for(int k=0;k<n;k++) r[k]=get(I.a,k); }
          for(u64 a:f->al) st->mem.erase(a); int rs=f->ret,rn=f->retn,cb=f->contBlk; st->fr.pop_back(); if(st->fr.empty()) return; top(); if(rs>=0) for(int k=0;k<n&&k<rn;k++) f->s[rs+k]=r[k]; if(cb>=0) jump(*f,cb); else f->pc++; break; }
      case I_EXTRACT: for(int k=0;k<I.nd;k++) f->s[I.dst+k]=get(I.a,I.imm+k); f->pc++; break;
      case I_INSERT: { for(int k=0;k<I.nd;k++){ V v= (k>=(int)I.imm&&k<(int)(I.imm+I.w))? get(I.b,k-I.imm): get(I.a,k); f->s[I.dst+k]=v; } f->pc++; break; }
      case I_RMW: { u64 a=conc(I.a); V o=load(a,I.w),b=get(I.b),n; if(I.name=="xchg") n=b; else if(I.name=="add") n=binop(O_ADD,I.w,o,b); else if(I.name=="sub") n=binop(O_SUB,I.w,o,b); else if(I.name=="or") n=binop(O_OR,I.w,o,b); else if(I.name=="and") n=binop(O_AND,I.w,o,b); else throw Unsupported("atomicrmw"); store(a,I.w,n); setD(I,o); f->pc++; break; }
      case I_CMPXCHG: { u64 a=conc(I.a); u64 e=conc(I.b); V o=load(a,I.w); if(o.e) throw Unsupported("symbolic cmpxchg"); bool ok=o.c==e; if(ok) store(a,I.w,get(I.c)); f->s[I.dst]=o; f->s[I.dst+1]=mkc(ok); f->pc++; break; }
      case I_UNREACH: pathViol(*st,"unreachable"); break;
      case I_CALL: call(I); break;
      case I_UNSUP: throw Unsupported(I.name);
      default: throw Unsupported("op");
    }
  }
  void doLoad(Instr&I){
    V av=get(I.a); auto&lv=TP.leaves(I.ty); if(I.ty->k==T_VEC&&I.ty->el->w%8) throw Unsupported("bit vector load");
    if(av.e){ // symbolic address: constant tables become ite chains, anything else forks
      auto vs=values(av.e,1024); bool tab=vs.size()<=1024&&lv.size()==1; if(tab) for(auto&p:vs){ ObjP o=find((u64)p.first,(lv[0].w+7)/8); if(!o||!o->ro){ tab=false; break; } }
      if(tab){ Expr*r=nullptr; 
        // contiguous table: build from the last entry backwards
        for(auto&p:vs){ V v=load((u64)p.first,lv[0].w); Expr*x=toE(v,lv[0].w); r=r?P.ite(P.bin(O_EQ,av.e,P.cst(p.first,64)),x,r):x; }
        f->s[I.dst]=lv[0].w>64?V{0,r}:fromE(r); return; }
      u64 a=conc(I.a); for(size_t k=0;k<lv.size();k++) f->s[I.dst+k]=load(a+lv[k].off,lv[k].w); return; }
    for(size_t k=0;k<lv.size();k++) f->s[I.dst+k]=load(av.c+lv[k].off,lv[k].w);
  }
  void doSwitch(Instr&I){
    V v=get(I.a);
    if(!v.e||P.isc(v.e)){ u128 x=v.e?v.e->imm:v.c; int t=I.t1; for(size_t k=0;k<I.ks.size();k++) if(I.ks[k]==x){ t=I.blks[k]; break; } jump(*f,t); return; }
    if(tryMerge(I)) return;
    // group the cases by target block
    vector<int> tg; vector<Expr*> cs; Expr*any=P.cst(0,1);
    for(size_t k=0;k<I.ks.size();k++){ Expr*q=P.bin(O_EQ,v.e,P.cst(I.ks[k],I.w)); any=P.bor(any,q); if(I.blks[k]==I.t1) continue; size_t j=0; while(j<tg.size()&&tg[j]!=I.blks[k]) j++; if(j==tg.size()){ tg.push_back(I.blks[k]); cs.push_back(q); } else cs[j]=P.bor(cs[j],q); }
    Expr*d=P.cst(1,1); for(auto*c:cs) d=P.band(d,P.bnot(c)); tg.push_back(I.t1); cs.push_back(d);
    vector<size_t> feas; vector<vector<u8>> ms; for(size_t j=0;j<cs.size();j++){ vector<u8> m; Res r=query(*st,cs[j],&m); if(r==UNK){ incomplete="solver unknown"; throw PathEnd(); } if(r==SAT){ feas.push_back(j); ms.push_back(m); } }
    if(feas.empty()) throw Unsupported("switch: no feasible case");
    for(size_t x=1;x<feas.size();x++){ StateP n(new State(*st)); addC(*n,cs[feas[x]]); n->model=ms[x]; n->forks++; n->h=(n->h^(x+3))*1099511628211ull; jumpIn(*n,tg[feas[x]]); if(shardKeep(*n)){ S.forks++; work.push_back(std::move(n)); } else S.shardSkip++; }
    if(feas.size()>1){ addC(*st,cs[feas[0]]); st->model=ms[0]; st->forks++; st->h=(st->h^3)*1099511628211ull; if(!shardKeep(*st)){ S.shardSkip++; throw PathEnd(); } }
    top(); jump(*f,tg[feas[0]]);
  }
  enum { B_NONE=-1, B_U8, B_ASSUME, B_ASSERT, B_COVER, B_PICK, B_TRACE, B_MEMCPY, B_MEMSET, B_BCMP, B_MEMCMP, B_STRLEN, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMALIGN, B_ABORT, B_UADDO,B_USUBO,B_UMULO,B_SADDO,B_SSUBO,B_SMULO,B_UMIN,B_UMAX,B_SMIN,B_SMAX,B_USUBSAT,B_UADDSAT,B_SSUBSAT,B_SADDSAT,B_CTPOP,B_CTLZ,B_CTTZ,B_BSWAP,B_FSHL,B_FSHR,B_ABS,B_UCMP,B_SCMP,B_ISCONST,B_EXPECT,B_TLS,B_PANIC,B_BITREV,B_IDENT,B_REDOR,B_REDAND,B_REDADD };
  static int builtinOf(const string&n){
    static const map<string,int> ex={{"sym_u8",B_U8},{"sym_assume",B_ASSUME},{"sym_assert",B_ASSERT},{"sym_cover",B_COVER},{"sym_pick",B_PICK},{"sym_trace",B_TRACE},{"bcmp",B_BCMP},{"memcmp",B_MEMCMP},{"strlen",B_STRLEN},{"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"posix_memalign",B_MEMALIGN},{"abort",B_ABORT},{"memcpy",B_MEMCPY},{"memmove",B_MEMCPY},{"memset",B_MEMSET},{"llvm.trap",B_ABORT},{"sym_panic",B_PANIC}};
    auto it=ex.find(n); if(it!=ex.end()) return it->second;
    static const vector<std::pair<string,int>> pf={{"llvm.memcpy",B_MEMCPY},{"llvm.memmove",B_MEMCPY},{"llvm.memset",B_MEMSET},{"llvm.uadd.with",B_UADDO},{"llvm.usub.with",B_USUBO},{"llvm.umul.with",B_UMULO},{"llvm.sadd.with",B_SADDO},{"llvm.ssub.with",B_SSUBO},{"llvm.smul.with",B_SMULO},{"llvm.umin",B_UMIN},{"llvm.umax",B_UMAX},{"llvm.smin",B_SMIN},{"llvm.smax",B_SMAX},{"llvm.usub.sat",B_USUBSAT},{"llvm.uadd.sat",B_UADDSAT},{"llvm.ssub.sat",B_SSUBSAT},{"llvm.sadd.sat",B_SADDSAT},{"llvm.ctpop",B_CTPOP},{"llvm.ctlz",B_CTLZ},{"llvm.cttz",B_CTTZ},{"llvm.bswap",B_BSWAP},{"llvm.bitreverse",B_BITREV},{"llvm.fshl",B_FSHL},{"llvm.fshr",B_FSHR},{"llvm.abs",B_ABS},{"llvm.ucmp",B_UCMP},{"llvm.scmp",B_SCMP},{"llvm.is.constant",B_ISCONST},{"llvm.expect",B_EXPECT},{"llvm.threadlocal.address",B_TLS},{"llvm.vector.reduce.or",B_REDOR},{"llvm.vector.reduce.and",B_REDAND},{"llvm.vector.reduce.add",B_REDADD},{"llvm.launder",B_IDENT},{"llvm.strip.inv",B_IDENT},{"llvm.ssa.copy",B_IDENT}};
    for(auto&p:pf) if(n.compare(0,p.first.size(),p.first)==0) return p.second;
    if(n.find("9panicking")!=string::npos&&n.find("core")!=string::npos) return B_PANIC;
    if(n.find("17rust_begin_unwind")!=string::npos||n.find("handle_alloc_error")!=string::npos||n.find("16slice_index_fail")!=string::npos) return B_PANIC;
    return B_NONE;
  }
  void enter(Func*g,Instr&I,int ret,int retn,int cont,const vector<V>&args){
    if(!g->parsed){ FParser fp; fp.parse(g); }
    g->entered=true; FrameP n=std::make_shared<Frame>(); n->f=g; n->s.assign(g->nslots,mkc(0)); n->ret=ret; n->retn=retn; n->contBlk=cont; for(size_t i=0;i<args.size()&&i<n->s.size();i++) n->s[i]=args[i];
    st->fr.push_back(n); if(st->fr.size()>400) pathViol(*st,"stack-overflow"); }
  void call(Instr&I){
    int bi; Func*g=nullptr;
    if(I.a<0){ if(I.builtin==-2){ I.builtin=builtinOf(I.name); if(I.builtin==B_NONE){ auto it=M.funcs.find(I.name); I.fn=it==M.funcs.end()?nullptr:it->second; } } bi=I.builtin; g=I.fn; }
    else { u64 a=conc(I.a); auto it=M.faddr.find(a); if(it==M.faddr.end()) pathViol(*st,"bad-function-pointer"); bi=builtinOf(it->second); if(bi==B_NONE){ auto q=M.funcs.find(it->second); g=q==M.funcs.end()?nullptr:q->second; } }
    if(bi==B_NONE){ if(!g) throw Unsupported("call to external "+I.name);
      vector<V> args; for(size_t i=0;i<I.ops.size();i++){ if(I.ks[i]){ u64 sz=(u64)I.ks[i]; u64 s=conc(I.ops[i]); u64 a=alloc(sz,16,false); f->al.push_back(a); copyMem(a,s,sz); args.push_back(mkc(a)); } else { int n=cnt(I.ops[i]); for(int k=0;k<n;k++) args.push_back(get(I.ops[i],k)); } }
      enter(g,I,I.dst,I.nd,I.t1,args); return; }
    builtin(bi,I);
  }
  void done(Instr&I){ top(); if(I.t1>=0) jump(*f,I.t1); else f->pc++; }
  void builtin(int bi,Instr&I){
    unsigned w=I.ops.empty()?0:(I.tys[0]->w);
    if(bi>=B_REDOR&&bi<=B_REDADD){ unsigned ew=I.tys[0]->el->w; int n=cnt(I.ops[0]); V r=get(I.ops[0],0); for(int k=1;k<n;k++) r=binop(bi==B_REDOR?O_OR:bi==B_REDAND?O_AND:O_ADD,ew,r,get(I.ops[0],k)); setD(I,r); done(I); return; }
    if(!I.ops.empty()&&I.tys[0]->k==T_VEC) throw Unsupported("vector intrinsic "+I.name); auto A=[&](int i){ return get(I.ops[i]); };
    switch(bi){
      case B_U8: { unsigned v=st->nv; if(O.isConcrete){ u8 b=v<O.concrete.size()?O.concrete[v]:0; st->nv++; st->dom.push_back(BFULL); st->ent.push_back(0); st->model.push_back(b); setD(I,mkc(b)); done(I); return; }
        st->nv++; if(st->nv>60000) throw Unsupported("too many inputs"); if(st->dom.size()<st->nv){ st->dom.push_back(BFULL); st->ent.push_back(0); st->model.push_back(0); } setD(I,V{0,P.var(v)}); done(I); return; }
      case B_ASSUME: { V c=A(0); if(!c.e){ if(!c.c){ S.pruned++; throw PathEnd(); } done(I); return; } vector<u8> m; Res r=query(*st,c.e,&m); if(r==UNSAT){ S.pruned++; throw PathEnd(); } if(r==UNK){ incomplete="solver unknown"; throw PathEnd(); } addC(*st,c.e); st->model=m; done(I); return; }
      case B_ASSERT: { V c=A(0); u32 id=(u32)A(1).c;
        // only crashes count: what the harness asserts is taken as given
        if(O.crashes){ if(!c.e){ if(!c.c){ S.pruned++; throw PathEnd(); } done(I); return; }
          if(!evalb(c.e,st->model)){ vector<u8> m; Res r=query(*st,c.e,&m); if(r==UNSAT){ S.pruned++; throw PathEnd(); } if(r==UNK){ incomplete="solver unknown"; throw PathEnd(); } st->model=m; }
          addC(*st,c.e); done(I); return; }
        S.asserts++; assertCount[id]++;
        if(!c.e){ if(c.c) S.foldAssert++; else { violate(*st,"assert",id,st->model); throw PathEnd(); } done(I); return; }
        if(!evalb(c.e,st->model)){ violate(*st,"assert",id,st->model); throw PathEnd(); }
        vector<u8> m; Res r=refute(*st,c.e,&m); if(r==SAT){ violate(*st,"assert",id,m); throw PathEnd(); } if(r==UNK){ incomplete="solver unknown on assertion"; throw PathEnd(); } done(I); return; }
      case B_COVER: st->covers.push_back((u32)A(0).c); done(I); return;
      case B_PICK: { V v=A(0); u64 c=v.e?concE(v.e):v.c; top(); setD(I,mkc(c)); done(I); return; }
      case B_TRACE: st->trace.push_back(A(0)); done(I); return;
      case B_MEMCPY: { u64 n=conc(I.ops[2]); if(n){ u64 d=conc(I.ops[0]),s=conc(I.ops[1]); copyMem(d,s,n); } if(I.dst>=0) setD(I,A(0)); done(I); return; }
      case B_MEMSET: { u64 n=conc(I.ops[2]); V v=A(1); if(I.tys[1]->w>8) v= v.e? fromE(P.extract(v.e,0,8)):mkc(v.c&255); if(n){ u64 d=conc(I.ops[0]); Obj*o=wr(d,n); u64 off=d-o->base; if(!v.e){ memset(&o->d[off],(int)v.c,n); if(!o->s.empty()) std::fill(o->s.begin()+off,o->s.begin()+off+n,nullptr); } else { symz(*o); std::fill(o->s.begin()+off,o->s.begin()+off+n,v.e); } } if(I.dst>=0) setD(I,A(0)); done(I); return; }
      case B_BCMP: case B_MEMCMP: { u64 n=conc(I.ops[2]); if(!n){ setD(I,mkc(0)); done(I); return; } u64 a=conc(I.ops[0]),b=conc(I.ops[1]); rd(a,n); rd(b,n);
        Expr*r=P.cst(0,32); for(u64 k=n;k-->0;){ V x=byteAt(a+k),y=byteAt(b+k); Expr*ex=toE(x,8),*ey=toE(y,8); Expr*eq=P.bin(O_EQ,ex,ey); Expr*d= bi==B_BCMP? P.cst(1,32) : P.ite(P.bin(O_ULT,ex,ey),P.cst(0xffffffff,32),P.cst(1,32)); r=P.ite(eq,r,d); }
        setD(I,fromE(r)); done(I); return; }
      case B_STRLEN: { u64 a=conc(I.ops[0]); u64 n=0; for(;;){ V v=byteAt(a+n); if(v.e) throw Unsupported("symbolic strlen"); if(!v.c) break; n++; } setD(I,mkc(n)); done(I); return; }
      case B_MALLOC: { u64 n=conc(I.ops[0]); setD(I,mkc(alloc(n,16,true))); done(I); return; }
      case B_CALLOC: { u64 n=conc(I.ops[0])*conc(I.ops[1]); u64 a=alloc(n,16,true); Obj*o=wr(a,n?n:0); if(n) std::fill(o->d.begin(),o->d.end(),0); setD(I,mkc(a)); done(I); return; }
      case B_MEMALIGN: { u64 al=conc(I.ops[1]),n=conc(I.ops[2]); u64 p=conc(I.ops[0]); store(p,64,mkc(alloc(n,al,true))); setD(I,mkc(0)); done(I); return; }
      case B_REALLOC: { u64 p=conc(I.ops[0]),n=conc(I.ops[1]); u64 a=alloc(n,16,true); if(p){ ObjP o=find(p,0); if(!o||o->base!=p||!o->heap) pathViol(*st,"bad-realloc"); copyMem(a,p,std::min<u64>(n,o->size)); st->mem.erase(p); } setD(I,mkc(a)); done(I); return; }
      case B_FREE: { u64 p=conc(I.ops[0]); if(p){ auto it=st->mem.find(p); if(it==st->mem.end()||!it->second->heap) pathViol(*st,"bad-free"); st->mem.erase(it); } done(I); return; }
      case B_ABORT: pathViol(*st,"abort"); return;
      case B_PANIC: pathViol(*st,"panic"); return;
      case B_UADDO: { V a=A(0),b=A(1); V r=binop(O_ADD,w,a,b); f->s[I.dst]=r; f->s[I.dst+1]= w>64? fromE(P.bin(O_ULT,toE(r,w),toE(a,w))) : cmp(P_ULT,w,r,a); done(I); return; }
      case B_USUBO: { V a=A(0),b=A(1); f->s[I.dst]=binop(O_SUB,w,a,b); f->s[I.dst+1]= w>64? fromE(P.bin(O_ULT,toE(a,w),toE(b,w))) : cmp(P_ULT,w,a,b); done(I); return; }
      case B_UMULO: { V a=A(0),b=A(1); if(w>64) throw Unsupported("umul128"); f->s[I.dst]=binop(O_MUL,w,a,b); if(!a.e&&!b.e){ u128 x=(u128)a.c*b.c; f->s[I.dst+1]=mkc((x>>w)!=0); } else { if(a.e&&!b.e) std::swap(a,b); if(!a.e&&a.c){ u64 lim=(u64)(maskw(w)/a.c); f->s[I.dst+1]=cmp(P_UGT,w,b,mkc(lim)); } else if(!a.e) f->s[I.dst+1]=mkc(0); else { Expr*x=P.bin(O_MUL,P.zext(a.e,2*w),P.zext(b.e,2*w)); f->s[I.dst+1]=fromE(P.bnot(P.bin(O_EQ,P.extract(x,w,w),P.cst(0,w)))); } } done(I); return; }
      case B_SADDO: case B_SSUBO: case B_SMULO: { if(w>63) { if(bi==B_SMULO) throw Unsupported("smulo64"); } V a=A(0),b=A(1); Op op=bi==B_SADDO?O_ADD:bi==B_SSUBO?O_SUB:O_MUL; unsigned w2=bi==B_SMULO?2*w:w+1; Expr*x=P.bin(op,P.sext(toE(a,w),w2),P.sext(toE(b,w),w2)); Expr*lo=P.extract(x,0,w); f->s[I.dst]=fromE(lo); f->s[I.dst+1]=fromE(P.bnot(P.bin(O_EQ,P.sext(lo,w2),x))); done(I); return; }
      case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: { V a=A(0),b=A(1); int pr=bi==B_UMIN?P_ULT:bi==B_UMAX?P_UGT:bi==B_SMIN?P_SLT:P_SGT; V c=cmp(pr,w,a,b); if(!c.e) setD(I,c.c?a:b); else setD(I,fromE(P.ite(c.e,toE(a,w),toE(b,w)))); done(I); return; }
      case B_USUBSAT: { V a=A(0),b=A(1); V c=cmp(P_ULT,w,a,b); V d=binop(O_SUB,w,a,b); if(!c.e) setD(I,c.c?mkc(0):d); else setD(I,fromE(P.ite(c.e,P.cst(0,w),toE(d,w)))); done(I); return; }
      case B_UADDSAT: { V a=A(0),b=A(1); V d=binop(O_ADD,w,a,b); V c=cmp(P_ULT,w,d,a); if(!c.e) setD(I,c.c?mkc((u64)maskw(w)):d); else setD(I,fromE(P.ite(c.e,P.cst(maskw(w),w),toE(d,w)))); done(I); return; }
      case B_SSUBSAT: case B_SADDSAT: throw Unsupported("ssat");
      case B_CTPOP: { V a=A(0); if(!a.e) setD(I,mkc(__builtin_popcountll(a.c))); else { Expr*r=P.cst(0,w); for(unsigned i=0;i<w;i++) r=P.bin(O_ADD,r,P.zext(P.extract(a.e,i,1),w)); setD(I,fromE(r)); } done(I); return; }
      case B_CTLZ: { V a=A(0); if(!a.e) setD(I,mkc(a.c?__builtin_clzll(a.c)-(64-w):w)); else { Expr*r=P.cst(w,w); for(unsigned i=0;i<w;i++) r=P.ite(P.extract(a.e,i,1),P.cst(w-1-i,w),r); setD(I,fromE(r)); } done(I); return; }
      case B_CTTZ: { V a=A(0); if(!a.e) setD(I,mkc(a.c?__builtin_ctzll(a.c):w)); else { Expr*r=P.cst(w,w); for(unsigned i=w;i-->0;) r=P.ite(P.extract(a.e,i,1),P.cst(i,w),r); setD(I,fromE(r)); } done(I); return; }
      case B_BSWAP: { V a=A(0); if(!a.e&&w<=64){ u64 r=0; for(unsigned i=0;i<w/8;i++) r|=((a.c>>(8*i))&255)<<(w-8-8*i); setD(I,mkc(r)); } else { Expr*x=toE(a,w),*r=nullptr; for(unsigned i=0;i<w/8;i++){ Expr*b=P.extract(x,8*i,8); r=r?P.concat(r,b):b; } setD(I,w>64?V{0,r}:fromE(r)); } done(I); return; }
      case B_BITREV: { V a=A(0); Expr*x=toE(a,w),*r=nullptr; for(unsigned i=0;i<w;i++){ Expr*b=P.extract(x,i,1); r=r?P.concat(r,b):b; } setD(I,fromE(r)); done(I); return; }
      case B_FSHL: case B_FSHR: { V a=A(0),b=A(1),c=A(2); if(!c.e&&w<=64){ unsigned k=c.c%w; if(k==0) setD(I,bi==B_FSHL?a:b); else { unsigned l=bi==B_FSHL?k:w-k; setD(I,binop(O_OR,w,binop(O_SHL,w,a,mkc(l)),binop(O_LSHR,w,b,mkc(w-l)))); } } else { if(w>64) throw Unsupported("fsh128"); Expr*x=P.concat(toE(a,w),toE(b,w)); Expr*k=P.bin(O_UREM,toE(c,w),P.cst(w,w)); Expr*k2=P.zext(k,2*w); setD(I,fromE(bi==B_FSHL? P.extract(P.bin(O_SHL,x,k2),w,w):P.extract(P.bin(O_LSHR,x,k2),0,w))); } done(I); return; }
      case B_ABS: { V a=A(0); V c=cmp(P_SLT,w,a,mkc(0)); V n=binop(O_SUB,w,mkc(0),a); if(!c.e) setD(I,c.c?n:a); else setD(I,fromE(P.ite(c.e,toE(n,w),toE(a,w)))); done(I); return; }
      case B_UCMP: case B_SCMP: { V a=A(0),b=A(1); unsigned rw=I.ty->w; Expr*x=toE(a,w),*y=toE(b,w); Op lt=bi==B_UCMP?O_ULT:O_SLT; Expr*r=P.ite(P.bin(lt,x,y),P.cst(maskw(rw),rw),P.ite(P.bin(O_EQ,x,y),P.cst(0,rw),P.cst(1,rw))); setD(I,fromE(r)); done(I); return; }
      case B_ISCONST: setD(I,mkc(0)); done(I); return;
      case B_EXPECT: case B_TLS: case B_IDENT: setD(I,A(0)); done(I); return;
    }
    throw Unsupported("builtin");
  }
};

static void jstr(FILE*o,const string&s){ fputc('"',o); for(char c:s){ if(c=='"'||c=='\\') { fputc('\\',o); fputc(c,o);} else if((unsigned char)c<32) fprintf(o,"\\u%04x",c); else fputc(c,o);} fputc('"',o); }
static void jbytes(FILE*o,const vector<u8>&b){ fputc('[',o); for(size_t i=0;i<b.size();i++) fprintf(o,"%s%d",i?",":"",b[i]); fputc(']',o); }
static size_t rssMB(){ FILE*f=fopen("/proc/self/statm","r"); if(!f) return 0; long a,b=0; if(fscanf(f,"%ld %ld",&a,&b)!=2) b=0; fclose(f); return b*4096/1048576; }

int main(int argc,char**argv){
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
    if(a=="--ll") O.ll=nx(); else if(a=="--entry") O.entry=nx(); else if(a=="--out") O.out=nx(); else if(a=="--time") O.tmax=atof(nx().c_str()); else if(a=="--steps") O.stepMax=atoll(nx().c_str()); else if(a=="--z3only") O.z3only=true; else if(a=="--nomerge") O.nomerge=true; else if(a=="--crashes") O.crashes=true; else if(a=="--samples") O.samples=atoi(nx().c_str()); else if(a=="--mem") O.memMB=atoll(nx().c_str()); else if(a=="--maxviol") O.maxViol=atoi(nx().c_str()); else if(a=="-v") O.verbose=true;
    else if(a=="--shard"){ string s=nx(); sscanf(s.c_str(),"%d/%d/%d",&O.shardI,&O.shardN,&O.shardD); }
    else if(a=="--concrete"){ O.isConcrete=true; string s=nx(); std::stringstream ss(s); string t; while(getline(ss,t,',')) if(!t.empty()) O.concrete.push_back(atoi(t.c_str())); }
    else { fprintf(stderr,"bad arg %s\n",a.c_str()); return 2; } }
  double t0=now(); Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); Z=Z3_mk_context(cfg); Z3_set_error_handler(Z,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); _exit(3); });
  SV=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,SV); { Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),500); Z3_solver_set_params(Z,SV,p); }
  M.globalAddr=globalAddr; M.load(O.ll); double t1=now();
  auto it=M.funcs.find(O.entry); if(it==M.funcs.end()){ fprintf(stderr,"no entry %s\n",O.entry.c_str()); return 2; }
  { StateP s(new State); FParser fp; fp.parse(it->second); it->second->entered=true; FrameP f=std::make_shared<Frame>(); f->f=it->second; f->s.assign(it->second->nslots,mkc(0)); s->fr.push_back(f); work.push_back(std::move(s)); }
  u64 sampleEvery=1;
  while(!work.empty()&&incomplete.empty()){
    StateP s=std::move(work.back()); work.pop_back(); Exec ex; ex.st=s.get();
    try { u64 k=0; while(!s->fr.empty()){ ex.step(); if((++k&0xfff)==0){ if(now()-t0>O.tmax){ incomplete="time limit"; break; } } if(s->steps>O.stepMax) pathViol(*s,"step-limit"); }
      if(!incomplete.empty()) break;
      S.paths++; for(u32 c:s->covers) covers[c]++;
      if(S.paths%sampleEvery==0&&!O.isConcrete){ if((int)samples.size()>=O.samples){ // thin out
            vector<Sample> t; for(size_t i=0;i<samples.size();i+=2) t.push_back(samples[i]); samples.swap(t); sampleEvery*=2; }
        if(S.paths%sampleEvery==0){ Sample sm; sm.bytes.assign(s->model.begin(),s->model.begin()+s->nv); for(auto&v:s->trace) sm.trace.push_back(v.e?(u64)P.eval(v.e,s->model.data()):v.c); samples.push_back(sm); } }
      else if(O.isConcrete){ Sample sm; for(auto&v:s->trace) sm.trace.push_back(v.c); samples.push_back(sm); }
    } catch(PathEnd&){ } catch(Unsupported&u){ incomplete=string("unsupported: ")+u.what()+" at "+where(*s); }
    S.maxSteps=std::max(S.maxSteps,s->steps); S.maxVars=std::max(S.maxVars,s->nv);
    if((int)viols.size()>=O.maxViol) break;
    if((S.paths&63)==0){ if(now()-t0>O.tmax) incomplete="time limit"; if(rssMB()>O.memMB) incomplete="memory limit"; }
  }
  FILE*o=O.out.empty()?stdout:fopen(O.out.c_str(),"w");
  string status=!viols.empty()?"violation":!incomplete.empty()?"incomplete":"ok";
  fprintf(o,"{\"entry\":"); jstr(o,O.entry); fprintf(o,",\"status\":\"%s\",\"incomplete\":",status.c_str()); jstr(o,incomplete);
  fprintf(o,",\"paths\":%" PRIu64 ",\"pruned\":%" PRIu64 ",\"instructions\":%" PRIu64 ",\"forks\":%" PRIu64 ",\"branch_queries\":%" PRIu64 ",\"assert_queries\":%" PRIu64 ",\"assert_unsat\":%" PRIu64 ",\"assert_folded\":%" PRIu64 ",\"asserts\":%" PRIu64 ",\"query_cache_hits\":%" PRIu64 ",\"domain_decisions\":%" PRIu64 ",\"unknown\":%" PRIu64 ",\"concretizations\":%" PRIu64 ",\"witness_sat\":%" PRIu64 ",\"merges\":%" PRIu64 ",\"merge_failures\":%" PRIu64 ",\"cut_decisions\":%" PRIu64 ",\"solver_fallbacks\":%" PRIu64 ",\"max_path_instructions\":%" PRIu64 ",\"max_input_bytes\":%u,\"solver_s\":%.3f,\"wall_s\":%.3f,\"load_s\":%.3f,\"rss_mb\":%zu",S.paths,S.pruned,S.instr,S.forks,S.qBranch,S.qAssert,S.qAssertUnsat,S.foldAssert,S.asserts,S.qCache,S.domDecide,S.unknown,S.concretize,S.witness,S.merges,S.nomerge,S.cut,S.fallback,S.maxSteps,S.maxVars,S.zt,now()-t0,t1-t0,rssMB());
  fprintf(o,",\"covers\":{"); bool fi=true; for(auto&p:covers){ fprintf(o,"%s\"%u\":%" PRIu64,fi?"":",",p.first,p.second); fi=false; }
  fprintf(o,"},\"assert_ids\":{"); fi=true; for(auto&p:assertCount){ fprintf(o,"%s\"%u\":%" PRIu64,fi?"":",",p.first,p.second); fi=false; }
  fprintf(o,"},\"violations\":["); for(size_t i=0;i<viols.size();i++){ fprintf(o,"%s{\"kind\":\"%s\",\"id\":%u,\"bytes\":",i?",":"",viols[i].kind.c_str(),viols[i].id); jbytes(o,viols[i].bytes); fprintf(o,",\"where\":"); jstr(o,viols[i].where); fprintf(o,"}"); }
  fprintf(o,"],\"samples\":["); for(size_t i=0;i<samples.size();i++){ fprintf(o,"%s{\"bytes\":",i?",":""); jbytes(o,samples[i].bytes); fprintf(o,",\"trace\":["); for(size_t k=0;k<samples[i].trace.size();k++) fprintf(o,"%s%" PRIu64,k?",":"",samples[i].trace[k]); fprintf(o,"]}"); }
  fprintf(o,"],\"functions\":["); fi=true; for(auto&p:M.funcs) if(p.second->entered){ if(!fi) fputc(',',o); fi=false; jstr(o,p.first); }
  fprintf(o,"],\"dbg\":["); fi=true; std::unordered_set<int> ds; for(auto&p:M.funcs) if(p.second->entered) for(auto&b:p.second->blocks) for(auto&i:b.ins) if(i.hit&&i.dbg>=0&&ds.insert(i.dbg).second){ fprintf(o,"%s%d",fi?"":",",i.dbg); fi=false; }
  fprintf(o,"]}\n"); if(o!=stdout) fclose(o);
  return status=="ok"?0:status=="violation"?1:3;
}
