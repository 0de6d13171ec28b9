// Parser for the textual LLVM IR that rustc writes (function bodies are parsed lazily).
#pragma once
#include "expr.h"
#include <string_view>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <functional>
using std::string; using std::string_view; using std::vector; using std::map; using std::shared_ptr;

struct V { u64 c; Expr* e; };
static inline V mkc(u64 c){ return V{c,nullptr}; }
static inline V fromE(Expr*e){ if(e->op==O_CONST&&e->w<=64) return V{(u64)e->imm,nullptr}; return V{0,e}; }
static inline Expr* toE(const V&v,unsigned w){ if(v.e){ if(v.e->w!=w){ fprintf(stderr,"toE width %d vs %d\n",v.e->w,w); abort(); } return v.e; } return P.cst(v.c,w); }

enum TK { T_VOID,T_INT,T_PTR,T_ARR,T_STRUCT,T_VEC,T_FLOAT,T_LABEL,T_META,T_FUNC };
struct Leaf { u64 off; unsigned w; };
struct Type { TK k; unsigned w=0; u64 n=0; Type* el=nullptr; vector<Type*> els; bool packed=false; u64 size=0, align=1; vector<u64> offs; vector<Leaf> leaves; bool leavesDone=false; };

struct Unsupported : std::runtime_error { using runtime_error::runtime_error; };

struct TypePool {
  map<string,Type*> named; Type *tvoid,*tptr,*tlabel,*tmeta; map<unsigned,Type*> ints; vector<Type*> all;
  map<std::pair<u64,Type*>,Type*> arrs; map<std::pair<bool,vector<Type*>>,Type*> structs;
  TypePool(){ tvoid=mk(T_VOID); tptr=mk(T_PTR); tptr->size=8; tptr->align=8; tptr->w=64; tlabel=mk(T_LABEL); tmeta=mk(T_META); }
  Type* mk(TK k){ Type*t=new Type; t->k=k; all.push_back(t); return t; }
  Type* intT(unsigned w){ auto&t=ints[w]; if(!t){ t=mk(T_INT); t->w=w; t->size=w<=8?1:w<=16?2:w<=32?4:w<=64?8:(w+63)/64*8; t->align=w>64?16:t->size; } return t; }
  Type* arr(u64 n,Type*e){ auto&t=arrs[{n,e}]; if(!t){ t=mk(T_ARR); t->n=n;t->el=e;t->size=n*e->size;t->align=e->align; } return t; }
  Type* str(bool p,const vector<Type*>&v){ auto&t=structs[{p,v}]; if(!t){ t=mk(T_STRUCT); t->packed=p; t->els=v; u64 o=0,al=1; for(auto*e:v){ u64 a=p?1:e->align; o=(o+a-1)/a*a; t->offs.push_back(o); o+=e->size; al=std::max(al,a);} t->align=al; t->size=(o+al-1)/al*al; } return t; }
  vector<Leaf>& leaves(Type*t){ if(!t->leavesDone){ t->leavesDone=true; build(t,0,t->leaves);} return t->leaves; }
  void build(Type*t,u64 off,vector<Leaf>&o){ switch(t->k){ case T_INT: o.push_back({off,t->w}); break; case T_PTR: o.push_back({off,64}); break;
    case T_ARR: for(u64 i=0;i<t->n;i++) build(t->el,off+i*t->el->size,o); break;
    case T_STRUCT: for(size_t i=0;i<t->els.size();i++) build(t->els[i],off+t->offs[i],o); break;
    case T_VEC: if(t->el->k!=T_INT&&t->el->k!=T_PTR) throw Unsupported("float vector"); for(u64 i=0;i<t->n;i++) o.push_back({i*(t->el->w/8),t->el->w}); break; case T_VOID: break; default: throw Unsupported("leaves of unsupported type"); } }
  int nleaves(Type*t){ return (int)leaves(t).size(); }
};
extern TypePool TP;

struct Opn { int slot; int ci; int n; }; // slot>=0: local value (value id until patched); else constant pool index

enum IOp : u8 { I_BIN, I_ICMP, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_SELECT, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_PHI, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_EXTRACT, I_INSERT, I_RMW, I_CMPXCHG, I_NOP, I_UNSUP, I_XELT, I_IELT, I_SHUF, I_RECAST };
enum Pred { P_EQ,P_NE,P_UGT,P_UGE,P_ULT,P_ULE,P_SGT,P_SGE,P_SLT,P_SLE };

struct Func;
struct Instr { IOp op; int n=1; u8 sub=0; unsigned w=0,w2=0; int dst=-1,nd=0; int a=-1,b=-1,c=-1; Type*ty=nullptr; int t1=-1,t2=-1; // blocks
  vector<int> ops; vector<u128> ks; vector<int> blks; u64 imm=0; string name; int dbg=-1; bool hit=false; int mok=0,mfail=0; int builtin=-2; Func*fn=nullptr; vector<Type*> tys; };

struct Block { vector<Instr> ins; int nphi=0; };
struct Param { Type*t; int slot; bool byval=false; Type*bt=nullptr; };
struct Func { string name; const char*beg; const char*end; string header; bool parsed=false; vector<Block> blocks; vector<Opn> ops; int nslots=0; vector<uint16_t> sw; vector<int> rpo; vector<Param> params; Type*ret=nullptr; int dbgsub=-1; bool entered=false; u64 addr=0; bool varargs=false; };

struct GlobalDef { string name; const char*beg; const char*end; bool parsed=false; bool isConst=false,isExt=false; u64 addr=0; Type*t=nullptr; u64 align=1; };

struct Module {
  string text; map<string,Func*> funcs; map<string,GlobalDef*> globals; map<string,string> aliases; std::unordered_set<string> decls;
  map<u64,string> faddr; u64 nextF=0x100000; map<string,u64> fa;
  vector<V> cpool;
  std::function<u64(const string&)> globalAddr; // provided by engine
  u64 funcAddr(const string&n){ auto it=fa.find(n); if(it!=fa.end()) return it->second; u64 a=nextF; nextF+=16; fa[n]=a; faddr[a]=n; return a; }

  void load(const string&path){
    { std::ifstream f(path,std::ios::binary); if(!f) throw std::runtime_error("cannot open "+path); std::stringstream ss; ss<<f.rdbuf(); text=ss.str(); }
    const char*p=text.c_str(),*e=p+text.size();
    while(p<e){ const char*nl=(const char*)memchr(p,'\n',e-p); if(!nl) nl=e; string_view l(p,nl-p);
      if(l.size()>7&&l.substr(0,7)=="define "){ // until "\n}\n"
        const char*q=strstr(nl,"\n}"); Func*f=new Func; f->header=string(l); f->beg=nl+1; f->end=q?q:e; size_t at=f->header.find(" @"); size_t i=at+2; f->name=readName(f->header,i); funcs[f->name]=f; p=q?q+2:e; continue; }
      if(!l.empty()&&l[0]=='@'){ string s(l); size_t i=1; string n=readName(s,i); if(s.find(" = ")!=string::npos){ size_t al=s.find(" alias "); if(al!=string::npos && al<200){ size_t at=s.find('@',al); size_t j=at+1; aliases[n]=readName(s,j); } else { auto*g=new GlobalDef; g->name=n; g->beg=p; g->end=nl; globals[n]=g; } } }
      else if(l.size()>8&&l.substr(0,8)=="declare "){ string s(l); size_t at=s.find(" @"); size_t i=at+2; decls.insert(readName(s,i)); }
      else if(!l.empty()&&l[0]=='%'){ string s(l); size_t eq=s.find(" = type "); if(eq!=string::npos){ pendingTypes[s.substr(1,eq-1)]=s.substr(eq+8); } }
      p=nl+1; }
  }
  map<string,string> pendingTypes;
  static string readName(const string&s,size_t&i){ string r; if(s[i]=='"'){ i++; while(s[i]!='"') r+=s[i++]; i++; } else while(i<s.size()&&(isalnum((unsigned char)s[i])||strchr("$._-",s[i]))) r+=s[i++]; return r; }
};
extern Module M;

struct Lex {
  const char*p,*e;
  Lex(const char*b,const char*en):p(b),e(en){}
  void ws(){ while(p<e&&(*p==' '||*p=='\t'||*p=='\n'||*p=='\r')) p++; }
  bool eof(){ ws(); return p>=e; }
  char peek(){ ws(); return p<e?*p:0; }
  bool lit(const char*s){ ws(); size_t n=strlen(s); if((size_t)(e-p)>=n&&!memcmp(p,s,n)){ if(isalpha((unsigned char)s[n-1])&&p+n<e&&(isalnum((unsigned char)p[n])||p[n]=='_'||p[n]=='.')) return false; p+=n; return true; } return false; }
  void need(const char*s){ if(!lit(s)) throw Unsupported(string("expected '")+s+"' at: "+string(p,std::min<size_t>(60,e-p))); }
  string word(){ ws(); string r; while(p<e&&(isalnum((unsigned char)*p)||*p=='_'||*p=='.')) r+=*p++; return r; }
  string peekWord(){ const char*s=p; string r=word(); p=s; return r; }
  string name(){ string r; if(*p=='"'){ p++; while(*p!='"') r+=*p++; p++; } else while(p<e&&(isalnum((unsigned char)*p)||strchr("$._-",*p))) r+=*p++; return r; }
  void skipBal(){ // at '(' '[' '{'
    int d=0; do { char c=*p++; if(c=='"'){ while(*p!='"') p++; p++; } else if(c=='('||c=='['||c=='{') d++; else if(c==')'||c==']'||c=='}') d--; } while(d>0&&p<e); }
  string decint(){ ws(); string r; if(*p=='-') r+=*p++; while(p<e&&isdigit((unsigned char)*p)) r+=*p++; return r; }
};

static inline u128 parseInt(const string&s){ bool neg=s[0]=='-'; u128 v=0; for(size_t i=neg;i<s.size();i++) v=v*10+(s[i]-'0'); return neg?(u128)0-v:v; }

struct FParser {
  int unnEntry=0; Func*F=nullptr; map<string,int> vids; vector<Type*> vtypes; vector<int> vslot; map<string,int> bids;
  int vid(const string&n){ auto it=vids.find(n); if(it!=vids.end()) return it->second; int id=vids.size(); vids[n]=id; vtypes.push_back(nullptr); vslot.push_back(-1); return id; }
  int bid(const string&n){ auto it=bids.find(n); if(it!=bids.end()) return it->second; int id=bids.size(); bids[n]=id; if((int)F->blocks.size()<=id) F->blocks.resize(id+1); return id; }

  static Type* type(Lex&L){
    L.ws(); Type*t=nullptr; char c=*L.p;
    if(c=='['){ L.p++; u64 n=(u64)parseInt(L.decint()); L.need("x"); Type*e=type(L); L.need("]"); t=TP.arr(n,e); }
    else if(c=='<'){ if(L.lit("<{")){ vector<Type*> v; if(!L.lit("}>")){ do v.push_back(type(L)); while(L.lit(",")); L.need("}>"); } t=TP.str(true,v); }
      else { L.p++; u64 n=(u64)parseInt(L.decint()); L.need("x"); Type*e=type(L); L.need(">"); t=vec(n,e); } }
    else if(c=='{'){ L.p++; vector<Type*> v; if(!L.lit("}")){ do v.push_back(type(L)); while(L.lit(",")); L.need("}"); } t=TP.str(false,v); }
    else if(c=='%'){ L.p++; string q; if(*L.p=='"'){ const char*s=L.p; L.name(); q=string(s,L.p-s); } else q=L.name(); auto it=TP.named.find(q); if(it!=TP.named.end()) t=it->second; else { auto pt=M.pendingTypes.find(q); if(pt==M.pendingTypes.end()) throw Unsupported("named type "+q); string s=pt->second; if(s.substr(0,6)=="opaque"){ t=TP.str(false,{}); } else { Lex L2(s.data(),s.data()+s.size()); t=type(L2);} TP.named[q]=t; } }
    else { string w=L.word(); if(w=="void") t=TP.tvoid; else if(w=="ptr"){ t=TP.tptr; if(L.lit("addrspace")){ L.ws(); L.skipBal(); } } else if(w=="label") t=TP.tlabel; else if(w=="metadata") t=TP.tmeta;
      else if(w=="float"||w=="double"||w=="half"||w=="fp128"||w=="x86_fp80"){ t=TP.mk(T_FLOAT); t->size=w=="float"?4:8; t->align=t->size; t->w=t->size*8; }
      else if(w.size()>1&&w[0]=='i'&&isdigit((unsigned char)w[1])) t=TP.intT(atoi(w.c_str()+1));
      else throw Unsupported("type '"+w+"' at: "+string(L.p,std::min<size_t>(60,L.e-L.p))); }
    return t;
  }
  static void attrs(Lex&L,Param*pm=nullptr){ for(;;){ L.ws(); if(L.p>=L.e||!isalpha((unsigned char)*L.p)) { if(*L.p=='"'){ L.name(); if(L.lit("=")){ L.ws(); L.name(); } continue; } return; }
      const char*s=L.p; string w=L.word();
      static const std::unordered_set<string> simple={"noundef","nonnull","noalias","nofree","readonly","readnone","writeonly","writable","dead_on_unwind","dead_on_return","zeroext","signext","inreg","nocapture","immarg","returned","allocptr","allocalign","nest","swiftself","noext","nocallback","nosync","willreturn","nounwind","inalloca"};
      if(simple.count(w)){ L.ws(); if(*L.p=='(') L.skipBal(); continue; }
      if(w=="align"){ L.ws(); if(*L.p=='(') L.skipBal(); else L.decint(); continue; }
      L.ws(); if(*L.p=='('&&(w=="range"||w=="dereferenceable"||w=="dereferenceable_or_null"||w=="captures"||w=="initializes"||w=="sret"||w=="byval"||w=="elementtype"||w=="memory"||w=="nofpclass"||w=="byref"||w=="preallocated"||w=="allocsize")){ if(w=="byval"&&pm){ const char*q=L.p+1; Lex l2(q,L.e); pm->byval=true; pm->bt=type(l2);} L.skipBal(); continue; }
      L.p=s; return; } }

  // constants ------------------------------------------------------------
  static void zeroC(Type*t,vector<V>&o){ for(auto&l:TP.leaves(t)) o.push_back(l.w>64? V{0,P.cst(0,l.w)}:mkc(0)); }
  static void pushInt(u128 v,unsigned w,vector<V>&o){ if(w>64) o.push_back(V{0,P.cst(v,w)}); else o.push_back(mkc((u64)(v&maskw(w)))); }
  static void constant(Lex&L,Type*t,vector<V>&o){
    L.ws(); char c=*L.p;
    if(c=='@'){ L.p++; string n=L.name(); o.push_back(mkc(symAddr(n))); return; }
    if(c=='-'||isdigit((unsigned char)c)){ if(t->k==T_FLOAT){ throw Unsupported("float const"); } string s=L.decint(); if(t->k==T_INT) pushInt(parseInt(s),t->w,o); else throw Unsupported("int const for non-int"); return; }
    if(c=='c'&&L.p[1]=='"'){ L.p+=2; while(*L.p!='"'){ if(*L.p=='\\'){ auto h=[](char x){ return x<='9'?x-'0':(x|32)-'a'+10; }; if(L.p[1]=='\\'){ o.push_back(mkc('\\')); L.p+=2; } else { o.push_back(mkc(h(L.p[1])*16+h(L.p[2]))); L.p+=3; } } else o.push_back(mkc((u8)*L.p++)); } L.p++; return; }
    if(c=='{'||c=='['||(c=='<'&&L.p[1]=='{')){ bool pk=c=='<'; L.p+=pk?2:1; const char*cl=pk?"}>":c=='{'?"}":"]"; if(L.lit(cl)) return; do { Type*et=type(L); constant(L,et,o); } while(L.lit(",")); L.need(cl); return; }
    if(c=='<'){ L.p++; do { Type*et=type(L); constant(L,et,o); } while(L.lit(",")); L.need(">"); return; }
    string w=L.word();
    if(w=="true"){ o.push_back(mkc(1)); return; } if(w=="false"){ o.push_back(mkc(0)); return; }
    if(w=="null"){ o.push_back(mkc(0)); return; }
    if(w=="splat"){ L.need("("); Type*et=type(L); vector<V> b; constant(L,et,b); L.need(")"); for(u64 i=0;i<t->n;i++) o.push_back(b[0]); return; }
    if(w=="undef"||w=="poison"||w=="zeroinitializer"||w=="none"){ zeroC(t,o); return; }
    if(w=="getelementptr"){ for(;;){ string q=L.peekWord(); if(q=="inbounds"||q=="nuw"||q=="nusw") L.word(); else if(q=="inrange"){ L.word(); L.ws(); L.skipBal(); } else break; }
      L.need("("); Type*st=type(L); L.need(","); vector<V> b; Type*pt=type(L); constant(L,pt,b); u64 a=b[0].c; bool first=true; Type*cur=st;
      while(L.lit(",")){ Type*it=type(L); vector<V> iv; constant(L,it,iv); long long ix=(long long)sx(iv[0].c,it->w); if(first){ a+=ix*(long long)st->size; first=false; } else if(cur->k==T_STRUCT){ a+=cur->offs[ix]; cur=cur->els[ix]; } else { a+=ix*(long long)cur->el->size; cur=cur->el; } }
      L.need(")"); o.push_back(mkc(a)); return; }
    if(w=="ptrtoint"||w=="inttoptr"||w=="bitcast"||w=="addrspacecast"||w=="trunc"||w=="ptrtoaddr"){ L.need("("); Type*ft=type(L); vector<V> b; constant(L,ft,b); L.need("to"); Type*tt=type(L); L.need(")"); o.push_back(mkc((u64)(b[0].c&maskw(tt->w)))); return; }
    if(w=="add"||w=="sub"||w=="mul"||w=="xor"){ while(L.peekWord()=="nuw"||L.peekWord()=="nsw") L.word(); L.need("("); Type*t1=type(L); vector<V> x,y; constant(L,t1,x); L.need(","); Type*t2=type(L); constant(L,t2,y); L.need(")"); Op op=w=="add"?O_ADD:w=="sub"?O_SUB:w=="mul"?O_MUL:O_XOR; o.push_back(mkc((u64)ExprPool::fold(op,t1->w,x[0].c,y[0].c,t1->w))); return; }
    throw Unsupported("constant '"+w+"'");
  }
  static u64 symAddr(const string&n0){ string n=n0; auto al=M.aliases.find(n); if(al!=M.aliases.end()) n=al->second; if(M.funcs.count(n)||M.decls.count(n)) return M.funcAddr(n); return M.globalAddr(n); }

  int operand(Lex&L,Type*t){ L.ws(); Opn o; if(*L.p=='%'){ L.p++; o.slot=vid(L.name()); o.ci=-1; o.n=0; }
    else { vector<V> cv; constant(L,t,cv); o.slot=-1; o.ci=M.cpool.size(); o.n=cv.size(); for(auto&v:cv) M.cpool.push_back(v); }
    F->ops.push_back(o); return F->ops.size()-1; }
  static bool iv(Type*t){ return t->k==T_INT||t->k==T_PTR||(t->k==T_VEC&&(t->el->k==T_INT||t->el->k==T_PTR)); }
  static unsigned ew(Type*t){ return t->k==T_VEC?t->el->w:t->w; }
  static int evn(Type*t){ return t->k==T_VEC?(int)t->n:1; }
  static Type* vec(u64 n,Type*e){ static map<std::pair<u64,Type*>,Type*> m; auto&t=m[{n,e}]; if(!t){ t=TP.mk(T_VEC); t->n=n; t->el=e; t->size=(n*std::max(1u,e->w)+7)/8; t->align=t->size; } return t; }
  int label(Lex&L){ L.need("label"); L.need("%"); return bid(L.name()); }

  void parse(Func*f){
    F=f; // header
    { Lex L(f->header.data()+7,f->header.data()+f->header.size());
      for(;;){ string w=L.peekWord(); static const std::unordered_set<string> lk={"internal","private","hidden","protected","dso_local","fastcc","coldcc","weak","weak_odr","linkonce","linkonce_odr","available_externally","external","extern_weak","unnamed_addr","local_unnamed_addr","ccc","tailcc","default","preserve_mostcc"}; if(lk.count(w)) L.word(); else break; }
      attrs(L); f->ret=type(L); L.need("@"); L.name(); L.need("("); int nslot=0;
      int& unn=unnEntry; unn=0;
      if(!L.lit(")")){ do { if(L.lit("...")){ f->varargs=true; break; } Param pm; pm.t=type(L); attrs(L,&pm); L.ws(); string nm; if(*L.p=='%'){ L.p++; nm=L.name(); } else nm=std::to_string(unn); if(!nm.empty()&&isdigit((unsigned char)nm[0])) unn=atoi(nm.c_str())+1; int id=vid(nm); vtypes[id]=pm.t; vslot[id]=nslot; pm.slot=nslot; setw(nslot,pm.t); nslot+=TP.nleaves(pm.t); f->params.push_back(pm); } while(L.lit(",")); }
      f->nslots=nslot; size_t d=f->header.find("!dbg !"); if(d!=string::npos) f->dbgsub=atoi(f->header.c_str()+d+6);
    }
    bool firstBlock=true; int cur=-1; const char*p=f->beg;
    while(p<f->end){ const char*nl=(const char*)memchr(p,'\n',f->end-p); if(!nl) nl=f->end; string_view l(p,nl-p);
      if(l.empty()||l[0]==';'){ p=nl+1; continue; }
      if(l[0]!=' '){ // label
        string s(l); size_t i=0; string n; if(s[0]=='"'){ i=1; while(s[i]!='"') n+=s[i++]; } else while(s[i]!=':') n+=s[i++];
        cur=bid(n); firstBlock=false; p=nl+1; continue; }
      if(firstBlock){ cur=bid(std::to_string(unnEntry)); firstBlock=false; }
      // join continuation lines
      const char*ie=nl; bool sw=l.size()&&l.back()=='['&&l.find("switch ")!=string_view::npos;
      if(sw){ while(true){ const char*n2=(const char*)memchr(ie+1,'\n',f->end-ie-1); if(!n2) n2=f->end; string_view l2(ie+1,n2-ie-1); ie=n2; if(l2.size()>=3&&l2.substr(0,3)=="  ]") break; } }
      else while(ie<f->end){ if(ie+5<f->end&&!memcmp(ie+1,"    ",4)){ const char*n2=(const char*)memchr(ie+1,'\n',f->end-ie-1); ie=n2?n2:f->end; } else break; }
      Instr I; I.op=I_UNSUP; const char*dl=nullptr; { string_view s(p,ie-p); size_t d=s.rfind("!dbg !"); if(d!=string_view::npos) I.dbg=atoi(s.data()+d+6); }
      try { instr(p,ie,I); } catch(Unsupported&u){ I.op=I_UNSUP; I.name=string(u.what())+" in: "+string(p,std::min<size_t>(ie-p,160)); 
        // still define the destination so later uses resolve
        Lex L(p,ie); L.ws(); if(*L.p=='%'){ L.p++; int id=vid(L.name()); if(!vtypes[id]) vtypes[id]=TP.tptr; def(id,I,TP.tptr); } }
      if(I.op!=I_NOP) F->blocks[cur].ins.push_back(std::move(I));
      p=ie+1; }
    // entry block must be block 0
    for(auto&o:f->ops) if(o.slot>=0){ int id=o.slot; if(vslot[id]<0) throw Unsupported("undefined local"); o.n=TP.nleaves(vtypes[id]); o.slot=vslot[id]; }
    for(auto&b:f->blocks) for(auto&i:b.ins) if(i.op==I_PHI) b.nphi++;
    f->sw.resize(f->nslots,0);
    { // reverse post-order numbering of the blocks
      int nb=f->blocks.size(); f->rpo.assign(nb,1<<28); vector<int> order; vector<char> vis(nb,0); vector<std::pair<int,size_t>> stk; auto succ=[&](int b){ vector<int> r; if(!f->blocks[b].ins.empty()){ auto&t=f->blocks[b].ins.back(); if(t.op==I_BR) r={t.t1}; else if(t.op==I_CBR) r={t.t1,t.t2}; else if(t.op==I_SWITCH){ r=t.blks; r.push_back(t.t1);} else if(t.op==I_CALL&&t.t1>=0) r={t.t1}; } return r; };
      stk.push_back({0,0}); vis[0]=1; while(!stk.empty()){ int b=stk.back().first; auto sc=succ(b); if(stk.back().second<sc.size()){ int n=sc[stk.back().second++]; if(!vis[n]){ vis[n]=1; stk.push_back({n,0}); } } else { order.push_back(b); stk.pop_back(); } }
      int k=0; for(size_t i=order.size();i-->0;) f->rpo[order[i]]=k++; }
    f->parsed=true;
  }
  void def(int id,Instr&I,Type*t){ vtypes[id]=t; I.nd=TP.nleaves(t); if(vslot[id]<0){ vslot[id]=F->nslots; F->nslots+=I.nd; setw(vslot[id],t); } I.dst=vslot[id]; }
  void setw(int s,Type*t){ auto&lv=TP.leaves(t); if(F->sw.size()<s+lv.size()) F->sw.resize(s+lv.size(),0); for(size_t k=0;k<lv.size();k++) F->sw[s+k]=(t->k==T_PTR||t->k==T_VEC)?1000:lv[k].w; }

  void instr(const char*b,const char*en,Instr&I){
    Lex L(b,en); L.ws(); int dv=-1; string dn; if(*L.p=='%'){ L.p++; dn=L.name(); dv=vid(dn); L.need("="); }
    string w=L.word();
    if(w=="tail"||w=="musttail"||w=="notail") w=L.word();
    static const map<string,Op> bins={{"add",O_ADD},{"sub",O_SUB},{"mul",O_MUL},{"udiv",O_UDIV},{"sdiv",O_SDIV},{"urem",O_UREM},{"srem",O_SREM},{"and",O_AND},{"or",O_OR},{"xor",O_XOR},{"shl",O_SHL},{"lshr",O_LSHR},{"ashr",O_ASHR}};
    auto flags=[&]{ for(;;){ string q=L.peekWord(); if(q=="nuw"||q=="nsw"||q=="exact"||q=="disjoint"||q=="nneg"||q=="samesign"||q=="inbounds"||q=="nusw"||q=="volatile"||q=="atomic"||q=="weak"||q=="fast"||q=="nnan"||q=="ninf") L.word(); else break; } };
    auto bi=bins.find(w);
    if(bi!=bins.end()){ flags(); Type*t=type(L); if(!iv(t)) throw Unsupported("vector op"); I.op=I_BIN; I.sub=bi->second; I.w=ew(t); I.n=evn(t); I.a=operand(L,t); L.need(","); I.b=operand(L,t); def(dv,I,t); return; }
    if(w=="icmp"){ flags(); string pr=L.word(); static const map<string,int> ps={{"eq",P_EQ},{"ne",P_NE},{"ugt",P_UGT},{"uge",P_UGE},{"ult",P_ULT},{"ule",P_ULE},{"sgt",P_SGT},{"sge",P_SGE},{"slt",P_SLT},{"sle",P_SLE}}; I.sub=ps.at(pr); Type*t=type(L); if(!iv(t)) throw Unsupported("vector icmp"); I.w=ew(t); I.n=evn(t); I.a=operand(L,t); L.need(","); I.b=operand(L,t); I.op=I_ICMP; def(dv,I,t->k==T_VEC?vec(t->n,TP.intT(1)):TP.intT(1)); return; }
    if(w=="trunc"||w=="zext"||w=="sext"||w=="ptrtoint"||w=="inttoptr"||w=="bitcast"||w=="ptrtoaddr"||w=="addrspacecast"){ flags(); Type*t=type(L); int a=operand(L,t); L.need("to"); Type*t2=type(L); if(!iv(t)||!iv(t2)) throw Unsupported("vector cast");
      I.a=a; if((t->k==T_VEC||t2->k==T_VEC)&&w=="bitcast"){ I.op=I_RECAST; I.ty=t; I.tys.push_back(t2); def(dv,I,t2); return; }
      I.n=evn(t); I.w=ew(t); I.w2=ew(t2); I.op=I.w2<I.w?I_TRUNC: w=="sext"?I_SEXT: I.w2==I.w?I_COPY:I_ZEXT; def(dv,I,t2); return; }
    if(w=="freeze"){ Type*t=type(L); I.a=operand(L,t); I.op=I_COPY; def(dv,I,t); return; }
    if(w=="select"){ flags(); Type*ct=type(L); if(!iv(ct)) throw Unsupported("vector select"); I.n=evn(ct); I.a=operand(L,ct); L.need(","); Type*t=type(L); I.b=operand(L,t); L.need(","); type(L); I.c=operand(L,t); I.op=I_SELECT; I.ty=t; def(dv,I,t); return; }
    if(w=="alloca"){ Type*t=type(L); I.op=I_ALLOCA; I.imm=t->size; I.w=16; I.a=-1; while(L.lit(",")){ L.ws(); if(*L.p=='!') break; if(L.lit("align")) { I.w=std::max<u64>(16,(u64)parseInt(L.decint())); } else { Type*nt=type(L); vector<V> cv; constant(L,nt,cv); I.imm*=cv[0].c; } } def(dv,I,TP.tptr); return; }
    if(w=="load"){ flags(); Type*t=type(L); L.need(","); Type*pt=type(L); I.a=operand(L,pt); I.op=I_LOAD; I.ty=t; def(dv,I,t); return; }
    if(w=="store"){ flags(); Type*t=type(L); I.a=operand(L,t); L.need(","); Type*pt=type(L); I.b=operand(L,pt); I.op=I_STORE; I.ty=t; TP.leaves(t); return; }
    if(w=="getelementptr"){ flags(); Type*st=type(L); L.need(","); Type*pt=type(L); if(pt->k!=T_PTR) throw Unsupported("vector gep"); I.a=operand(L,pt); I.op=I_GEP; bool first=true; Type*cur=st; u64 cst=0;
      while(L.lit(",")){ L.ws(); if(*L.p=='!') break; Type*it=type(L); L.ws(); if(*L.p!='%'){ vector<V> iv; constant(L,it,iv); long long ix=(long long)sx(iv[0].c,it->w); if(first) cst+=ix*(long long)st->size; else if(cur->k==T_STRUCT){ cst+=cur->offs[ix]; cur=cur->els[ix]; } else { cst+=ix*(long long)cur->el->size; cur=cur->el; } }
        else { int o=operand(L,it); u64 sc; if(first) sc=st->size; else { sc=cur->el->size; cur=cur->el; } I.ops.push_back(o); I.ks.push_back(sc); I.tys.push_back(it); }
        first=false; }
      I.imm=cst; def(dv,I,TP.tptr); return; }
    if(w=="phi"){ flags(); Type*t=type(L); I.op=I_PHI; do { L.ws(); if(*L.p=='!') break; L.need("["); int o=operand(L,t); L.need(","); L.need("%"); int bb=bid(L.name()); L.need("]"); I.ops.push_back(o); I.blks.push_back(bb); } while(L.lit(",")); def(dv,I,t); return; }
    if(w=="br"){ if(L.peekWord()=="label"){ I.op=I_BR; I.t1=label(L); return; } Type*t=type(L); I.op=I_CBR; I.a=operand(L,t); L.need(","); I.t1=label(L); L.need(","); I.t2=label(L); return; }
    if(w=="switch"){ Type*t=type(L); I.op=I_SWITCH; I.w=t->w; I.a=operand(L,t); L.need(","); I.t1=label(L); L.need("["); while(!L.lit("]")){ Type*ct=type(L); vector<V> cv; constant(L,ct,cv); L.need(","); I.blks.push_back(label(L)); I.ks.push_back(cv[0].e?cv[0].e->imm:cv[0].c); } return; }
    if(w=="ret"){ Type*t=type(L); I.op=I_RET; if(t->k!=T_VOID) I.a=operand(L,t); return; }
    if(w=="unreachable"){ I.op=I_UNREACH; return; }
    if(w=="fence"){ I.op=I_NOP; return; }
    if(w=="extractvalue"){ Type*t=type(L); I.a=operand(L,t); int off=0; Type*cur=t; while(L.lit(",")){ L.ws(); if(*L.p=='!') break; u64 ix=(u64)parseInt(L.decint()); if(cur->k==T_STRUCT){ for(u64 i=0;i<ix;i++) off+=TP.nleaves(cur->els[i]); cur=cur->els[ix]; } else { off+=ix*TP.nleaves(cur->el); cur=cur->el; } } I.op=I_EXTRACT; I.imm=off; def(dv,I,cur); return; }
    if(w=="insertvalue"){ Type*t=type(L); I.a=operand(L,t); L.need(","); Type*et=type(L); I.b=operand(L,et); int off=0; Type*cur=t; while(L.lit(",")){ L.ws(); if(*L.p=='!') break; u64 ix=(u64)parseInt(L.decint()); if(cur->k==T_STRUCT){ for(u64 i=0;i<ix;i++) off+=TP.nleaves(cur->els[i]); cur=cur->els[ix]; } else { off+=ix*TP.nleaves(cur->el); cur=cur->el; } } I.op=I_INSERT; I.imm=off; I.w=TP.nleaves(et); def(dv,I,t); return; }
    if(w=="extractelement"){ Type*t=type(L); I.a=operand(L,t); L.need(","); Type*it=type(L); I.b=operand(L,it); I.op=I_XELT; I.w=(unsigned)t->n; TP.leaves(t); def(dv,I,t->el); return; }
    if(w=="insertelement"){ Type*t=type(L); I.a=operand(L,t); L.need(","); Type*et=type(L); I.b=operand(L,et); L.need(","); Type*it=type(L); I.c=operand(L,it); I.op=I_IELT; I.w=(unsigned)t->n; def(dv,I,t); return; }
    if(w=="shufflevector"){ Type*t=type(L); I.a=operand(L,t); L.need(","); type(L); I.b=operand(L,t); L.need(","); Type*mt=type(L); vector<V> mv; constant(L,mt,mv); for(auto&v:mv) I.ks.push_back((u32)v.c); I.op=I_SHUF; I.w=(unsigned)t->n; def(dv,I,vec(mt->n,t->el)); return; }
    if(w=="atomicrmw"){ flags(); string op=L.word(); Type*pt=type(L); I.a=operand(L,pt); L.need(","); Type*t=type(L); I.b=operand(L,t); I.name=op; I.w=t->w; I.ty=t; I.op=I_RMW; def(dv,I,t); return; }
    if(w=="cmpxchg"){ flags(); Type*pt=type(L); I.a=operand(L,pt); L.need(","); Type*t=type(L); I.b=operand(L,t); L.need(","); type(L); I.c=operand(L,t); I.ty=t; I.w=t->w; I.op=I_CMPXCHG; def(dv,I,TP.str(false,{t,TP.intT(1)})); return; }
    if(w=="call"||w=="invoke"){
      flags(); for(;;){ string q=L.peekWord(); if(q=="fastcc"||q=="coldcc"||q=="ccc"||q=="tailcc"||q=="preserve_mostcc"||q=="x86_64_sysvcc") L.word(); else break; }
      attrs(L); Type*rt=type(L); L.ws(); if(*L.p=='('){ L.skipBal(); L.ws(); }
      I.op=I_CALL; I.ty=rt; bool asmc=false;
      if(*L.p=='@'){ L.p++; I.name=L.name(); auto al=M.aliases.find(I.name); if(al!=M.aliases.end()) I.name=al->second; }
      else if(*L.p=='%'){ I.a=operand(L,TP.tptr); }
      else if(L.lit("asm")){ asmc=true; }
      else throw Unsupported("callee");
      if(asmc){ // treat the empty asm used by black_box as a no-op, anything else is unsupported
        string q; while(L.p<L.e&&*L.p!='"') L.p++; q=L.name(); if(!q.empty()||rt->k!=T_VOID) throw Unsupported("inline asm"); I.op=I_NOP; return; }
      const string&n=I.name; auto pre=[&](const char*s){ return n.compare(0,strlen(s),s)==0; };
      if(pre("llvm.lifetime")||pre("llvm.dbg")||pre("llvm.experimental.noalias")||pre("llvm.assume")||pre("llvm.prefetch")||pre("llvm.x86.sse2.pause")||pre("llvm.pseudoprobe")||pre("llvm.fake.use")){ I.op=I_NOP; if(w=="invoke") throw Unsupported("invoke intrinsic"); return; }
      L.need("("); if(!L.lit(")")){ do { Type*at=type(L); if(at->k==T_META) throw Unsupported("metadata arg"); Param pm{at,0}; attrs(L,&pm); I.ops.push_back(operand(L,at)); I.tys.push_back(at); I.ks.push_back(pm.byval?pm.bt->size:0); } while(L.lit(",")); L.need(")"); }
      if(w=="invoke"){ const char*s=strstr(L.p,"to label %"); if(!s||s>=L.e) throw Unsupported("invoke"); L.p=s; L.need("to"); I.t1=label(L); }
      if(dv>=0) def(dv,I,rt); else TP.leaves(rt); return; }
    if(w=="landingpad"){ I.op=I_UNSUP; I.name="landingpad"; def(dv,I,TP.str(false,{TP.tptr,TP.intT(32)})); return; }
    if(w=="resume"||w=="cleanupret"||w=="catchret"){ I.op=I_UNSUP; I.name=w; return; }
    throw Unsupported("instruction "+w);
  }
};
