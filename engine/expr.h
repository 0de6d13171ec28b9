// Hash-consed bit-vector expressions over symbolic input bytes.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <memory>
#include <map>
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE };

struct Bits256 { u64 w[4];
  bool any() const { return w[0]|w[1]|w[2]|w[3]; }
  bool all() const { return (w[0]&w[1]&w[2]&w[3])==~0ull; }
  bool get(unsigned i) const { return (w[i>>6]>>(i&63))&1; }
  void set(unsigned i) { w[i>>6]|=1ull<<(i&63); }
  int count() const { return __builtin_popcountll(w[0])+__builtin_popcountll(w[1])+__builtin_popcountll(w[2])+__builtin_popcountll(w[3]); }
  Bits256 operator&(const Bits256&o) const { return {{w[0]&o.w[0],w[1]&o.w[1],w[2]&o.w[2],w[3]&o.w[3]}}; }
  Bits256 operator~() const { return {{~w[0],~w[1],~w[2],~w[3]}}; }
  int first() const { for(int i=0;i<4;i++) if(w[i]) return i*64+__builtin_ctzll(w[i]); return -1; }
};
static const Bits256 BFULL={{~0ull,~0ull,~0ull,~0ull}};

typedef std::vector<uint16_t> VarSet;

struct Expr {
  Op op; uint16_t w; u32 id; Expr *a,*b,*c; u128 imm; // imm: const value / var index / extract low bit
  const VarSet* vs;   // interned support
  Bits256* tt;        // truth table (w==1, single var)
  Z3_ast z;
  // evaluation memo
  u64 epoch; u128 val;
  u128* vt;           // value table (single var)
};

static inline u128 maskw(unsigned w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
static inline i128 sx(u128 v,unsigned w){ if(w>=128) return (i128)v; u128 s=(u128)1<<(w-1); return (i128)((v^s)-s); }

struct Key { Op op; uint16_t w; Expr*a,*b,*c; u128 imm;
  bool operator==(const Key&o) const { return op==o.op&&w==o.w&&a==o.a&&b==o.b&&c==o.c&&imm==o.imm; } };
struct KeyH { size_t operator()(const Key&k) const { u64 h=k.op*0x9E3779B97F4A7C15ull; auto mix=[&](u64 x){ h^=x; h*=0xff51afd7ed558ccdull; h^=h>>32; };
  mix(k.w); mix((u64)k.a); mix((u64)k.b); mix((u64)k.c); mix((u64)k.imm); mix((u64)(k.imm>>64)); return h; } };

struct ExprPool {
  std::unordered_map<Key,Expr*,KeyH> tab;
  std::vector<Expr*> all;
  std::map<VarSet,VarSet*> vsets;
  const VarSet* empty;
  u64 epoch=1;
  ExprPool(){ empty=internVS(VarSet()); }
  const VarSet* internVS(const VarSet&v){ auto it=vsets.find(v); if(it!=vsets.end()) return it->second; auto*p=new VarSet(v); vsets[v]=p; return p; }
  const VarSet* uni(const VarSet*a,const VarSet*b){ if(a==b||b->empty()) return a; if(a->empty()) return b; VarSet r; std::set_union(a->begin(),a->end(),b->begin(),b->end(),std::back_inserter(r)); return internVS(r); }
  Expr* raw(Op op,unsigned w,Expr*a,Expr*b,Expr*c,u128 imm){
    Key k{op,(uint16_t)w,a,b,c,imm}; auto it=tab.find(k); if(it!=tab.end()) return it->second;
    Expr*e=(Expr*)calloc(1,sizeof(Expr)); e->op=op;e->w=w;e->a=a;e->b=b;e->c=c;e->imm=imm;e->id=all.size(); all.push_back(e);
    if(op==O_VAR) e->vs=internVS(VarSet{(uint16_t)imm});
    else { const VarSet*s=empty; if(a)s=uni(s,a->vs); if(b)s=uni(s,b->vs); if(c)s=uni(s,c->vs); e->vs=s; }
    tab.emplace(k,e); return e;
  }
  Expr* cst(u128 v,unsigned w){ return raw(O_CONST,w,0,0,0,v&maskw(w)); }
  Expr* var(unsigned i){ return raw(O_VAR,8,0,0,0,i); }
  static u128 fold(Op op,unsigned w,u128 x,u128 y,unsigned aw){
    u128 m=maskw(w);
    switch(op){
      case O_ADD: return (x+y)&m; case O_SUB: return (x-y)&m; case O_MUL: return (x*y)&m;
      case O_UDIV: return y? (x/y)&m : m; case O_UREM: return y? (x%y)&m : x;
      case O_SDIV: { i128 p=sx(x,w),q=sx(y,w); if(!q) return p<0?1:m; if(q==-1) return (u128)(-p)&m; return (u128)(p/q)&m; }
      case O_SREM: { i128 p=sx(x,w),q=sx(y,w); if(!q) return x; if(q==-1) return 0; return (u128)(p%q)&m; }
      case O_AND: return x&y; case O_OR: return x|y; case O_XOR: return x^y;
      case O_SHL: return y>=w?0:(x<<(unsigned)y)&m; case O_LSHR: return y>=w?0:(x>>(unsigned)y);
      case O_ASHR: { i128 p=sx(x,w); unsigned s=y>=w?w-1:(unsigned)y; return (u128)(p>>s)&m; }
      case O_EQ: return x==y; case O_ULT: return x<y; case O_ULE: return x<=y;
      case O_SLT: return sx(x,aw)<sx(y,aw); case O_SLE: return sx(x,aw)<=sx(y,aw);
      default: abort();
    }
  }
  // after construction, booleans over one byte collapse to constants where possible
  Expr* finish(Expr*e){
    if(e->w==1 && e->op!=O_CONST && e->op!=O_VAR && e->vs->size()==1){ Bits256*t=truth(e); if(!t->any()) return cst(0,1); if(t->all()) return cst(1,1); }
    return e;
  }
  bool isc(Expr*e) const { return e->op==O_CONST; }
  Expr* bnot(Expr*e){
    if(isc(e)) return cst(!e->imm,1);
    if(e->op==O_XOR && isc(e->b) && e->b->imm==1) return e->a;
    if(e->op==O_ULT) return bin(O_ULE,e->b,e->a);
    if(e->op==O_ULE) return bin(O_ULT,e->b,e->a);
    if(e->op==O_SLT) return bin(O_SLE,e->b,e->a);
    if(e->op==O_SLE) return bin(O_SLT,e->b,e->a);
    return raw(O_XOR,1,e,cst(1,1),0,0);
  }
  Expr* bin(Op op,Expr*a,Expr*b){
    unsigned w=a->w; bool cmp=op>=O_EQ&&op<=O_SLE; unsigned rw=cmp?1:w;
    if(a->w!=b->w){ fprintf(stderr,"width mismatch op %d %d %d\n",op,a->w,b->w); abort(); }
    if(isc(a)&&isc(b)) return cst(fold(op,w,a->imm,b->imm,w),rw);
    bool comm=op==O_ADD||op==O_MUL||op==O_AND||op==O_OR||op==O_XOR||op==O_EQ;
    if(comm && (isc(a) || (!isc(b)&&a->id>b->id))) std::swap(a,b);
    u128 m=maskw(w);
    if(isc(b)){
      u128 k=b->imm;
      switch(op){
        case O_ADD: if(!k) return a; if(a->op==O_ADD&&isc(a->b)) return bin(O_ADD,a->a,cst(a->b->imm+k,w)); if(a->op==O_ITE&&isc(a->b)&&isc(a->c)) return ite(a->a,cst(a->b->imm+k,w),cst(a->c->imm+k,w)); break;
        case O_SUB: if(!k) return a; return bin(O_ADD,a,cst((~k+1)&m,w));
        case O_MUL: if(!k) return b; if(k==1) return a; if((k&(k-1))==0){ unsigned s=0; while(((k>>s)&1)==0) s++; return bin(O_SHL,a,cst(s,w)); } break;
        case O_UDIV: if(k==1) return a; if(k&&(k&(k-1))==0){ unsigned s=0; while(((k>>s)&1)==0) s++; return bin(O_LSHR,a,cst(s,w)); } break;
        case O_UREM: if(k&&(k&(k-1))==0) return bin(O_AND,a,cst(k-1,w)); break;
        case O_AND: if(!k) return b; if(k==m) return a;
          if(a->op==O_AND&&isc(a->b)) return bin(O_AND,a->a,cst(a->b->imm&k,w));
          if((k&(k+1))==0){ unsigned n=0; while((k>>n)&1) n++; return zext(extract(a,0,n),w); }
          if(a->op==O_ZEXT){ return zext(bin(O_AND,a->a,cst(k,a->a->w)),w); }
          if(a->op==O_CONCAT){ unsigned lw=a->b->w; u128 klo=k&maskw(lw), khi=k>>lw; if(klo==0||khi==0||klo==maskw(lw)||khi==maskw(a->a->w)) return concat(bin(O_AND,a->a,cst(khi,a->a->w)),bin(O_AND,a->b,cst(klo,lw))); }
          break;
        case O_OR: if(!k) return a; if(k==m) return b;
          if(a->op==O_ZEXT && (k>>a->a->w)==0) return zext(bin(O_OR,a->a,cst(k,a->a->w)),w);
          break;
        case O_XOR: if(!k) return a; if(a->op==O_XOR&&isc(a->b)) return bin(O_XOR,a->a,cst(a->b->imm^k,w)); break;
        case O_SHL: if(!k) return a; if(k>=w) return cst(0,w); return concat(extract(a,0,w-(unsigned)k),cst(0,(unsigned)k));
        case O_LSHR: if(!k) return a; if(k>=w) return cst(0,w); return zext(extract(a,(unsigned)k,w-(unsigned)k),w);
        case O_ASHR: if(!k) return a; if(k<w) return sext(extract(a,(unsigned)k,w-(unsigned)k),w); break;
        case O_EQ:
          if(w==1) return k? a : bnot(a);
          if(a->op==O_ZEXT){ if(k>>a->a->w) return cst(0,1); return bin(O_EQ,a->a,cst(k,a->a->w)); }
          if(a->op==O_SEXT){ u128 t=k&maskw(a->a->w); if(((u128)sx(t,a->a->w)&m)!=k) return cst(0,1); return bin(O_EQ,a->a,cst(t,a->a->w)); }
          if(a->op==O_ADD&&isc(a->b)) return bin(O_EQ,a->a,cst(k-a->b->imm,w));
          if(a->op==O_XOR&&isc(a->b)) return bin(O_EQ,a->a,cst(k^a->b->imm,w));
          if(a->op==O_CONCAT){ unsigned lw=a->b->w; return band(bin(O_EQ,a->a,cst(k>>lw,a->a->w)),bin(O_EQ,a->b,cst(k,lw))); }
          if(a->op==O_ITE){
            if(isc(a->b)&&isc(a->c)){ bool t=a->b->imm==k,f=a->c->imm==k; if(t&&f) return cst(1,1); if(t) return a->a; if(f) return bnot(a->a); return cst(0,1); }
            if(isc(a->b)||isc(a->c)) return ite(a->a,bin(O_EQ,a->b,b),bin(O_EQ,a->c,b));
          }
          break;
        case O_ULT: if(!k) return cst(0,1); if(k==1) return bin(O_EQ,a,cst(0,w));
          if(a->op==O_ZEXT){ if(k>>a->a->w) return cst(1,1); return bin(O_ULT,a->a,cst(k,a->a->w)); }
          if(a->op==O_CONCAT&&isc(a->a)&&a->a->imm==0&&(k>>a->b->w)) return cst(1,1);
          if(a->op==O_ITE&&(isc(a->b)||isc(a->c))) return ite(a->a,bin(op,a->b,b),bin(op,a->c,b));
          break;
        case O_ULE: if(k==m) return cst(1,1); return bin(O_ULT,a,cst(k+1,w));
        case O_SLT: case O_SLE:
          if(a->op==O_ZEXT && !(k>>(w-1))) return bin(op==O_SLT?O_ULT:O_ULE,a,b);
          if(a->op==O_ZEXT && (k>>(w-1))) return cst(0,1);
          if(a->op==O_ITE&&(isc(a->b)||isc(a->c))) return ite(a->a,bin(op,a->b,b),bin(op,a->c,b));
          break;
        default: break;
      }
    }
    if(isc(a)){
      u128 k=a->imm;
      switch(op){
        case O_SHL: case O_LSHR: case O_ASHR: if(!k) return a; break;
        case O_ULT: if(k==m) return cst(0,1);
          if(b->op==O_ZEXT){ if(k>>b->a->w) return cst(0,1); return bin(O_ULT,cst(k,b->a->w),b->a); }
          if(b->op==O_ITE&&(isc(b->b)||isc(b->c))) return ite(b->a,bin(op,a,b->b),bin(op,a,b->c));
          break;
        case O_ULE: if(!k) return cst(1,1); return bin(O_ULT,cst(k-1,w),b);
        case O_SLT: case O_SLE:
          if(b->op==O_ZEXT && !(k>>(w-1))) return bin(op==O_SLT?O_ULT:O_ULE,a,b);
          if(b->op==O_ZEXT && (k>>(w-1))) return cst(1,1);
          break;
        default: break;
      }
    }
    if(a==b) switch(op){ case O_SUB: case O_XOR: return cst(0,w); case O_AND: case O_OR: return a; case O_EQ: case O_ULE: case O_SLE: return cst(1,1); case O_ULT: case O_SLT: return cst(0,1); default: break; }
    if(op==O_OR){ // disjoint combination of concat/zext parts: (x<<k)|zext(y)
      Expr*x=a,*y=b; if(x->op!=O_CONCAT) std::swap(x,y);
      if(x->op==O_CONCAT && isc(x->b) && x->b->imm==0){ unsigned lw=x->b->w;
        if(y->op==O_ZEXT && y->a->w<=lw) return concat(x->a,zext(y->a,lw));
        if(y->op==O_CONCAT && isc(y->a) && y->a->imm==0 && y->b->w<=lw) return concat(x->a,zext(y->b,lw)); }
    }
    if(w==1){
      if(op==O_EQ) return bnot(bin(O_XOR,a,b));
      if(op==O_AND||op==O_OR){ if(bnot(a)==b) return cst(op==O_OR,1); }
    }
    if((op==O_EQ||op==O_ULT||op==O_ULE)&&a->op==O_ZEXT&&b->op==O_ZEXT&&a->a->w==b->a->w) return bin(op,a->a,b->a);
    if(op==O_EQ&&a->op==O_CONCAT&&b->op==O_CONCAT&&a->b->w==b->b->w) return band(bin(O_EQ,a->a,b->a),bin(O_EQ,a->b,b->b));
    return finish(raw(op,rw,a,b,0,0));
  }
  Expr* band(Expr*a,Expr*b){ return bin(O_AND,a,b); }
  Expr* bor(Expr*a,Expr*b){ return bin(O_OR,a,b); }
  Expr* ite(Expr*c,Expr*t,Expr*f){
    if(isc(c)) return c->imm?t:f; if(t==f) return t;
    if(c->op==O_XOR&&c->w==1&&isc(c->b)) return ite(c->a,f,t);
    if(t->w==1){ if(isc(t)&&isc(f)) return t->imm?c:bnot(c);
      if(isc(t)) return t->imm? bor(c,f) : band(bnot(c),f);
      if(isc(f)) return f->imm? bor(bnot(c),t) : band(c,t); }
    if(t->op==O_ITE&&t->a==c) t=t->b; if(f->op==O_ITE&&f->a==c) f=f->c; if(t==f) return t;
    return finish(raw(O_ITE,t->w,c,t,f,0));
  }
  Expr* zext(Expr*a,unsigned w){ if(a->w==w) return a; if(isc(a)) return cst(a->imm,w); if(a->op==O_ZEXT) return zext(a->a,w);
    if(a->op==O_ITE&&isc(a->b)&&isc(a->c)) return ite(a->a,cst(a->b->imm,w),cst(a->c->imm,w));
    return raw(O_ZEXT,w,a,0,0,0); }
  Expr* sext(Expr*a,unsigned w){ if(a->w==w) return a; if(isc(a)) return cst((u128)sx(a->imm,a->w),w); if(a->op==O_ZEXT) return zext(a->a,w);
    if(a->op==O_ITE&&isc(a->b)&&isc(a->c)) return ite(a->a,sext(a->b,w),sext(a->c,w));
    return raw(O_SEXT,w,a,0,0,0); }
  Expr* concat(Expr*hi,Expr*lo){
    unsigned w=hi->w+lo->w; if(w>128){ fprintf(stderr,"concat too wide\n"); abort(); }
    if(isc(hi)&&isc(lo)) return cst((hi->imm<<lo->w)|lo->imm,w);
    if(isc(hi)&&hi->imm==0) return zext(lo,w);
    if(hi->op==O_EXTRACT&&lo->op==O_EXTRACT&&hi->a==lo->a&&hi->imm==lo->imm+lo->w) return extract(hi->a,(unsigned)lo->imm,w);
    if(hi->op==O_ZEXT && hi->a->w<hi->w) return zext(concat(hi->a,lo),w);
    if(hi->op==O_ITE&&lo->op==O_ITE&&hi->a==lo->a&&isc(hi->b)&&isc(hi->c)&&isc(lo->b)&&isc(lo->c)) return ite(hi->a,concat(hi->b,lo->b),concat(hi->c,lo->c));
    if(isc(hi)&&lo->op==O_ITE&&isc(lo->b)&&isc(lo->c)) return ite(lo->a,concat(hi,lo->b),concat(hi,lo->c));
    if(hi->op==O_CONCAT&&isc(hi->b)&&isc(lo)) return concat(hi->a,concat(hi->b,lo));
    return raw(O_CONCAT,w,hi,lo,0,0);
  }
  static bool nar(Expr*e){ return e->op==O_CONST||e->op==O_ZEXT||e->op==O_CONCAT; }
  Expr* extract(Expr*a,unsigned lo,unsigned w){
    if(lo==0&&w==a->w) return a; if(isc(a)) return cst(a->imm>>lo,w);
    switch(a->op){
      case O_EXTRACT: return extract(a->a,(unsigned)a->imm+lo,w);
      case O_ZEXT: if(lo>=a->a->w) return cst(0,w); if(lo+w<=a->a->w) return extract(a->a,lo,w); return zext(extract(a->a,lo,a->a->w-lo),w);
      case O_SEXT: if(lo+w<=a->a->w) return extract(a->a,lo,w); break;
      case O_CONCAT: { unsigned lw=a->b->w; if(lo>=lw) return extract(a->a,lo-lw,w); if(lo+w<=lw) return extract(a->b,lo,w); return concat(extract(a->a,0,lo+w-lw),extract(a->b,lo,lw-lo)); }
      case O_AND: case O_OR: case O_XOR: if(nar(a->a)||nar(a->b)) return bin(a->op,extract(a->a,lo,w),extract(a->b,lo,w)); break;
      case O_ADD: case O_SUB: case O_MUL: if(lo==0&&nar(a->a)&&nar(a->b)&&w<=8) return bin(a->op,extract(a->a,0,w),extract(a->b,0,w)); break;
      case O_ITE: if(isc(a->b)||isc(a->c)||w==1) return ite(a->a,extract(a->b,lo,w),extract(a->c,lo,w)); break;
      default: break;
    }
    return finish(raw(O_EXTRACT,w,a,0,0,lo));
  }
  // concrete evaluation under an assignment of input bytes
  u128 evalN(Expr*e,const u8*m){
    if(e->op==O_CONST) return e->imm; if(e->op==O_VAR) return m[(unsigned)e->imm];
    if(e->epoch==epoch) return e->val;
    u128 r;
    switch(e->op){
      case O_CONCAT: r=(evalN(e->a,m)<<e->b->w)|evalN(e->b,m); break;
      case O_EXTRACT: r=(evalN(e->a,m)>>(unsigned)e->imm)&maskw(e->w); break;
      case O_ZEXT: r=evalN(e->a,m); break;
      case O_SEXT: r=(u128)sx(evalN(e->a,m),e->a->w)&maskw(e->w); break;
      case O_ITE: r=evalN(e->a,m)?evalN(e->b,m):evalN(e->c,m); break;
      default: r=fold(e->op,(e->op>=O_EQ)?1:e->w,evalN(e->a,m),evalN(e->b,m),e->a->w);
    }
    e->epoch=epoch; e->val=r; return r;
  }
  u128 eval(Expr*e,const u8*m){ epoch++; return evalN(e,m); }
  u8 scratch[65536];
  Bits256* truth(Expr*e){
    if(e->tt) return e->tt; Bits256*t=new Bits256{{0,0,0,0}}; unsigned v=(*e->vs)[0];
    // use tables of children if present to keep this cheap
    for(int i=0;i<256;i++){ scratch[v]=i; if(eval(e,scratch)) t->set(i); }
    e->tt=t; return t;
  }
};
extern ExprPool P;
