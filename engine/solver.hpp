// Decision procedure for path conditions: bit-vector terms are narrowed by
// their interval, bit-blasted and given to an incremental CDCL solver
// (MiniSat); a second, independent backend (Z3, full-width bit-vectors) is used
// for cross-checking.
#pragma once
#include <chrono>
#include "expr.hpp"
#include <map>
#include <memory>
#include <minisat/core/Solver.h>
#include <z3++.h>
#include <signal.h>
#include <sys/time.h>
#include <string.h>

struct Model { std::vector<W> v; u64 id; };
typedef std::shared_ptr<Model> ModelP;

struct Evaluator {
  Pool &P; u64 stamp=0; const Model*cur=nullptr; u64 curId=0;
  Evaluator(Pool&p):P(p){}
  void setModel(const Model*m){ if(m!=cur||m->id!=curId){ cur=m;curId=m->id; ++stamp; } }
  W ev(Expr*e){
    if(e->k==K_CONST) return e->val;
    if(e->evStamp==stamp) return e->evVal;
    W r=0; unsigned w=e->w; W m=maskw(w);
    switch(e->k){
    case K_VAR: if(e->aux<cur->v.size()) r=cur->v[e->aux]&m; else r=(e->lo<=0&&e->hi>=0)?W(0):((W)e->lo&m); break;
    case K_ADD: r=(ev(e->a[0])+ev(e->a[1]))&m; break;
    case K_SUB: r=(ev(e->a[0])-ev(e->a[1]))&m; break;
    case K_MUL: r=(ev(e->a[0])*ev(e->a[1]))&m; break;
    case K_UDIV: { W y=ev(e->a[1]); r=y?ev(e->a[0])/y:m; break; }
    case K_UREM: { W y=ev(e->a[1]); r=y?ev(e->a[0])%y:ev(e->a[0]); break; }
    case K_SDIV: { SW x=sgn(ev(e->a[0]),w),y=sgn(ev(e->a[1]),w); r=y!=0?(W)(x/y)&m:m; break; }
    case K_SREM: { SW x=sgn(ev(e->a[0]),w),y=sgn(ev(e->a[1]),w); r=y!=0?(W)(x%y)&m:(W)x&m; break; }
    case K_FLOORDIV: { SW x=sgn(ev(e->a[0]),w),y=sgn(ev(e->a[1]),w); if(y==0){r=0;break;} SW q=x/y; if(x%y!=0&&((x<0)!=(y<0))) q-=1; r=(W)q&m; break; }
    case K_AND: r=ev(e->a[0])&ev(e->a[1]); break;
    case K_OR: r=ev(e->a[0])|ev(e->a[1]); break;
    case K_XOR: r=ev(e->a[0])^ev(e->a[1]); break;
    case K_NOT: r=~ev(e->a[0])&m; break;
    case K_SHL: { W s=ev(e->a[1]); r=s>=w?W(0):(ev(e->a[0])<<(int)s)&m; break; }
    case K_LSHR: { W s=ev(e->a[1]); r=s>=w?W(0):(ev(e->a[0])>>(int)s); break; }
    case K_ASHR: { W s=ev(e->a[1]); if(s>=w) s=w-1; r=(W)(sgn(ev(e->a[0]),w)>>(int)s)&m; break; }
    case K_EQ: r=ev(e->a[0])==ev(e->a[1]); break;
    case K_ULT: r=ev(e->a[0])<ev(e->a[1]); break;
    case K_SLT: r=sgn(ev(e->a[0]),e->a[0]->w)<sgn(ev(e->a[1]),e->a[0]->w); break;
    case K_ITE: r=ev(e->a[0])?ev(e->a[1]):ev(e->a[2]); break;
    case K_CONCAT: r=(ev(e->a[0])<<(int)e->a[1]->w)|ev(e->a[1]); break;
    case K_EXTRACT: r=(ev(e->a[0])>>(int)e->aux)&m; break;
    case K_ZEXT: r=ev(e->a[0]); break;
    case K_SEXT: r=(W)sgn(ev(e->a[0]),e->a[0]->w)&m; break;
    case K_FRAT: { double d=toD(ev(e->a[0]),e->a[0]->w)/toD(ev(e->a[1]),e->a[1]->w); u64 x; memcpy(&x,&d,8); r=x; break; }
    default: r=0; }
    e->evStamp=stamp; e->evVal=r; return r;
  }
  static double toD(W v,unsigned w){ SW s=sgn(v,w); bool n=s<0; W u=n?(W)(-s):(W)s; double d=0,f=1; while(u){ d+=(double)(u64)(u&0xffffffffu)*f; f*=4294967296.0; u>>=32; } return n?-d:d; }
};

enum Res { SAT, UNSAT, UNKNOWN };

static Pool *PP;
static std::string show(Expr*e,int depth){ 
    if(e->k==K_CONST){ SW v=sgn(e->val,e->w); bool n=v<0; W u=n?(W)-v:(W)v; std::string s; do{ s.insert(s.begin(),'0'+(int)(u%10)); u/=10; }while(u!=0); return (n?"-":"")+s; }
    if(e->k==K_VAR) return PP->varNames[e->aux];
    if(depth<=0) return "..";
    std::string s="("; s+=kname[e->k]; s+=e->nowrap?"'":""; s+=std::to_string(e->w); for(int i=0;i<e->nk;i++) s+=" "+show(e->a[i],depth-1); if(e->k==K_EXTRACT) s+=" @"+std::to_string(e->aux); return s+")"; }

struct BitBlaster {
  typedef Minisat::Lit L;
  typedef std::vector<L> Bits;
  Pool &P;
  std::unique_ptr<Minisat::Solver> S;
  u32 gen=1;
  std::vector<Bits> store; // per blasted expr
  std::unordered_map<u64,L> andTab, xorTab;
  struct DivRes{Bits q,r; int v0=0,v1=0;}; DivRes*divUsed=nullptr;
  std::map<std::pair<std::pair<Expr*,Expr*>,int>,DivRes> divTab;
  L lt,lf;
  std::vector<std::pair<u32,Bits>> varBits;
  size_t maxVars=10000,baseVars=0;
  int slot=0; // 1: non-linear terms are left unconstrained (an UNSAT answer still holds)
  BitBlaster(Pool&p,int sl=0):P(p),slot(sl){ reset(); }
  void reset(){
    S.reset(new Minisat::Solver()); S->verbosity=-1; 
    ++gen; store.clear(); alias.clear(); own.clear(); coneStamp.clear(); active_.clear(); coneNow=0; andTab.clear(); xorTab.clear(); divTab.clear(); varBits.clear();
    lt=fresh(); lf=~lt; S->addClause(lt);
  }
  L fresh(){ return Minisat::mkLit(S->newVar(Minisat::lbool((uint8_t)2),false)); }
  bool isT(L a){return a==lt;} bool isF(L a){return a==lf;}
  L AND(L a,L b){
    if(a==lf||b==lf) return lf; if(a==lt) return b; if(b==lt) return a; if(a==b) return a; if(a==~b) return lf;
    if(Minisat::toInt(a)>Minisat::toInt(b)) std::swap(a,b);
    u64 key=((u64)Minisat::toInt(a)<<32)|(u32)Minisat::toInt(b);
    auto it=andTab.find(key); if(it!=andTab.end()) return it->second;
    L o=fresh(); S->addClause(~o,a); S->addClause(~o,b); S->addClause(o,~a,~b);
    andTab.emplace(key,o); return o;
  }
  L OR(L a,L b){ return ~AND(~a,~b); }
  L XOR(L a,L b){
    if(a==lf) return b; if(b==lf) return a; if(a==lt) return ~b; if(b==lt) return ~a; if(a==b) return lf; if(a==~b) return lt;
    bool neg=false; if(Minisat::sign(a)){a=~a;neg=!neg;} if(Minisat::sign(b)){b=~b;neg=!neg;}
    if(Minisat::toInt(a)>Minisat::toInt(b)) std::swap(a,b);
    u64 key=((u64)Minisat::toInt(a)<<32)|(u32)Minisat::toInt(b);
    auto it=xorTab.find(key); L o;
    if(it!=xorTab.end()) o=it->second; else {
      o=fresh(); S->addClause(~o,a,b); S->addClause(~o,~a,~b); S->addClause(o,~a,b); S->addClause(o,a,~b);
      xorTab.emplace(key,o); }
    return neg?~o:o;
  }
  L MUX(L c,L a,L b){ if(c==lt) return a; if(c==lf) return b; if(a==b) return a;
    if(a==lt) return OR(c,b); if(a==lf) return AND(~c,b); if(b==lt) return OR(~c,a); if(b==lf) return AND(c,a);
    if(a==~b) return XOR(c,b);
    L o=fresh(); S->addClause(~c,~a,o); S->addClause(~c,a,~o); S->addClause(c,~b,o); S->addClause(c,b,~o); S->addClause(~a,~b,o); S->addClause(a,b,~o); return o; }
  L MAJ(L a,L b,L c){ 
    if(a==lf) return AND(b,c); if(a==lt) return OR(b,c); if(b==lf) return AND(a,c); if(b==lt) return OR(a,c); if(c==lf) return AND(a,b); if(c==lt) return OR(a,b);
    if(a==b) return a; if(a==c) return a; if(b==c) return b; if(a==~b) return c; if(a==~c) return b; if(b==~c) return a;
    L o=fresh(); S->addClause(~a,~b,o); S->addClause(~a,~c,o); S->addClause(~b,~c,o); S->addClause(a,b,~o); S->addClause(a,c,~o); S->addClause(b,c,~o); return o; }
  L bitAt(const Bits&x,size_t i){ return i<x.size()?x[i]:x.back(); } // sign extension
  Bits addB(const Bits&a,const Bits&b,unsigned w,L cin){
    Bits r(w); L c=cin;
    for(unsigned i=0;i<w;i++){ L x=bitAt(a,i),y=bitAt(b,i); L t=XOR(x,y); r[i]=XOR(t,c); if(i+1<w) c=MAJ(x,y,c); }
    return r;
  }
  Bits notB(const Bits&a){ Bits r(a); for(auto&x:r) x=~x; return r; }
  Bits mulB(const Bits&a0,const Bits&b0,unsigned w){
    const Bits*a=&a0,*b=&b0; 
    auto cc=[&](const Bits&x){ size_t n=0; for(L l:x) if(!isT(l)&&!isF(l)) n++; return n; };
    if(cc(*a)<cc(*b)) std::swap(a,b); // b: fewer unknown bits
    Bits acc(w,lf);
    size_t nb=b->size();
    for(size_t i=0;i<nb&&i<w;i++){
      L bi=(*b)[i]; if(isF(bi)) continue;
      bool top=(i==nb-1);
      Bits t(w,lf); for(unsigned j=i;j<w;j++) t[j]=AND(bitAt(*a,j-i),bi);
      if(top&&nb<=w){ // subtract (if nb-1 is the sign position; for full width nb==w sign weight is also 2^(w-1) either way)
        if(isF(bi)) continue;
        acc=addB(acc,notB(t),w,lt);
      } else acc=addB(acc,t,w,lf);
    }
    return acc;
  }
  L ultB(const Bits&a,const Bits&b,unsigned w){ // a<b unsigned at width w (sext operands)
    L r=lf; for(unsigned i=0;i<w;i++){ L x=bitAt(a,i),y=bitAt(b,i); r=MUX(XOR(x,y),y,r); } return r; }
  L sltB(const Bits&a,const Bits&b,unsigned w){
    L r=lf; for(unsigned i=0;i+1<w;i++){ L x=bitAt(a,i),y=bitAt(b,i); r=MUX(XOR(x,y),y,r); }
    L x=bitAt(a,w-1),y=bitAt(b,w-1); return MUX(XOR(x,y),x,r); }
  L eqB(const Bits&a,const Bits&b,unsigned w){ L r=lt; for(unsigned i=0;i<w;i++) r=AND(r,~XOR(bitAt(a,i),bitAt(b,i))); return r; }
  unsigned nw(Expr*e){ return std::min<unsigned>(e->w,sbits(e->lo,e->hi)); }
  Bits freshB(unsigned w){ Bits r(w); for(auto&x:r) x=fresh(); return r; }
  const Bits &bits(Expr*e){
    if(e->bbGen[slot]==gen) return store[e->bbIdx[slot]];
    // iterative depth is fine: recursion
    for(int i=0;i<e->nk;i++) bits(e->a[i]);
    Own o; o.v0=S->nVars(); o.d0=o.d1=0; divUsed=nullptr;
    Bits r=blast(e);
    o.v1=S->nVars(); if(divUsed){ o.d0=divUsed->v0; o.d1=divUsed->v1; divUsed=nullptr; }
    unsigned n=nw(e);
    if(r.size()>n) r.resize(n);
    e->bbGen[slot]=gen; e->bbIdx[slot]=store.size(); store.push_back(std::move(r)); own.push_back(o); coneStamp.push_back(0); return store[e->bbIdx[slot]];
  }
  // Only the terms a query mentions are decided: the circuits of all others are
  // total functions of their inputs, so that they can always be completed.
  struct Own { int v0,v1,d0,d1; };
  std::vector<Own> own; std::vector<u32> coneStamp; u32 coneNow=0; std::vector<std::pair<u32,Expr*>> active_; 
  void mark(u32 i,bool on){ const Own&o=own[i]; for(int v=o.v0;v<o.v1;v++) S->setDecisionVar(v,on); for(int v=o.d0;v<o.d1;v++) S->setDecisionVar(v,on); }
  void cone(const std::vector<Expr*>&roots){
    std::vector<Expr*> st(roots); std::vector<std::pair<u32,Expr*>> now; ++coneNow;
    while(!st.empty()){ Expr*e=st.back(); st.pop_back(); if(e->bbGen[slot]!=gen) continue; u32 i=e->bbIdx[slot]; if(coneStamp[i]==coneNow) continue; coneStamp[i]=coneNow; now.push_back({i,e}); for(int k=0;k<e->nk;k++) st.push_back(e->a[k]); auto al=alias.find(e); if(al!=alias.end()) for(Expr*x:al->second) st.push_back(x); }
    for(auto&a:active_) if(coneStamp[a.first]!=coneNow) mark(a.first,false);
    for(auto&a:now) mark(a.first,true);
    active_.swap(now); }
  Bits B(Expr*e){ return bits(e); }
  Bits extB(const Bits&a,unsigned w){ Bits r(w); for(unsigned i=0;i<w;i++) r[i]=bitAt(a,i); return r; }
  // Products as unknowns: every product is expressed through the full unsigned
  // product of its narrowest factors, whose value is left open within its
  // bounds. What is unsatisfiable then is unsatisfiable.
  std::unordered_map<Expr*,std::vector<Expr*>> alias;
  struct Core { Expr*c; bool s; };
  Core coreOf(Expr*x){
    bool sg=false;
    for(;;){
      if(x->k==K_ZEXT){ x=x->a[0]; sg=false; continue; }
      if(!sg&&x->k==K_SEXT&&x->a[0]->w>1){ if(x->a[0]->lo<0){ return {x->a[0],true}; } x=x->a[0]; continue; }
      if(x->lo>=0){ unsigned k=1; while(k<x->w&&(x->hi>>(int)k)!=0) k++; if(k<x->w){ Expr*y=P.extract(x,0,k); if(y==x) break; x=y; continue; } }
      break; }
    return {x,sg}; }
  Bits uns(Expr*c,unsigned w){ Bits b=B(c); Bits r(w); for(unsigned i=0;i<w;i++) r[i]=i<c->w?bitAt(b,i):lf; return r; }
  static Expr*signWord(Pool&P,Expr*c){ // all bits of c are this one
    if(c->w<2) return nullptr;
    if(c->k==K_SEXT&&c->a[0]->w==1) return c->a[0];
    if(c->k==K_ASHR&&c->a[1]->k==K_CONST&&c->a[1]->val==c->w-1) return P.slt(c->a[0],P.mkConst(c->w,0));
    if(c->k==K_ITE&&c->a[1]->k==K_CONST&&c->a[2]->k==K_CONST&&c->a[1]->val==maskw(c->w)&&c->a[2]->val==0) return c->a[0];
    return nullptr; }
  static Bits shl(const Bits&a,unsigned k,unsigned w,L lf){ Bits r(w,lf); for(unsigned i=k;i<w;i++) r[i]=a[i-k]; return r; }
  Bits prodU(Expr*e,Expr*x,Expr*y,unsigned w){
    for(int t=0;t<2;t++,std::swap(x,y)) {
      Expr*b=signWord(P,x); if(x->w==1) b=x;
      if(b){ alias[e].push_back(b); alias[e].push_back(x); alias[e].push_back(y); L l=B(b)[0]; Bits u=uns(y,w); Bits r=x->w==1?u:addB(shl(u,x->w,w,lf),notB(u),w,lt); for(auto&q:r) q=AND(q,l); return r; } }
    if(x->id>y->id) std::swap(x,y);
    unsigned mw=x->w+y->w; if(mw>160) return freshB(w);
    Expr*m=P.intern(K_MUL,mw,0,P.zext(x,mw),P.zext(y,mw),nullptr,0);
    alias[e].push_back(m); alias[e].push_back(x); alias[e].push_back(y);
    if(m!=e){ Bits b=B(m); Bits r(w); for(unsigned i=0;i<w;i++) r[i]=i<mw?bitAt(b,i):lf; return r; }
    Bits r=freshB(mw);
    Bits X=uns(x,mw+1),Y=uns(y,mw+1),R=r; R.push_back(lf);
    Bits bx=addB(shl(X,y->w,mw+1,lf),notB(X),mw+1,lt),by=addB(shl(Y,x->w,mw+1,lf),notB(Y),mw+1,lt);
    S->addClause(~ultB(bx,R,mw+1)); S->addClause(~ultB(by,R,mw+1));
    L a0=AND(X[0],Y[0]); S->addClause(~a0,r[0]); S->addClause(a0,~r[0]);
    r.resize(w,lf); return r; }
  Bits atomMul(Expr*e,unsigned n){
    unsigned w=e->w; Core x=coreOf(e->a[0]),y=coreOf(e->a[1]);
    Bits r=prodU(e,x.c,y.c,w);
    // a signed factor c stands for c - 2^width when its top bit is set
    auto corr=[&](Core&p,Core&q){ if(!p.s) return; if(p.c->w>=w) return; L top=uns(p.c,p.c->w).back(); Bits t=shl(uns(q.c,w),p.c->w,w,lf); for(auto&l:t) l=AND(l,top); r=addB(r,notB(t),w,lt); };
    corr(x,y); corr(y,x);
    if(x.s&&y.s&&x.c->w+y.c->w<w){ L t=AND(uns(x.c,x.c->w).back(),uns(y.c,y.c->w).back()); Bits z(w,lf); z[x.c->w+y.c->w]=t; r=addB(r,z,w,lf); }
    if(r.size()>n) r.resize(n);
    return r; }
  DivRes &floordiv(Expr*n,Expr*d){
    auto key=std::make_pair(std::make_pair(n,d),0);
    auto it=divTab.find(key); if(it!=divTab.end()) return *(divUsed=&it->second);
    int v0=S->nVars(); Bits a=B(n),b=B(d); unsigned nn=a.size(),nd=b.size();
    unsigned qw=nn+1, pw=qw+nd+1;
    DivRes R; R.q=freshB(qw); R.r=freshB(nd);
    Bits prod=mulB(R.q,b,pw); Bits sum=addB(prod,R.r,pw,lf);
    L dnz=lf; for(L x:b) dnz=OR(dnz,x);
    L dneg=b.back();
    // n = q*d+r
    S->addClause(~dnz,eqB(sum,extB(a,pw),pw));
    Bits z(1,lf);
    for(L x:R.q) S->addClause(dnz,~x); for(L x:R.r) S->addClause(dnz,~x); // floor(n/0) is 0, as in the evaluator
    // d>0: 0<=r<d ; d<0: d<r<=0
    S->addClause(~dnz,dneg,~R.r.back()); S->addClause(~dnz,dneg,sltB(R.r,b,nd));
    S->addClause(~dnz,~dneg,sltB(b,R.r,nd)); L rnz=lf; for(L x:R.r) rnz=OR(rnz,x);
    { Minisat::vec<L> c4; c4.push(~dnz); c4.push(~dneg); c4.push(R.r.back()); c4.push(~rnz); S->addClause(c4);} 
    R.v0=v0; R.v1=S->nVars(); return *(divUsed=&divTab.emplace(key,std::move(R)).first->second);
  }
  DivRes &udiv(Expr*n,Expr*d){
    auto key=std::make_pair(std::make_pair(n,d),1);
    auto it=divTab.find(key); if(it!=divTab.end()) return *(divUsed=&it->second);
    int v0=S->nVars(); unsigned w=n->w;
    if(n->lo>=0&&d->lo>=0) w=std::max(nw(n),nw(d));
    Bits a=extB(B(n),w),b=extB(B(d),w);
    DivRes R; R.q=freshB(w); R.r=freshB(w);
    // zero-extended product at 2w
    Bits q1=R.q; q1.push_back(lf); Bits b1=b; b1.push_back(lf); Bits r1=R.r; r1.push_back(lf); Bits a1=a; a1.push_back(lf);
    // restrict: effective width of b and q
    Bits prod=mulB(q1,b1,2*w+1); Bits sum=addB(prod,r1,2*w+1,lf);
    L dnz=lf; for(L x:b) dnz=OR(dnz,x);
    S->addClause(~dnz,eqB(sum,extB(a1,2*w+1),2*w+1));
    S->addClause(~dnz,ultB(R.r,b,w));
    for(unsigned i=0;i<w;i++) S->addClause(dnz,R.q[i]);
    for(unsigned i=0;i<w;i++){ S->addClause(dnz,~R.r[i],a[i]); S->addClause(dnz,R.r[i],~a[i]); }
    R.q.push_back(lf); R.r.push_back(lf);
    R.v0=v0; R.v1=S->nVars(); return *(divUsed=&divTab.emplace(key,std::move(R)).first->second);
  }
  Bits blast(Expr*e){
    unsigned w=e->w,n=nw(e);
    switch(e->k){
    case K_CONST: { Bits r(n); for(unsigned i=0;i<n;i++) r[i]=((e->val>>i)&1)?lt:lf; return r; }
    case K_VAR: { Bits r=freshB(n); 
        // declare range
        SW mn=smin_w(n),mx=smax_w(n);
        bool nn=e->lo>=0; if(nn&&n>1){ r[n-1]=lf; }
        if(!(nn&&e->lo==0&&e->hi==mx)&&!(e->lo==mn&&e->hi==mx)){
          Bits lo(n),hi(n); for(unsigned i=0;i<n;i++){ lo[i]=(((W)e->lo>>i)&1)?lt:lf; hi[i]=(((W)e->hi>>i)&1)?lt:lf; }
          S->addClause(~sltB(r,lo,n)); S->addClause(~sltB(hi,r,n)); }
        varBits.push_back({e->aux,r}); return r; }
    case K_ADD: { unsigned ww=e->nowrap?n:w; return addB(B(e->a[0]),B(e->a[1]),ww,lf); }
    case K_SUB: { unsigned ww=e->nowrap?n:w; Bits a=B(e->a[0]); return addB(a,notB(B(e->a[1])),ww,lt); }
    case K_MUL: { unsigned ww=e->nowrap?n:w; if(slot&&e->a[0]->k!=K_CONST&&e->a[1]->k!=K_CONST) return atomMul(e,n); Bits a=B(e->a[0]),b=B(e->a[1]);
        if(a.size()>ww) a.resize(ww); if(b.size()>ww) b.resize(ww);
        return mulB(a,b,ww); }
    case K_FLOORDIV: { if(slot) return freshB(n); Bits q=floordiv(e->a[0],e->a[1]).q; return extB(q,n); }
    case K_UDIV: { if(slot) return freshB(n); Bits q=udiv(e->a[0],e->a[1]).q; if(q.size()>w) q.resize(w); return extB(q,n); }
    case K_UREM: { if(slot) return freshB(n); Bits q=udiv(e->a[0],e->a[1]).r; if(q.size()>w) q.resize(w); return extB(q,n); }
    case K_SDIV: case K_SREM: { if(slot) return freshB(n);
        // via floordiv: trunc = floor + (r!=0 && sign(n)!=sign(d)); rem = n - trunc*d
        DivRes R=floordiv(e->a[0],e->a[1]); Bits a=B(e->a[0]),b=B(e->a[1]);
        L rnz=lf; for(L x:R.r) rnz=OR(rnz,x);
        L adj=AND(rnz,XOR(a.back(),b.back()));
        if(e->k==K_SDIV){ Bits z(1,lf); return addB(R.q,z,std::max<unsigned>(n,1),adj); }
        // srem: r - (adj ? d : 0)
        Bits t(b.size()); for(size_t i=0;i<b.size();i++) t[i]=AND(b[i],adj);
        t.push_back(t.back());
        return addB(R.r,notB(t),n,lt); }
    case K_AND: case K_OR: case K_XOR: { Bits a=B(e->a[0]),b=B(e->a[1]); Bits r(n); for(unsigned i=0;i<n;i++){ L x=bitAt(a,i),y=bitAt(b,i); r[i]=e->k==K_AND?AND(x,y):e->k==K_OR?OR(x,y):XOR(x,y);} return r; }
    case K_NOT: { Bits a=B(e->a[0]); Bits r(n); for(unsigned i=0;i<n;i++) r[i]=~bitAt(a,i); return r; }
    case K_SHL: { Bits a=B(e->a[0]); if(e->a[1]->k==K_CONST){ unsigned s=(unsigned)e->a[1]->val; Bits r(n); for(unsigned i=0;i<n;i++) r[i]=i<s?lf:bitAt(a,i-s); return r; }
        Bits x=extB(a,w); Bits s=extB(B(e->a[1]),w); unsigned lg=0; while((1u<<lg)<w) lg++;
        for(unsigned k=0;k<lg;k++){ Bits y(w); for(unsigned i=0;i<w;i++) y[i]=MUX(s[k],i>=(1u<<k)?x[i-(1u<<k)]:lf,x[i]); x=y; }
        L big=lf; for(unsigned k=lg;k<w;k++) big=OR(big,s[k]); for(auto&b:x) b=AND(b,~big); return x; }
    case K_LSHR: case K_ASHR: { Bits a=B(e->a[0]); bool ar=e->k==K_ASHR;
        if(e->a[1]->k==K_CONST){ unsigned s=(unsigned)e->a[1]->val; Bits r(n); 
          if(ar){ for(unsigned i=0;i<n;i++) r[i]=bitAt(a,i+s); }
          else { Bits x=extB(a,w); for(unsigned i=0;i<n;i++) r[i]=i+s<w?x[i+s]:lf; }
          return r; }
        Bits x=extB(a,w); Bits s=extB(B(e->a[1]),w); unsigned lg=0; while((1u<<lg)<w) lg++; L fill=ar?x.back():lf;
        for(unsigned k=0;k<lg;k++){ Bits y(w); for(unsigned i=0;i<w;i++) y[i]=MUX(s[k],i+(1u<<k)<w?x[i+(1u<<k)]:fill,x[i]); x=y; }
        L big=lf; for(unsigned k=lg;k<w;k++) big=OR(big,s[k]); for(auto&b:x) b=MUX(big,fill,b); return x; }
    case K_EQ: { Bits a=B(e->a[0]),b=B(e->a[1]); return Bits{eqB(a,b,std::max(a.size(),b.size()))}; }
    case K_SLT: { Bits a=B(e->a[0]),b=B(e->a[1]); return Bits{sltB(a,b,std::max(a.size(),b.size()))}; }
    case K_ULT: { Bits a=B(e->a[0]),b=B(e->a[1]); return Bits{ultB(a,b,std::max(a.size(),b.size()))}; }
    case K_ITE: { L c=bits(e->a[0])[0]; Bits a=B(e->a[1]),b=B(e->a[2]); Bits r(n); for(unsigned i=0;i<n;i++) r[i]=MUX(c,bitAt(a,i),bitAt(b,i)); return r; }
    case K_CONCAT: { Bits lo=extB(B(e->a[1]),e->a[1]->w),hi=extB(B(e->a[0]),e->a[0]->w); lo.insert(lo.end(),hi.begin(),hi.end()); return lo; }
    case K_EXTRACT: { Bits a=B(e->a[0]); Bits r(n); for(unsigned i=0;i<n;i++) r[i]=bitAt(a,i+e->aux); return r; }
    case K_ZEXT: { Bits a=B(e->a[0]); if(e->a[0]->lo>=0) return extB(a,n); a=extB(a,e->a[0]->w); a.push_back(lf); return extB(a,n); }
    case K_SEXT: return extB(B(e->a[0]),n);
    case K_UF: return freshB(n);
    default: fprintf(stderr,"cannot blast %s\n",kname[e->k]); abort();
    }
  }
  std::vector<Expr*> core; bool coreOk=false; // literals of pc used by the last UNSAT answer
  std::unordered_map<int,Expr*> litExpr;
  static Minisat::Solver *&active(){ static Minisat::Solver*s=nullptr; return s; }
  static void onAlarm(int){ if(active()) active()->interrupt(); }
  Res check(const std::vector<Expr*>&pc,Expr*extra,Model*out,int64_t confl,double secs=0){
    coreOk=false; core.clear(); litExpr.clear();
    if((size_t)S->nVars()>std::max(maxVars,3*baseVars)){ reset(); baseVars=0; }
    Minisat::vec<L> as;
    for(Expr*e:pc){ if(e==P.T) continue; L l=bits(e)[0]; if(l==lf){ core.push_back(e); coreOk=true; return UNSAT; } if(l!=lt){ as.push(l); litExpr[Minisat::toInt(l)]=e; } }
    if(extra&&extra!=P.T){ L l=bits(extra)[0]; if(l==lf){ coreOk=true; return UNSAT; } if(l!=lt) as.push(l); }
    if(!S->okay()) return UNSAT;
    if(!baseVars) baseVars=S->nVars();
    { std::vector<Expr*> roots(pc); if(extra) roots.push_back(extra); cone(roots); }
    if(confl>0) S->setConfBudget(confl); else S->budgetOff();
    S->clearInterrupt();
    if(secs>0){ static bool inst=false; if(!inst){ inst=true; struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onAlarm; sa.sa_flags=SA_RESTART; sigaction(SIGALRM,&sa,nullptr); }
      active()=&*S; struct itimerval tv; memset(&tv,0,sizeof tv); tv.it_value.tv_sec=(long)secs; tv.it_value.tv_usec=(long)((secs-(long)secs)*1e6)+1; setitimer(ITIMER_REAL,&tv,nullptr); }
    Minisat::lbool r=S->solveLimited(as);
    if(secs>0){ struct itimerval tv; memset(&tv,0,sizeof tv); setitimer(ITIMER_REAL,&tv,nullptr); active()=nullptr; }
    if(r==Minisat::lbool((uint8_t)1)){ coreOk=true; for(int i=0;i<S->conflict.size();i++){ auto it=litExpr.find(Minisat::toInt(~S->conflict[i])); if(it!=litExpr.end()) core.push_back(it->second); } return UNSAT; }
    if(r==Minisat::lbool((uint8_t)2)) return UNKNOWN;
    if(out){
      out->v.clear();
      for(auto&vb:varBits){
        if(out->v.size()<=vb.first){ size_t o=out->v.size(); out->v.resize(vb.first+1); for(size_t i=o;i<=vb.first;i++){ Expr*x=P.vars[i]; out->v[i]=(x->lo<=0&&x->hi>=0)?W(0):(W)x->lo; } }
        W v=0; auto&b=vb.second; bool dc=false; for(L l:b) if(!isT(l)&&!isF(l)&&S->modelValue(l)==Minisat::lbool((uint8_t)2)) dc=true; if(dc) continue;
        for(size_t i=0;i<b.size();i++) if(mval(b[i])) v|=W(1)<<i;
        if(mval(b.back())) v|=~maskw(b.size());
        out->v[vb.first]=v;
      }
    }
    return SAT;
  }
  bool mval(L l){ if(l==lt) return true; if(l==lf) return false; Minisat::lbool r=S->modelValue(l); return r==Minisat::lbool((uint8_t)0); }
};

// Z3 backend: full-width bit-vectors, independent of the narrowing above.
struct Z3Back {
  Pool&P; z3::context c; std::unordered_map<Expr*,z3::expr> memo; unsigned rlimit;
  Z3Back(Pool&p):P(p){}
  z3::expr cst(W v,unsigned w){ std::string s="0"; // decimal conversion
    if(v!=0){ s.clear(); W t=v; while(t){ s.insert(s.begin(),'0'+(int)(t%10)); t/=10; } } return c.bv_val(s.c_str(),w); }
  z3::expr tr(Expr*e){
    auto it=memo.find(e); if(it!=memo.end()) return it->second;
    z3::expr r=mk(e); memo.emplace(e,r); return r; }
  z3::expr bv1(z3::expr b){ return z3::ite(b,c.bv_val(1,1),c.bv_val(0,1)); }
  z3::expr mk(Expr*e){
    unsigned w=e->w; auto A=[&](int i){return tr(e->a[i]);};
    switch(e->k){
    case K_CONST: return cst(e->val,w);
    case K_VAR: return c.bv_const(("v"+std::to_string(e->aux)).c_str(),w);
    case K_ADD: return A(0)+A(1); case K_SUB: return A(0)-A(1); case K_MUL: return A(0)*A(1);
    case K_UDIV: return z3::udiv(A(0),A(1)); case K_UREM: return z3::urem(A(0),A(1));
    case K_SDIV: return A(0)/A(1); case K_SREM: return z3::srem(A(0),A(1));
    case K_FLOORDIV: { z3::expr n=A(0),d=A(1),z=c.bv_val(0,w); z3::expr q=n/d,r=z3::srem(n,d); return z3::ite(d==z, z, z3::ite(r!=z && ((n<z)!=(d<z)), q-c.bv_val(1,w), q)); }
    case K_AND: return A(0)&A(1); case K_OR: return A(0)|A(1); case K_XOR: return A(0)^A(1); case K_NOT: return ~A(0);
    case K_SHL: return z3::shl(A(0),A(1)); case K_LSHR: return z3::lshr(A(0),A(1)); case K_ASHR: return z3::ashr(A(0),A(1));
    case K_EQ: return bv1(A(0)==A(1)); case K_ULT: return bv1(z3::ult(A(0),A(1))); case K_SLT: return bv1(A(0)<A(1));
    case K_ITE: return z3::ite(A(0)==c.bv_val(1,1),A(1),A(2));
    case K_CONCAT: return z3::concat(A(0),A(1));
    case K_EXTRACT: return A(0).extract(e->aux+w-1,e->aux);
    case K_ZEXT: return z3::zext(A(0),w-e->a[0]->w); case K_SEXT: return z3::sext(A(0),w-e->a[0]->w);
    case K_UF: return c.bv_const(("u"+std::to_string(e->id)).c_str(),w);
    default: fprintf(stderr,"cannot translate %s\n",kname[e->k]); abort(); }
  }
  void varsOf(Expr*e,std::unordered_map<Expr*,bool>&seen,std::vector<Expr*>&out){ if(!seen.emplace(e,true).second) return; if(e->k==K_VAR) out.push_back(e); for(int i=0;i<e->nk;i++) varsOf(e->a[i],seen,out); }
  Res check(const std::vector<Expr*>&pc,Expr*extra,Model*out,unsigned rl=0){
    if(memo.size()>2000000) memo.clear();
    z3::solver s(c,"QF_BV"); if(rl){ z3::params p(c); p.set("rlimit",rl); s.set(p); }
    std::unordered_map<Expr*,bool> seen; std::vector<Expr*> vs;
    auto add=[&](Expr*e){ s.add(tr(e)==c.bv_val(1,1)); varsOf(e,seen,vs); };
    for(Expr*e:pc) add(e); if(extra) add(extra);
    for(Expr*v:vs){ z3::expr x=tr(v); if(v->lo!=smin_w(v->w)) s.add(x>=cst((W)v->lo&maskw(v->w),v->w)); if(v->hi!=smax_w(v->w)) s.add(x<=cst((W)v->hi&maskw(v->w),v->w)); }
    auto r=s.check(); if(r==z3::unsat) return UNSAT; if(r!=z3::sat) return UNKNOWN;
    if(out){ z3::model m=s.get_model(); out->v.assign(P.vars.size(),0);
      for(size_t i=0;i<P.vars.size();i++){ Expr*x=P.vars[i]; out->v[i]=(x->lo<=0&&x->hi>=0)?W(0):(W)x->lo; }
      for(Expr*v:vs){ z3::expr val=m.eval(tr(v),true); std::string str=val.get_decimal_string(0); W t=0; for(char ch:str) t=t*10+(ch-'0'); out->v[v->aux]=(W)sgn(t,v->w); } }
    return SAT;
  }
};

// Abstraction: comparisons of polynomials become linear constraints over their
// monomials (one real variable each), everything else a free proposition.  An
// UNSAT answer of the abstraction is an UNSAT answer of the query.
struct LinBack {
  Pool&P; z3::context c; std::unordered_map<Expr*,z3::expr> memo; std::map<std::vector<u32>,z3::expr> mono; bool nra;
  struct Def { z3::expr d; std::vector<std::vector<u32>> ms; };
  std::unordered_map<Expr*,Def> defs; std::map<std::vector<u32>,z3::expr> mbound; std::vector<std::vector<u32>> lastMonos; std::vector<u32> divs; std::map<u32,Def> ddefs;
  LinBack(Pool&p,bool n):P(p),nra(n){}
  z3::expr num(SW v){ std::string s; bool n=v<0; W t=n?(W)-v:(W)v; if(t==0) s="0"; while(t!=0){ s.insert(s.begin(),'0'+(int)(u64)(t%10)); t/=10; } if(n) s="-"+s; return c.real_val(s.c_str()); }
  static Expr*strip(Expr*x){ for(;;){ if(x->k==K_SEXT||(x->k==K_ZEXT&&x->a[0]->lo>=0)||(x->k==K_EXTRACT&&x->nowrap&&x->aux==0)) x=x->a[0]; else return x; } }
  z3::expr monoOf(const std::vector<u32>&k){
    auto it=mono.find(k); if(it!=mono.end()) return it->second;
    z3::expr x(c);
    if(k.size()==1||!nra){ std::string n="m"; for(u32 i:k) n+="_"+std::to_string(i); x=c.real_const(n.c_str()); 
      double lo=1,hi=1; SW l=1,h=1; bool ok=true; for(u32 i:k){ Expr*e=P.exprOf(i); SW a=e->lo,b=e->hi; double da=dbl(a),db=dbl(b); double q[4]={lo*da,lo*db,hi*da,hi*db}; lo=*std::min_element(q,q+4); hi=*std::max_element(q,q+4); if(lo<-1e60||hi>1e60){ ok=false; break; } SW r[4]={l*a,l*b,h*a,h*b}; l=*std::min_element(r,r+4); h=*std::max_element(r,r+4); }
      if(ok&&k.size()==2&&k[0]==k[1]&&l<0) l=0;
      if(ok) mbound.emplace(k,x>=num(l)&&x<=num(h)); if(k.size()==1&&P.exprOf(k[0])->k==K_FLOORDIV) divs.push_back(k[0]); }
    else { x=monoOf({k[0]}); for(size_t i=1;i<k.size();i++) x=x*monoOf({k[i]}); }
    mono.emplace(k,x); return x; }
  static double dbl(SW v){ return Evaluator::toD((W)v,256); }
  typedef std::map<std::vector<u32>,SW> MP;
  MP expand(Expr*e,int depth){ // polynomial over the integers, through the widenings
    MP m;
    for(auto&t:*P.poly(e)){ MP cur; cur[{}]=sgn(t.second,e->w);
      for(u32 i=0;i<t.first.n;i++){ Expr*x=strip(P.exprOf(t.first.at[i])); MP f; 
        if(depth<4&&(x->k==K_ADD||x->k==K_SUB||x->k==K_MUL)&&P.exact(x)&&!(P.poly(x)->size()==1&&(*P.poly(x))[0].first.n==1)) f=expand(x,depth+1); else f[{x->id}]=1;
        MP nx; for(auto&p:cur) for(auto&q:f){ auto k=p.first; k.insert(k.end(),q.first.begin(),q.first.end()); std::sort(k.begin(),k.end()); nx[k]+=p.second*q.second; } cur.swap(nx); }
      for(auto&p:cur) m[p.first]+=p.second; }
    return m; }
  bool lin(Expr*a,Expr*b,z3::expr&out){ // a-b
    if(a->w<2||a->w>200) return false;
    if(!P.exact(a)||!P.exact(b)) return false;
    std::map<std::vector<u32>,SW> m;
    for(int s=0;s<2;s++){ auto x=expand(s?b:a,0); for(auto&t:x) m[t.first]+=s?-t.second:t.second; }
    z3::expr r=c.real_val(0); bool any=false; lastMonos.clear();
    for(auto&t:m) if(t.second!=0){ z3::expr x=t.first.empty()?num(t.second):num(t.second)*monoOf(t.first); if(!t.first.empty()){ lastMonos.push_back(t.first); for(u32 i:t.first) if(P.exprOf(i)->k==K_FLOORDIV) monoOf({i}); if(nra) for(u32 i:t.first) lastMonos.push_back({i}); } r=any?r+x:x; any=true; }
    out=r; return true; }
  z3::expr tr(Expr*e){ auto it=memo.find(e); if(it!=memo.end()) return it->second; z3::expr r=mk(e); memo.emplace(e,r); return r; }
  z3::expr freeB(Expr*e){ return c.bool_const(("b"+std::to_string(e->id)).c_str()); }
  z3::expr mk(Expr*e){
    if(e==P.T) return c.bool_val(true); if(e==P.F) return c.bool_val(false);
    switch(e->k){
    case K_AND: return tr(e->a[0])&&tr(e->a[1]); case K_OR: return tr(e->a[0])||tr(e->a[1]); case K_XOR: return tr(e->a[0])!=tr(e->a[1]); case K_NOT: return !tr(e->a[0]);
    case K_ITE: return z3::ite(tr(e->a[0]),tr(e->a[1]),tr(e->a[2]));
    case K_EQ: if(e->a[0]->w==1) return tr(e->a[0])==tr(e->a[1]); else { z3::expr d(c); if(e->a[0]->k!=K_FRAT&&lin(e->a[0],e->a[1],d)) { z3::expr b=freeB(e); defs.emplace(e,Def{z3::ite(b,d==0,d<=-1||d>=1),lastMonos}); return b; } return freeB(e); }
    case K_SLT: { z3::expr d(c); if(e->a[0]->k!=K_FRAT&&lin(e->a[0],e->a[1],d)) { z3::expr b=freeB(e); defs.emplace(e,Def{z3::ite(b,d<=-1,d>=0),lastMonos}); return b; } return freeB(e); }
    case K_ULT: { z3::expr d(c),x(c),y(c); Expr*z=P.mkConst(e->a[0]->w,0); if(e->a[0]->w>1&&lin(e->a[0],e->a[1],d)){ auto m0=lastMonos; if(lin(e->a[0],z,x)){ m0.insert(m0.end(),lastMonos.begin(),lastMonos.end()); if(lin(e->a[1],z,y)){ m0.insert(m0.end(),lastMonos.begin(),lastMonos.end());
      z3::expr b=freeB(e),sx=c.bool_const(("s"+std::to_string(e->a[0]->id)).c_str()),sy=c.bool_const(("s"+std::to_string(e->a[1]->id)).c_str()),lt=c.bool_const(("l"+std::to_string(e->id)).c_str());
      defs.emplace(e,Def{z3::ite(sx,x<=-1,x>=0)&&z3::ite(sy,y<=-1,y>=0)&&z3::ite(lt,d<=-1,d>=0)&&(b==z3::ite(sx==sy,lt,sy)),m0}); return b; } } } return freeB(e); }
    default: return freeB(e); } }
  Res check(const std::vector<Expr*>&pc,Expr*extra,unsigned ms){
    if(memo.size()>200000){ memo.clear(); mono.clear(); defs.clear(); mbound.clear(); ddefs.clear(); divs.clear(); }
    z3::solver s=nra?z3::tactic(c,"qfnra-nlsat").mk_solver():z3::solver(c,"QF_LRA"); 
    { z3::params p(c); p.set("timeout",ms); s.set(p); }
    std::vector<z3::expr> as; for(Expr*e:pc) as.push_back(tr(e)); if(extra) as.push_back(tr(extra));
    for(size_t i=0;i<divs.size();i++) if(!ddefs.count(divs[i])){ // n = q*d + r
      Expr*q=P.exprOf(divs[i]),*n=q->a[0],*d=q->a[1],*z=P.mkConst(n->w,0); z3::expr r(c),dd(c); Expr*rem=P.sub(n,P.mul(q,d));
      if(lin(rem,z,r)){ auto m0=lastMonos; if(lin(d,z,dd)){ m0.insert(m0.end(),lastMonos.begin(),lastMonos.end()); m0.push_back({divs[i]}); ddefs.emplace(divs[i],Def{(dd<=-1&&r<=0&&r>=dd+1)||(dd>=1&&r>=0&&r<=dd-1)||dd==0,m0}); } } }
    divs.clear();
    for(auto&x:as) s.add(x);
    std::unordered_map<Expr*,bool> seen; std::map<std::vector<u32>,bool> sm; std::map<u32,bool> sd; std::vector<Expr*> st(pc); if(extra) st.push_back(extra);
    while(!st.empty()){ Expr*e=st.back(); st.pop_back(); if(!seen.emplace(e,true).second) continue;
      auto it=defs.find(e); if(it!=defs.end()){ s.add(it->second.d); for(auto&k:it->second.ms) if(sm.emplace(k,true).second){ auto b=mbound.find(k); if(b!=mbound.end()) s.add(b->second); for(u32 at:k){ auto dv=ddefs.find(at); if(dv!=ddefs.end()&&sd.emplace(at,true).second){ s.add(dv->second.d); for(auto&k2:dv->second.ms) if(sm.emplace(k2,true).second){ auto b2=mbound.find(k2); if(b2!=mbound.end()) s.add(b2->second); } } } } continue; }
      if(e->k==K_AND||e->k==K_OR||e->k==K_XOR||e->k==K_NOT||e->k==K_ITE||e->k==K_EQ) for(int i=0;i<e->nk;i++) if(e->a[i]->w==1) st.push_back(e->a[i]); }
    // equalities of the path condition applied inside products
    if(!nra){ struct Q { Expr*e; u32 x,y; bool cst; SW v; }; std::vector<Q> qs;
      for(auto&kv:seen){ Expr*e=kv.first; if(e->k!=K_EQ||e->a[0]->w==1||!defs.count(e)) continue; Expr*x=strip(e->a[0]),*y=strip(e->a[1]); if(x->k==K_CONST) std::swap(x,y); if(x->k==K_CONST) continue; if(y->k==K_CONST) qs.push_back({e,x->id,0,true,sgn(y->val,y->w)}); else qs.push_back({e,std::max(x->id,y->id),std::min(x->id,y->id),false,(SW)0}); }
      std::vector<std::vector<u32>> todo; if(!qs.empty()) for(auto&k:sm) if(k.first.size()>1) todo.push_back(k.first);
      for(size_t i=0;i<todo.size()&&i<300;i++) for(auto&q:qs){ auto k=todo[i]; for(size_t j=0;j<k.size();j++) if(k[j]==q.x){ auto k2=k; if(q.cst) k2.erase(k2.begin()+j); else { k2[j]=q.y; std::sort(k2.begin(),k2.end()); }
          s.add(z3::implies(freeB(q.e),q.cst?(q.v==0?monoOf(k)==0:monoOf(k)==num(q.v)*monoOf(k2)):monoOf(k)==monoOf(k2))); if((!q.cst||q.v!=0)&&k2.size()>1&&sm.emplace(k2,true).second) todo.push_back(k2); break; } } }
    if(getenv("LBDUMP")){ std::string t; { std::ostringstream o; o<<s; t=o.str(); } fprintf(stderr,"LBQ %s\nENDLBQ\n",t.c_str()); for(auto&kv:sm) for(u32 i:kv.first) if(P.exprOf(i)->k!=K_VAR) fprintf(stderr,"ATOM %u %s\n",i,show(P.exprOf(i),6).c_str()); for(auto&kv:seen) if((kv.first->k==K_SLT||kv.first->k==K_ULT||kv.first->k==K_EXTRACT||kv.first->k==K_EQ)&&!defs.count(kv.first)) fprintf(stderr,"NODEF %u: %s  exact %d %d\n",kv.first->id,show(kv.first,14).c_str(),kv.first->nk>0?(int)P.exact(kv.first->a[0]):0,kv.first->nk>1?(int)P.exact(kv.first->a[1]):0); }
    try { auto r=s.check(); if(r==z3::unsat) return UNSAT; if(r==z3::sat) return SAT; } catch(z3::exception&ex){}
    return UNKNOWN; }
};

// Looks for a model near the previous one by changing a variable at a time;
// what it returns has been evaluated exactly.
struct LocalSearch {
  Pool&P; Evaluator&EV; u64 rs=88172645463325252ull; u64 ids=0;
  LocalSearch(Pool&p,Evaluator&e):P(p),EV(e){}
  u64 rnd(){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs; }
  void vars(Expr*e,std::unordered_map<Expr*,bool>&seen,std::vector<u32>&out){ if(!seen.emplace(e,true).second) return; if(e->k==K_VAR) out.push_back(e->aux); for(int i=0;i<e->nk;i++) vars(e->a[i],seen,out); }
  bool run(const std::vector<Expr*>&pc,Expr*extra,const Model*start,Model*out,double secs){
    std::vector<Expr*> lits(pc); if(extra&&extra!=P.T) lits.push_back(extra);
    std::vector<std::vector<u32>> lv(lits.size()); std::vector<u32> all;
    for(size_t i=0;i<lits.size();i++){ std::unordered_map<Expr*,bool> seen; vars(lits[i],seen,lv[i]); for(u32 v:lv[i]) if(std::find(all.begin(),all.end(),v)==all.end()) all.push_back(v); }
    if(all.empty()||all.size()>40) return false;
    Model m; m.v=start->v; { size_t o=m.v.size(); if(o<P.vars.size()) m.v.resize(P.vars.size()); for(size_t i=o;i<P.vars.size();i++){ Expr*x=P.vars[i]; m.v[i]=(x->lo<=0&&x->hi>=0)?W(0):(W)x->lo; } }
    auto score=[&](){ m.id=(u64)getpid()<<40|(1ull<<39)|ids++; EV.setModel(&m); int s=0; for(Expr*e:lits) if(!EV.ev(e)) s++; return s; };
    auto t0=std::chrono::steady_clock::now(); int cur=score(); u64 it=0;
    auto vv=[&](u32 i){ return sgn(m.v[i],P.vars[i]->w); };
    auto set=[&](u32 i,SW x){ Expr*e=P.vars[i]; SW lo=e->lo,hi=e->hi; if(x<lo) x=lo; if(x>hi) x=hi; m.v[i]=(W)x&maskw(e->w); };
    while(cur>0){
      if((++it&63)==0&&std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>secs) return false;
      score(); std::vector<int> bad; for(size_t i=0;i<lits.size();i++) if(!EV.ev(lits[i])&&!lv[i].empty()) bad.push_back(i); if(bad.empty()) return false;
      auto&vs=lv[bad[rnd()%bad.size()]];
      // best single change among some candidates
      int best=1<<30; u32 bv=0; SW bx=0; int tries=24;
      for(int k=0;k<tries;k++){ u32 v=vs[rnd()%vs.size()]; Expr*e=P.vars[v]; SW old=vv(v),x; u32 o=all[rnd()%all.size()]; SW lo=e->lo,hi=e->hi; SW span=hi-lo;
        switch(rnd()%10){ case 0: x=old+1; break; case 1: x=old-1; break; case 2: x=(SW)(i64)(rnd()%7)-3; break; case 3: x=vv(o); break; case 4: x=vv(o)+1; break; case 5: x=vv(o)-1; break;
          case 6: { u32 q=all[rnd()%all.size()]; u32 r=all[rnd()%all.size()]; x=vv(o)+vv(q)-vv(r); break; }
          case 7: x=rnd()&1?lo:hi; break; case 8: x=old+((SW)(i64)(rnd()%65)-32)*(SW)(1ll<<(rnd()%40)); break; default: x=span<(SW)1000000?lo+(SW)(i64)(rnd()%(u64)(i64)(span+1)):-old; }
        if(x<lo) x=lo; if(x>hi) x=hi; if(x==old) continue;
        set(v,x); int s=score(); set(v,old); if(s<best||(s==best&&(rnd()&1))){ best=s; bv=v; bx=x; if(s==0) break; } }
      if(best==1<<30) continue;
      if(best<=cur||rnd()%20==0){ set(bv,bx); cur=best; } }
    score(); for(Expr*e:lits) if(!EV.ev(e)) return false;
    *out=m; return true; }
};
