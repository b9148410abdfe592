// Expression DAG: hash-consed bit-vector terms (up to 256 bits) with signed
// interval information, plus exact rationals used to model `double` terms.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>

typedef unsigned _BitInt(256) W;
typedef signed _BitInt(256) SW;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

enum Kind : u8 {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_NOT, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_SLT, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_FRAT,   // double: kids num, den (signed, den != 0)
  K_FLOORDIV, // floor(num/den), signed, kids num, den
  K_UF,     // uninterpreted function application (aux = function id)
};
static const char *kname[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","eq","ult","slt","ite","concat","extract","zext","sext","frat","floordiv","uf"};

struct Expr {
  Kind k; u16 w; u8 nk; bool nowrap=false;
  u32 aux;      // EXTRACT: low bit; VAR: index
  u32 id;
  Expr *a[3];
  W val;        // CONST
  SW lo, hi;    // signed interval
  // evaluation memo
  u64 evStamp=0; W evVal;
  u64 ivStamp=0; __int128 ivLo,ivHi; // interval under the current path condition
  // backend memo
  u32 bbGen[2]={0,0}; u32 bbIdx[2]={0,0};
  u64 pcStamp=0; // marks the known-true literals of the current state
  void *be=nullptr;
  Expr *next;   // hash chain
};

static inline W maskw(unsigned w){ return w>=256 ? ~W(0) : ((W(1)<<w)-1); }
static inline SW sgn(W v,unsigned w){ // interpret as signed
  if(w>=256) return (SW)v;
  v &= maskw(w);
  if((v>>(w-1))&1) return (SW)(v | ~maskw(w));
  return (SW)v;
}
static inline SW smin_w(unsigned w){ return -(SW)(W(1)<<(w-1)); }
static inline SW smax_w(unsigned w){ return (SW)((W(1)<<(w-1))-1); }
static inline unsigned sbits(SW lo,SW hi){ // minimal signed width holding [lo,hi]
  unsigned n=1;
  auto need=[](SW v){ unsigned n=1; W u = v<0 ? ~(W)v : (W)v; while(u){n++;u>>=1;} return n; };
  n=std::max(need(lo),need(hi)); return n;
}

struct Pool {
  std::vector<Expr*> blocks; size_t used=0; static const size_t BS=4096;
  std::vector<Expr*> table; size_t count=0;
  u32 nextId=1;
  std::vector<Expr*> vars; std::vector<std::string> varNames;
  Expr *T,*F;
  size_t bytes=0;
  Pool(){ table.assign(1<<20,nullptr); T=mkConst(1,1); F=mkConst(1,0); }
  Expr *alloc(){
    if(blocks.empty()||used==BS){ blocks.push_back((Expr*)aligned_alloc(64,((sizeof(Expr)*BS+63)/64)*64)); used=0; bytes+=sizeof(Expr)*BS; }
    return new(&blocks.back()[used++]) Expr();
  }
  static u64 mix(u64 h,u64 v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdull; }
  Expr *intern(Kind k,unsigned w,u32 aux,Expr*a,Expr*b,Expr*c,W val){
    u64 h=mix(mix(mix(mix(mix(k,w),aux),(u64)a),(u64)b),(u64)c);
    if(k==K_CONST){ h=mix(h,(u64)val); h=mix(h,(u64)(val>>64)); h=mix(h,(u64)(val>>128)); }
    size_t i=(h^(h>>32))&(table.size()-1);
    for(Expr*e=table[i];e;e=e->next)
      if(e->k==k&&e->w==w&&e->aux==aux&&e->a[0]==a&&e->a[1]==b&&e->a[2]==c&&(k!=K_CONST||e->val==val)) return e;
    Expr*e=alloc();
    e->k=k;e->w=w;e->aux=aux;e->a[0]=a;e->a[1]=b;e->a[2]=c;e->nk=c?3:b?2:a?1:0;e->val=val;e->id=nextId++;
    e->next=table[i];table[i]=e;
    if(++count>table.size()*2) grow();
    e->lo=smin_w(w);e->hi=smax_w(w);
    computeRange(e);
    return e;
  }
  void grow(){
    std::vector<Expr*> old; old.swap(table); table.assign(old.size()*4,nullptr);
    for(Expr*e:old) while(e){ Expr*n=e->next;
      u64 h=mix(mix(mix(mix(mix(e->k,e->w),e->aux),(u64)e->a[0]),(u64)e->a[1]),(u64)e->a[2]);
      if(e->k==K_CONST){ h=mix(h,(u64)e->val); h=mix(h,(u64)(e->val>>64)); h=mix(h,(u64)(e->val>>128)); }
      size_t i=(h^(h>>32))&(table.size()-1); e->next=table[i]; table[i]=e; e=n; }
  }
  void setr(Expr*e,SW lo,SW hi,bool nw=false){
    if(lo<smin_w(e->w)||hi>smax_w(e->w)) return; // keep full
    e->lo=lo;e->hi=hi;e->nowrap=nw;
  }
  void computeRange(Expr*e){
    Expr*a=e->a[0],*b=e->a[1],*c=e->a[2];
    bool small=true; // avoid overflow of 256 bit interval arithmetic
    if(a&&a->w>120) small=false; if(b&&b->w>120) small=false;
    if(!small && (e->k==K_MUL||e->k==K_SHL||e->k==K_FLOORDIV)){
      // still fine if the actual ranges are small
      auto fits=[](Expr*x){ SW lim=((SW)1)<<120; return x->lo>-lim&&x->hi<lim; };
      small = fits(a)&&fits(b);
    }
    if(!small && (e->k==K_ADD||e->k==K_SUB)){
      auto fits=[](Expr*x){ SW lim=((SW)1)<<250; return x->lo>-lim&&x->hi<lim; };
      small = fits(a)&&fits(b);
    }
    switch(e->k){
    case K_CONST: e->lo=e->hi=sgn(e->val,e->w); break;
    case K_ADD: if(small) setr(e,a->lo+b->lo,a->hi+b->hi,true); break;
    case K_SUB: if(small) setr(e,a->lo-b->hi,a->hi-b->lo,true); break;
    case K_MUL: if(small){ SW p[4]={a->lo*b->lo,a->lo*b->hi,a->hi*b->lo,a->hi*b->hi};
        SW lo=*std::min_element(p,p+4),hi=*std::max_element(p,p+4);
        if(a==b && lo<0) lo=0;
        setr(e,lo,hi,true);} break;
    case K_SHL: if(small&&b->k==K_CONST&&b->val<120){ int s=(int)b->val; setr(e,a->lo*((SW)1<<s),a->hi*((SW)1<<s),true);} break;
    case K_ASHR: if(b->k==K_CONST&&b->val<e->w){ int s=(int)b->val; setr(e,a->lo>>s,a->hi>>s);} else if(a->lo>=0) setr(e,0,a->hi); break;
    case K_LSHR: if(b->k==K_CONST&&b->val<e->w&&a->lo>=0){ int s=(int)b->val; setr(e,a->lo>>s,a->hi>>s);}
                 else if(b->k==K_CONST&&b->val>0&&b->val<e->w) setr(e,0,(SW)(maskw(e->w)>>(int)b->val));
                 else if(a->lo>=0) setr(e,0,a->hi); break;
    case K_AND: if(a->lo>=0&&b->lo>=0) setr(e,0,std::min(a->hi,b->hi)); else if(a->lo>=0) setr(e,0,a->hi); else if(b->lo>=0) setr(e,0,b->hi);
                else if(e->w>1) setr(e,std::min(0-(SW)(W(1)<<(std::max(sbits(a->lo,a->hi),sbits(b->lo,b->hi))-1)),(SW)0),std::max(a->hi,b->hi)); break;
    case K_OR: case K_XOR: if(e->w>1){ unsigned n=std::max(sbits(a->lo,a->hi),sbits(b->lo,b->hi)); 
        if(a->lo>=0&&b->lo>=0) setr(e,0,smax_w(n)); else setr(e,smin_w(n),smax_w(n)); } break;
    case K_NOT: if(e->w>1) setr(e,~a->hi,~a->lo); break;
    case K_ITE: setr(e,std::min(b->lo,c->lo),std::max(b->hi,c->hi)); break;
    case K_ZEXT: if(a->lo>=0) setr(e,a->lo,a->hi); else setr(e,0,(SW)maskw(a->w)); break;
    case K_SEXT: setr(e,a->lo,a->hi); break;
    case K_EXTRACT: if(e->aux==0&&a->lo>=smin_w(e->w)&&a->hi<=smax_w(e->w)) setr(e,a->lo,a->hi,true);
        else if(a->lo>=0){ SW h=a->hi>>(int)e->aux; if(h<=smax_w(e->w)) setr(e,a->lo>>(int)e->aux,h); }
        break;
    case K_UDIV: if(a->lo>=0&&b->lo>0) setr(e,a->lo/b->hi,a->hi/b->lo); else if(a->lo>=0) setr(e,b->lo>=0||1?-1:0,a->hi); break;
    case K_UREM: if(a->lo>=0&&b->lo>0) setr(e,0,std::min(a->hi,b->hi-1)); else if(a->lo>=0) setr(e,0,a->hi); else if(b->lo>0) setr(e,0,b->hi-1); break;
    case K_SDIV: { SW m=std::max(a->lo<0?-a->lo:a->lo,a->hi<0?-a->hi:a->hi); setr(e,-m,m);} break;
    case K_SREM: { SW m=std::max(a->lo<0?-a->lo:a->lo,a->hi<0?-a->hi:a->hi); setr(e,a->lo<0?-m:(SW)0,a->hi>0?m:(SW)0);} break;
    case K_FLOORDIV: { SW m=std::max(a->lo<0?-a->lo:a->lo,a->hi<0?-a->hi:a->hi);
        if(b->lo>0){ setr(e,a->lo<0?-m:(SW)0, a->hi>=0?m:(SW)-1);} else setr(e,-m,m);} break;
    default: break;
    }
  }
  Expr *mkConst(unsigned w,W v){ return intern(K_CONST,w,0,nullptr,nullptr,nullptr,v&maskw(w)); }
  Expr *mkVar(const std::string&n,unsigned w,SW lo,SW hi){
    u32 idx=vars.size();
    Expr*e=intern(K_VAR,w,idx,nullptr,nullptr,nullptr,0);
    e->lo=lo;e->hi=hi; vars.push_back(e);varNames.push_back(n); return e;
  }
  static bool isC(Expr*e){ return e->k==K_CONST; }
  static bool isC(Expr*e,W v){ return e->k==K_CONST&&e->val==v; }
  Expr*b(bool v){ return v?T:F; }

  // arithmetic on the low parts of wider terms is done on the wider terms when
  // nothing is cut off
  static bool lowPart(Expr*a){ return a->k==K_EXTRACT&&a->nowrap&&a->aux==0&&a->w>=16&&a->a[0]->w<=64; }
  Expr *hoist(Kind k,Expr*a,Expr*b){
    bool ea=lowPart(a),eb=lowPart(b);
    if(!(ea||eb)||!(ea||isC(a))||!(eb||isC(b))||(ea&&eb&&a->a[0]->w!=b->a[0]->w)) return nullptr;
    unsigned w=a->w,W2=ea?a->a[0]->w:b->a[0]->w;
    SW l,h; SW al=a->lo,ah=a->hi,bl=b->lo,bh=b->hi;
    if(k==K_ADD){ l=al+bl; h=ah+bh; } else if(k==K_SUB){ l=al-bh; h=ah-bl; } else { SW q[4]={al*bl,al*bh,ah*bl,ah*bh}; l=*std::min_element(q,q+4); h=*std::max_element(q,q+4); }
    if(l<smin_w(w)||h>smax_w(w)) return nullptr;
    Expr*x=ea?a->a[0]:mkConst(W2,(W)sgn(a->val,w)&maskw(W2)),*y=eb?b->a[0]:mkConst(W2,(W)sgn(b->val,w)&maskw(W2));
    Expr*r=k==K_ADD?add(x,y):k==K_SUB?sub(x,y):mul(x,y);
    return extract(r,0,w); }
  Expr *add(Expr*a,Expr*b){
    unsigned w=a->w;
    if(isC(a)&&isC(b)) return mkConst(w,a->val+b->val);
    if(ringOn) if(Expr*r=hoist(K_ADD,a,b)) return r;
    if(isC(a)) std::swap(a,b);
    if(isC(b)){ if(b->val==0) return a;
      if(a->k==K_ADD&&isC(a->a[1])) return add(a->a[0],mkConst(w,a->a[1]->val+b->val));
      if(a->k==K_SUB&&isC(a->a[0])) return sub(mkConst(w,a->a[0]->val+b->val),a->a[1]);
      if(a->k==K_ITE&&isC(a->a[1])&&isC(a->a[2])) return ite(a->a[0],add(a->a[1],b),add(a->a[2],b));
    } else {
      if(a->k==K_SUB&&a->a[1]==b) return a->a[0];
      if(b->k==K_SUB&&b->a[1]==a) return b->a[0];
      if(w>1&&w<=128) if(Expr*r=subProd(a,b,true)) return r;
      if(a->id>b->id) std::swap(a,b);
    }
    return ring(intern(K_ADD,w,0,a,b,nullptr,0));
  }
  Expr *sub(Expr*a,Expr*b){
    unsigned w=a->w;
    if(a==b) return mkConst(w,0);
    if(isC(a)&&isC(b)) return mkConst(w,a->val-b->val);
    if(ringOn) if(Expr*r=hoist(K_SUB,a,b)) return r;
    if(isC(b)) return add(a,mkConst(w,W(0)-b->val));
    if(isC(a)&&b->k==K_SUB&&isC(b->a[0])) return add(b->a[1],mkConst(w,a->val-b->a[0]->val));
    if(isC(a)&&b->k==K_ADD&&isC(b->a[1])) return sub(mkConst(w,a->val-b->a[1]->val),b->a[0]);
    if(isC(a,0)&&b->k==K_SUB) return sub(b->a[1],b->a[0]);
    if(isC(a,0)&&b->k==K_SEXT&&b->a[0]->w>1&&b->a[0]->lo>smin_w(b->a[0]->w)) return sext(sub(mkConst(b->a[0]->w,0),b->a[0]),w);
    if(a->k==K_ADD){ if(a->a[0]==b) return a->a[1]; if(a->a[1]==b) return a->a[0];
      // (x + c) - y with y = x + d
      if(isC(a->a[1])&&b->k==K_ADD&&isC(b->a[1])&&a->a[0]==b->a[0]) return mkConst(w,a->a[1]->val-b->a[1]->val);
      if(isC(a->a[1])&&b->k==K_ADD&&isC(b->a[1])) return add(sub(a->a[0],b->a[0]),mkConst(w,a->a[1]->val-b->a[1]->val));
    }
    if(b->k==K_ADD){ if(b->a[0]==a) return sub(mkConst(w,0),b->a[1]); if(b->a[1]==a) return sub(mkConst(w,0),b->a[0]);
      if(isC(b->a[1])) return sub(add(a,mkConst(w,W(0)-b->a[1]->val)),b->a[0]);
    }
    if(b->k==K_SUB&&b->a[0]==a) return b->a[1];
    if(a->k==K_CONCAT&&b->k==K_CONCAT&&a->a[1]->w==b->a[1]->w&&(isC(b->a[1],0)||a->a[1]==b->a[1])) return concat(sub(a->a[0],b->a[0]),sub(a->a[1],b->a[1]));
    if(w>1&&w<=128) if(Expr*r=subProd(a,b,false)) return r;
    return ring(intern(K_SUB,w,0,a,b,nullptr,0));
  }
  Expr *neg(Expr*a){
    if(a->k==K_SEXT&&a->a[0]->w>1&&a->a[0]->k!=K_CONST&&a->a[0]->lo>smin_w(a->a[0]->w)) return sext(neg(a->a[0]),a->w);
    return sub(mkConst(a->w,0),a); }
  static bool flip(Expr*a){ return a->k==K_SUB&&!isC(a->a[0])&&a->a[0]->id>a->a[1]->id; }
  Expr *mul(Expr*a,Expr*b){
    unsigned w=a->w;
    if(isC(a)&&isC(b)) return mkConst(w,a->val*b->val);
    if(ringOn) if(Expr*r=hoist(K_MUL,a,b)) return r;
    if(isC(a)) std::swap(a,b);
    if(isC(b)){
      if(b->val==0) return b; if(b->val==1) return a;
      if(b->val==maskw(w)) return neg(a);
      if(a->k==K_ITE&&isC(a->a[1])&&isC(a->a[2])) return ite(a->a[0],mul(a->a[1],b),mul(a->a[2],b));
      if(a->k==K_MUL&&isC(a->a[1])) return mul(a->a[0],mkConst(w,a->a[1]->val*b->val));
      if(a->k==K_SHL&&isC(a->a[1])&&a->a[1]->val<w) return mul(a->a[0],mkConst(w,b->val<<(int)a->a[1]->val));
      if(a->k==K_SUB&&isC(a->a[0],0)) return mul(a->a[1],mkConst(w,W(0)-b->val));
    } else {
      // pull signs out: (-x)*y = -(x*y)
      if(a->k==K_SUB&&isC(a->a[0],0)) return neg(mul(a->a[1],b));
      if(b->k==K_SUB&&isC(b->a[0],0)) return neg(mul(a,b->a[1]));
      // canonical sign for differences
      if(flip(a)){ Expr*f=sub(a->a[1],a->a[0]); if(!flip(f)) return neg(mul(f,b)); }
      if(flip(b)){ Expr*f=sub(b->a[1],b->a[0]); if(!flip(f)) return neg(mul(a,f)); }
      if(a->id>b->id) std::swap(a,b);
    }
    return ring(intern(K_MUL,w,0,a,b,nullptr,0));
  }
  Expr *div(Kind k,Expr*a,Expr*b){
    unsigned w=a->w;
    if(isC(a)&&isC(b)&&b->val!=0){
      SW x=sgn(a->val,w),y=sgn(b->val,w);
      switch(k){
      case K_UDIV: return mkConst(w,a->val/b->val);
      case K_UREM: return mkConst(w,a->val%b->val);
      case K_SDIV: return mkConst(w,(W)(x/y));
      case K_SREM: return mkConst(w,(W)(x%y));
      case K_FLOORDIV: { SW q=x/y; if((x%y!=0)&&((x<0)!=(y<0))) q-=1; return mkConst(w,(W)q); }
      default: break; }
    }
    if(k==K_FLOORDIV&&isC(b)&&!isC(a)){ SW d=sgn(b->val,w); if(d>1){ if(Expr*r=pullDiv(a,d)) return r; } else if(d<-1&&(a->k==K_ADD||a->k==K_SUB||a->k==K_MUL||a->k==K_SEXT)&&d>smin_w(w)&&a->lo>smin_w(w)) return div(k,neg(a),mkConst(w,(W)-d)); }
    if(isC(b,1)){ if(k==K_UDIV||k==K_SDIV||k==K_FLOORDIV) return a; if(k==K_UREM||k==K_SREM) return mkConst(w,0); }
    if(a->k==K_CONST&&a->val==0&&(isC(b)||k==K_FLOORDIV)) return a;
    if(isC(b)&&(b->val&(b->val-1))==0&&b->val!=0){
      int s=0; while(!((b->val>>s)&1)) s++;
      if(k==K_UDIV) return shift(K_LSHR,a,mkConst(w,s));
      if(k==K_UREM) return bin(K_AND,a,mkConst(w,b->val-1));
      if(k==K_FLOORDIV&&sgn(b->val,w)>0) return shift(K_ASHR,a,mkConst(w,s));
      if((k==K_SDIV)&&a->lo>=0&&sgn(b->val,w)>0) return shift(K_LSHR,a,mkConst(w,s));
    }
    if(k==K_SDIV&&a->k==K_MUL&&a->a[1]==b&&a->nowrap) return a->a[0];
    if(k==K_FLOORDIV&&a->k==K_MUL&&a->nowrap){ if(a->a[1]==b) return a->a[0]; if(a->a[0]==b) return a->a[1]; }
    if(k==K_SDIV&&a->lo>=0&&b->lo>0) k=K_UDIV;
    if(k==K_SREM&&a->lo>=0&&b->lo>0) k=K_UREM;
    if(k==K_FLOORDIV&&a->lo>=0&&b->lo>0) k=K_UDIV;
    return intern(k,w,0,a,b,nullptr,0);
  }
  Expr *not_(Expr*a){
    if(isC(a)) return mkConst(a->w,~a->val);
    if(a->k==K_NOT) return a->a[0];
    return intern(K_NOT,a->w,0,a,nullptr,nullptr,0);
  }
  Expr *bin(Kind k,Expr*a,Expr*b){ // AND OR XOR
    unsigned w=a->w; W m=maskw(w);
    if(isC(a)&&isC(b)) return mkConst(w,k==K_AND?(a->val&b->val):k==K_OR?(a->val|b->val):(a->val^b->val));
    if(isC(a)) std::swap(a,b);
    if(a==b) return k==K_XOR?mkConst(w,0):a;
    if(isC(b)){
      if(k==K_AND){ if(b->val==0) return b; if(b->val==m) return a;
        // mask of low bits covering the range
        if(a->lo>=0){ W h=(W)a->hi; unsigned n=0; while(h){n++;h>>=1;} if((b->val&maskw(n?n:1))==maskw(n?n:1)) return a; }
        // low mask -> zext(extract)
        if((b->val&(b->val+1))==0){ unsigned n=0; W h=b->val; while(h){n++;h>>=1;} return zext(extract(a,0,n),w); }
        if(a->k==K_AND&&isC(a->a[1])) return bin(K_AND,a->a[0],mkConst(w,a->a[1]->val&b->val));
      }
      if(a->k==K_CONCAT){ unsigned lw=a->a[1]->w; return concat(bin(k,a->a[0],mkConst(a->a[0]->w,b->val>>lw)),bin(k,a->a[1],mkConst(lw,b->val))); }
      if(k==K_OR){ if(b->val==0) return a; if(b->val==m) return b; }
      if(k==K_XOR){ if(b->val==0) return a; if(b->val==m) return not_(a); if(a->k==K_XOR&&isC(a->a[1])) return bin(K_XOR,a->a[0],mkConst(w,a->a[1]->val^b->val)); }
    } else {
      if(k==K_OR||k==K_XOR||k==K_AND) for(int t=0;t<2;t++,std::swap(a,b)) if(a->k==K_CONCAT&&(b->k==K_CONCAT||b->k==K_ZEXT)&&(k!=K_AND||b->k==K_ZEXT)){ unsigned lw=a->a[1]->w;
        if(isC(a->a[1],0)||isC(a->a[0],0)||b->k==K_ZEXT&&b->a[0]->w<=lw||b->k==K_CONCAT&&b->a[1]->w==lw) return concat(bin(k,a->a[0],extract(b,lw,w-lw)),bin(k,a->a[1],extract(b,0,lw))); }
      if(a->k==K_NOT&&a->a[0]==b||b->k==K_NOT&&b->a[0]==a) return k==K_AND?mkConst(w,0):mkConst(w,m);
      if(k==K_XOR&&a->k==K_NOT&&b->k==K_NOT) return bin(K_XOR,a->a[0],b->a[0]);
      if(k==K_XOR&&a->k==K_NOT) return not_(bin(K_XOR,a->a[0],b));
      if(k==K_XOR&&b->k==K_NOT) return not_(bin(K_XOR,a,b->a[0]));
      if(a->id>b->id) std::swap(a,b);
      // or of shifted parts (byte assembly): (zext x) | (shl (zext y) n) with disjoint bits -> concat
      if(k==K_OR){
        Expr*lo=a,*hi=b; for(int t=0;t<2;t++,std::swap(lo,hi)){
          if(lo->k==K_ZEXT&&hi->k==K_SHL&&isC(hi->a[1])&&hi->a[1]->val>=lo->a[0]->w&&hi->a[1]->val<w){
            unsigned s=(unsigned)hi->a[1]->val;
            return concat(extract(hi->a[0],0,w-s),zext(lo->a[0],s));
          }}
      }
    }
    return intern(k,w,0,a,b,nullptr,0);
  }
  // floor(a/d) of a linear form that does not wrap: whole multiples move out
  Expr *pullDiv(Expr*a,SW d){
    if(!ringOn||a->w<16||d<2||!(a->k==K_ADD||a->k==K_SUB||a->k==K_MUL||a->k==K_SEXT)||!exact(a)) return nullptr;
    unsigned w=a->w; Poly*p=poly(a); if(p->size()>6) return nullptr;
    for(auto&t:*p) if(t.first.n>1) return nullptr;
    bool pulled=false; SW g=d; std::vector<std::pair<Expr*,std::pair<SW,SW>>> ts; SW cq=0,cr=0;
    for(auto&t:*p){ SW k=sgn(t.second,w),q=k/d,r=k%d; if(2*r>d){ q+=1; r-=d; } if(2*r<=-d){ q-=1; r+=d; } if(q!=0) pulled=true; if(t.first.n) ts.push_back({exprOf(t.first.at[0]),{q,r}}); else { cq=q; cr=r; }
      SW x=g,y=r<0?-r:r; while(y!=0){ SW z=x%y; x=y; y=z; } g=x; }
    if(!pulled&&g==1) return nullptr;
    auto sum=[&](int which,SW by)->Expr*{ Expr*r=mkConst(w,(W)((which?cr:cq)/by)); for(auto&t:ts){ SW k=(which?t.second.second:t.second.first)/by; if(k==0) continue; Expr*m=mul(t.first,mkConst(w,(W)k)); if(m->k==K_MUL&&!m->nowrap) return nullptr; Expr*n=add(r,m); if((n->k==K_ADD||n->k==K_SUB)&&!n->nowrap) return nullptr; r=n; } return r; };
    Expr*q=sum(0,1),*r=sum(1,g); if(!q||!r) return nullptr;
    return add(q,div(K_FLOORDIV,r,mkConst(w,(W)(d/g)))); }
  Expr *shift(Kind k,Expr*a,Expr*b){
    unsigned w=a->w;
    if(k==K_ASHR&&isC(b)&&b->val>0&&b->val<60&&b->val<w-1&&!isC(a)) if(Expr*r=pullDiv(a,(SW)1<<(int)b->val)) return r;
    if(isC(b)){
      if(b->val==0) return a;
      if(b->val>=w) return k==K_ASHR? shift(k,a,mkConst(w,w-1)) : mkConst(w,0);
      int s=(int)b->val;
      if(isC(a)) return mkConst(w,k==K_SHL?a->val<<s:k==K_LSHR?a->val>>s:(W)(sgn(a->val,w)>>s));
      if(k==K_LSHR&&a->lo>=0) k=K_ASHR;
      if(k==K_LSHR) return zext(extract(a,s,w-s),w);
      if(k==K_ASHR&&a->lo>=0){ // keep as ASHR
        if(a->hi>>s==a->lo>>s) return mkConst(w,(W)(a->hi>>s));
      }
      if(k==K_ASHR&&a->k==K_MUL&&a->nowrap&&isC(a->a[1])&&s<100){ SW c=sgn(a->a[1]->val,w),p2=(SW)1<<s; if(c%p2==0) return mul(a->a[0],mkConst(w,(W)(c/p2)&maskw(w))); }
      if(k==K_ASHR&&a->k==K_SHL&&a->a[1]==b) return a->nowrap?a->a[0]:sext(extract(a->a[0],0,w-s),w);
      if(k==K_ASHR&&(a->k==K_CONCAT||((a->k==K_SUB||a->k==K_ADD)&&(lowZero(a->a[1])>=(unsigned)s||lowZero(a->a[0])>=(unsigned)s)))) return sext(extract(a,s,w-s),w);
      if(k==K_SHL&&s<=8&&w>=16&&w<=128){ SW f=(SW)1<<s; if(a->lo*f>=smin_w(w)&&a->hi*f<=smax_w(w)&&a->k!=K_CONCAT) return mul(a,mkConst(w,(W)f)); }
      if(k==K_SHL&&(a->k==K_CONCAT||a->k==K_ZEXT)&&w-s<=(a->k==K_CONCAT?a->a[1]->w:a->a[0]->w)) return concat(extract(a,0,w-s),mkConst(s,0));
      if(k==K_ASHR&&a->k==K_ASHR&&isC(a->a[1])) return shift(K_ASHR,a->a[0],mkConst(w,std::min<W>(w-1,a->a[1]->val+s)));
      if(k==K_SHL&&a->k==K_SHL&&isC(a->a[1])) return shift(K_SHL,a->a[0],mkConst(w,a->a[1]->val+s));
      if(k==K_ASHR&&a->k==K_CONCAT&&a->a[1]->w==(unsigned)s) return sext(a->a[0],w);
    }
    if(isC(a,0)) return a;
    return intern(k,w,0,a,b,nullptr,0);
  }
  Expr *eq(Expr*a,Expr*b){
    if(a==b) return T;
    if(isC(a)&&isC(b)) return this->b(a->val==b->val);
    if(a->hi<b->lo||b->hi<a->lo) return F;
    if(isC(a)) std::swap(a,b);
    if(a->w==1){ if(isC(b)) return b->val?a:not_(a); return not_(bin(K_XOR,a,b)); }
    if(isC(b)){
      if(a->k==K_ITE&&(isC(a->a[1])||isC(a->a[2]))) return ite(a->a[0],eq(a->a[1],b),eq(a->a[2],b));
      if(a->k==K_ZEXT){ if(b->val>>(a->a[0]->w)) return F; return eq(a->a[0],mkConst(a->a[0]->w,b->val)); }
      if(a->k==K_SEXT){ SW v=sgn(b->val,b->w); if(v<smin_w(a->a[0]->w)||v>smax_w(a->a[0]->w)) return F; return eq(a->a[0],mkConst(a->a[0]->w,(W)v)); }
      if(a->k==K_ADD&&isC(a->a[1])) return eq(a->a[0],mkConst(a->w,b->val-a->a[1]->val));
      if(a->k==K_SUB&&isC(a->a[0])) return eq(a->a[1],mkConst(a->w,a->a[0]->val-b->val));
      if(a->k==K_SUB&&b->val==0) return eq(a->a[0],a->a[1]);
      if(a->k==K_NOT) return eq(a->a[0],mkConst(a->w,~b->val));
      if(a->k==K_XOR&&b->val==0) return eq(a->a[0],a->a[1]);
      if(a->k==K_EXTRACT&&a->aux==0&&a->nowrap) return eq(a->a[0],mkConst(a->a[0]->w,(W)sgn(b->val,b->w)));
      if(a->k==K_MUL&&b->val==0&&a->nowrap){ if(isC(a->a[1])) return eq(a->a[0],mkConst(a->w,0)); return bin(K_OR,eq(a->a[0],mkConst(a->w,0)),eq(a->a[1],mkConst(a->w,0))); }
      if(a->k==K_SHL&&b->val==0&&a->nowrap) return eq(a->a[0],mkConst(a->w,0));
      if(a->k==K_CONCAT) return bin(K_AND,eq(a->a[0],mkConst(a->a[0]->w,b->val>>a->a[1]->w)),eq(a->a[1],mkConst(a->a[1]->w,b->val)));
      if(a->k==K_OR&&b->val==0) return bin(K_AND,eq(a->a[0],b),eq(a->a[1],b));
      if(Expr*r=cmpPoly(true,a,b)) return r;
    } else {
      if(a->k==K_ZEXT&&b->k==K_ZEXT&&a->a[0]->w==b->a[0]->w) return eq(a->a[0],b->a[0]);
      if(a->k==K_SEXT&&b->k==K_SEXT&&a->a[0]->w==b->a[0]->w) return eq(a->a[0],b->a[0]);
      if(a->k==K_EXTRACT&&b->k==K_EXTRACT&&a->nowrap&&b->nowrap&&a->a[0]->w==b->a[0]->w) return eq(a->a[0],b->a[0]);
      if(a->k==K_SUB&&isC(a->a[0],0)&&b->k==K_SUB&&isC(b->a[0],0)) return eq(a->a[1],b->a[1]);
      if(a->k==K_ADD&&b->k==K_ADD){ if(a->a[0]==b->a[0]) return eq(a->a[1],b->a[1]); if(a->a[1]==b->a[1]) return eq(a->a[0],b->a[0]);
         if(a->a[0]==b->a[1]) return eq(a->a[1],b->a[0]); if(a->a[1]==b->a[0]) return eq(a->a[0],b->a[1]); }
      if(a->k==K_SUB&&b->k==K_SUB){ if(a->a[0]==b->a[0]) return eq(a->a[1],b->a[1]); if(a->a[1]==b->a[1]) return eq(a->a[0],b->a[0]); }
      if(a->k==K_ADD){ if(a->a[0]==b) return eq(a->a[1],mkConst(a->w,0)); if(a->a[1]==b) return eq(a->a[0],mkConst(a->w,0)); }
      if(b->k==K_ADD){ if(b->a[0]==a) return eq(b->a[1],mkConst(a->w,0)); if(b->a[1]==a) return eq(b->a[0],mkConst(a->w,0)); }
      if(a->w>1) if(Expr*r=eqProd(a,b)) return r;
      if(a->k==K_ITE){ if(a->a[1]==b) return bin(K_OR,a->a[0],eq(a->a[2],b)); if(a->a[2]==b) return bin(K_OR,not_(a->a[0]),eq(a->a[1],b)); }
      if(b->k==K_ITE){ if(b->a[1]==a) return bin(K_OR,b->a[0],eq(b->a[2],a)); if(b->a[2]==a) return bin(K_OR,not_(b->a[0]),eq(b->a[1],a)); }
      if(a->k==K_ITE&&(nonlin(a->a[1])||nonlin(a->a[2])||nonlin(b))) return ite(a->a[0],eq(a->a[1],b),eq(a->a[2],b));
      if(b->k==K_ITE&&(nonlin(b->a[1])||nonlin(b->a[2])||nonlin(a))) return ite(b->a[0],eq(a,b->a[1]),eq(a,b->a[2]));
      if(Expr*r=cmpPoly(true,a,b)) return r;
      if(a->id>b->id) std::swap(a,b);
    }
    return intern(K_EQ,1,0,a,b,nullptr,0);
  }
  static bool nonlin(Expr*e,int d=0){ if(e->k==K_MUL) return !isC(e->a[1]); if(d>3) return false; if(e->k==K_ADD||e->k==K_SUB) return nonlin(e->a[0],d+1)||nonlin(e->a[1],d+1); if(e->k==K_SEXT||e->k==K_EXTRACT) return nonlin(e->a[0],d+1); if(e->k==K_ITE) return nonlin(e->a[1],d+1)||nonlin(e->a[2],d+1); return false; }
  Expr *slt(Expr*a,Expr*b){
    if(a==b) return F;
    if(isC(a)&&isC(b)) return this->b(sgn(a->val,a->w)<sgn(b->val,b->w));
    if(a->hi<b->lo) return T;
    if(a->lo>=b->hi) return F;
    if(a->w==1) return bin(K_AND,a,not_(b));
    if((a->k==K_SEXT||a->k==K_ZEXT)&&b->k==a->k&&a->a[0]->w==b->a[0]->w) return a->k==K_SEXT?slt(a->a[0],b->a[0]):ult(a->a[0],b->a[0]);
    if(a->k==K_EXTRACT&&a->nowrap&&a->aux==0) {
      if(isC(b)) return slt(a->a[0],mkConst(a->a[0]->w,(W)sgn(b->val,b->w)));
      if(b->k==K_EXTRACT&&b->nowrap&&b->a[0]->w==a->a[0]->w) return slt(a->a[0],b->a[0]);
    }
    if(isC(a)&&b->k==K_EXTRACT&&b->nowrap&&b->aux==0) return slt(mkConst(b->a[0]->w,(W)sgn(a->val,a->w)),b->a[0]);
    if(isC(b,0)&&a->w==64) if(Expr*j=joinFromHigh(a)) return slt(j,mkConst(j->w,0));
    if(isC(b)&&a->k==K_ASHR&&isC(a->a[1])&&a->a[1]->val<100){ SW v=sgn(b->val,b->w)*((SW)1<<(int)a->a[1]->val); if(v>=smin_w(a->w)&&v<=smax_w(a->w)) return slt(a->a[0],mkConst(a->w,(W)v)); }
    if(isC(a)&&b->k==K_ASHR&&isC(b->a[1])&&b->a[1]->val<100){ SW v=(sgn(a->val,a->w)+1)*((SW)1<<(int)b->a[1]->val)-1; if(v>=smin_w(a->w)&&v<=smax_w(a->w)) return slt(mkConst(a->w,(W)v),b->a[0]); }
    if(isC(b)){
      if(a->k==K_SEXT){ SW v=sgn(b->val,b->w); return slt(a->a[0],mkConst(a->a[0]->w,(W)v)); }
      if(a->k==K_ITE&&(isC(a->a[1])||isC(a->a[2]))) return ite(a->a[0],slt(a->a[1],b),slt(a->a[2],b));
      if(a->k==K_ADD&&a->nowrap&&isC(a->a[1])){ SW v=sgn(b->val,b->w)-sgn(a->a[1]->val,b->w); if(v>=smin_w(a->w)&&v<=smax_w(a->w)) return slt(a->a[0],mkConst(a->w,(W)v)); }
      if(a->k==K_SUB&&a->nowrap&&isC(a->a[0])){ SW v=sgn(a->a[0]->val,b->w)-sgn(b->val,b->w); if(v>=smin_w(a->w)&&v<=smax_w(a->w)) return slt(mkConst(a->w,(W)v),a->a[1]); }
      if(a->k==K_SUB&&a->nowrap&&b->val==0) return slt(a->a[0],a->a[1]);
      if(b->val==0) if(Expr*r=sltProd(a,b)) return r;
      if(b->val==1&&!(isC(a))) return not_(slt(mkConst(a->w,0),a)); // a<1 <=> !(0<a)
      if(b->val!=0&&!isC(a)) { // a < c  <=> !(c-1 < a)
        SW v=sgn(b->val,b->w)-1; return not_(slt(mkConst(a->w,(W)v),a)); }
    }
    if(isC(a)){
      if(b->k==K_SEXT){ SW v=sgn(a->val,a->w); return slt(mkConst(b->a[0]->w,(W)v),b->a[0]); }
      if(b->k==K_ITE&&(isC(b->a[1])||isC(b->a[2]))) return ite(b->a[0],slt(a,b->a[1]),slt(a,b->a[2]));
      if(b->k==K_ADD&&b->nowrap&&isC(b->a[1])){ SW v=sgn(a->val,a->w)-sgn(b->a[1]->val,a->w); if(v>=smin_w(a->w)&&v<=smax_w(a->w)) return slt(mkConst(a->w,(W)v),b->a[0]); }
      if(b->k==K_SUB&&b->nowrap&&isC(b->a[0])){ SW v=sgn(b->a[0]->val,a->w)-sgn(a->val,a->w); if(v>=smin_w(a->w)&&v<=smax_w(a->w)) return slt(b->a[1],mkConst(a->w,(W)v)); }
      if(b->k==K_SUB&&b->nowrap&&a->val==0) return slt(b->a[1],b->a[0]);
      if(a->val==0) if(Expr*r=sltProd(a,b)) return r;
      if(a->val==maskw(a->w)) return not_(slt(b,mkConst(a->w,0)));
    }
    // x < y  canonical for nowrap adds with common parts
    if(a->k==K_ADD&&b->k==K_ADD&&a->nowrap&&b->nowrap){
      if(a->a[0]==b->a[0]) return slt(a->a[1],b->a[1]); if(a->a[1]==b->a[1]) return slt(a->a[0],b->a[0]);
      if(a->a[0]==b->a[1]) return slt(a->a[1],b->a[0]); if(a->a[1]==b->a[0]) return slt(a->a[0],b->a[1]); }
    if(a->k==K_SUB&&b->k==K_SUB&&a->nowrap&&b->nowrap){
      if(a->a[0]==b->a[0]) return slt(b->a[1],a->a[1]); if(a->a[1]==b->a[1]) return slt(a->a[0],b->a[0]); }
    if(a->k==K_ADD&&a->nowrap){ if(a->a[0]==b) return slt(a->a[1],mkConst(a->w,0)); if(a->a[1]==b) return slt(a->a[0],mkConst(a->w,0)); }
    if(b->k==K_ADD&&b->nowrap){ if(b->a[0]==a) return slt(mkConst(a->w,0),b->a[1]); if(b->a[1]==a) return slt(mkConst(a->w,0),b->a[0]); }
    if(Expr*r=sltProd(a,b)) return r;
    if(isNeg(a)&&isNeg(b)) return slt(b->a[1],a->a[1]);
    if(a->k==K_ITE&&(nonlin(a->a[1])||nonlin(a->a[2])||nonlin(b))) return ite(a->a[0],slt(a->a[1],b),slt(a->a[2],b));
    if(b->k==K_ITE&&(nonlin(b->a[1])||nonlin(b->a[2])||nonlin(a))) return ite(b->a[0],slt(a,b->a[1]),slt(a,b->a[2]));
    if(Expr*r=cmpPoly(false,a,b)) return r;
    return intern(K_SLT,1,0,a,b,nullptr,0);
  }
  Expr *ult(Expr*a,Expr*b){
    if(a==b) return F;
    if(isC(a)&&isC(b)) return this->b(a->val<b->val);
    if(isC(b,0)) return F;
    if(isC(b,1)) return eq(a,mkConst(a->w,0));
    if(isC(a,0)) return not_(eq(b,a));
    if(a->lo>=0&&b->lo>=0) return slt(a,b);
    if(a->hi<0&&b->hi<0) return slt(a,b);
    if(a->lo>=0&&b->hi<0) return T;
    if(a->hi<0&&b->lo>=0) return F;
    if(a->k==K_ZEXT&&b->k==K_ZEXT&&a->a[0]->w==b->a[0]->w) return ult(a->a[0],b->a[0]);
    if(a->k==K_SEXT&&b->k==K_SEXT&&a->a[0]->w==b->a[0]->w) return ult(a->a[0],b->a[0]);
    // unsigned compare against nonneg constant of possibly negative: a <u c  <=> a>=0 && a < c
    if(isC(b)&&b->lo>=0) return bin(K_AND,not_(slt(a,mkConst(a->w,0))),slt(a,b));
    if(isC(a)&&a->lo>=0) return bin(K_OR,slt(b,mkConst(a->w,0)),slt(a,b));
    if(a->w>1&&(prodLike(a)||prodLike(b))) return bin(K_XOR,slt(a,b),bin(K_XOR,slt(a,mkConst(a->w,0)),slt(b,mkConst(b->w,0))));
    return intern(K_ULT,1,0,a,b,nullptr,0);
  }
  Expr *ite(Expr*c,Expr*x,Expr*y){
    if(c==T) return x; if(c==F) return y; if(x==y) return x;
    if(c->k==K_NOT){ c=c->a[0]; std::swap(x,y); }
    if(x->w==1){
      if(x==T) return bin(K_OR,c,y); if(x==F) return bin(K_AND,not_(c),y);
      if(y==T) return bin(K_OR,not_(c),x); if(y==F) return bin(K_AND,c,x);
    }
    if(x->k==K_ITE&&x->a[0]==c) x=x->a[1];
    if(y->k==K_ITE&&y->a[0]==c) y=y->a[2];
    if(x==y) return x;
    if(x->k==K_FRAT&&y->k==K_FRAT) return frat(ite(c,x->a[0],y->a[0]),ite(c,x->a[1],y->a[1]));
    return intern(K_ITE,x->w,0,c,x,y,0);
  }
  static unsigned lowZero(Expr*e){
    if(e->k==K_CONST){ if(e->val==0) return e->w; unsigned n=0; W v=e->val; while(!(v&1)){ v>>=1; n++; } return n; }
    if(e->k==K_SHL&&isC(e->a[1])) return (unsigned)e->a[1]->val;
    if(e->k==K_CONCAT&&isC(e->a[1],0)) return e->a[1]->w;
    return 0; }
  Expr *extract(Expr*a,unsigned lo,unsigned w){
    if(ringOn&&lo==0&&w<=64&&a->w>64&&a->nowrap&&(a->k==K_ADD||a->k==K_SUB||a->k==K_MUL)){ SW l=smin_w(64),h=smax_w(64); bool ok=a->lo>=l&&a->hi<=h; for(int i=0;ok&&i<2;i++) ok=a->a[i]->lo>=l&&a->a[i]->hi<=h;
      if(ok){ Expr*x=extract(a->a[0],0,64),*y=extract(a->a[1],0,64); Expr*r=a->k==K_ADD?add(x,y):a->k==K_SUB?sub(x,y):mul(x,y); return w==64?r:extract(r,0,w); } }
    if(lo==0&&w==a->w) return a;
    if(isC(a)) return mkConst(w,a->val>>lo);
    if(w==1&&lo==a->w-1&&nonlin(a)) return slt(a,mkConst(a->w,0));
    switch(a->k){
    case K_EXTRACT: return extract(a->a[0],a->aux+lo,w);
    case K_CONCAT: { unsigned lw=a->a[1]->w; if(lo+w<=lw) return extract(a->a[1],lo,w); if(lo>=lw) return extract(a->a[0],lo-lw,w);
       return concat(extract(a->a[0],0,lo+w-lw),extract(a->a[1],lo,lw-lo)); }
    case K_ZEXT: { unsigned iw=a->a[0]->w; if(lo>=iw) return mkConst(w,0); if(lo+w<=iw) return extract(a->a[0],lo,w); if(lo==0) return zext(a->a[0],w); return zext(extract(a->a[0],lo,iw-lo),w); }
    case K_SEXT: { unsigned iw=a->a[0]->w; if(lo+w<=iw) return extract(a->a[0],lo,w); if(lo==0) return sext(a->a[0],w); if(lo>=iw-1) return sext(extract(a->a[0],iw-1,1),w); break; }
    case K_ITE: if(isC(a->a[1])||isC(a->a[2])) return ite(a->a[0],extract(a->a[1],lo,w),extract(a->a[2],lo,w)); break;
    case K_AND: case K_OR: case K_XOR: if(w==1&&lo==a->w-1&&!isC(a->a[1])){ Expr*z=mkConst(a->w,0); return bin(a->k,slt(a->a[0],z),slt(a->a[1],z)); } if(isC(a->a[0])||isC(a->a[1])||lo==0) return bin(a->k,extract(a->a[0],lo,w),extract(a->a[1],lo,w)); break;
    case K_NOT: return not_(extract(a->a[0],lo,w));
    case K_ADD: case K_SUB: if(lo>0&&(lowZero(a->a[1])>=lo||(a->k==K_ADD&&lowZero(a->a[0])>=lo))){ Expr*x=extract(a->a[0],lo,w),*y=extract(a->a[1],lo,w); return a->k==K_ADD?add(x,y):sub(x,y);} 
       if(lo==0&&!a->nowrap&&!joined.count(a)) { Expr*x=extract(a->a[0],0,w),*y=extract(a->a[1],0,w); return a->k==K_ADD?add(x,y):sub(x,y);} break;
    case K_MUL: if(lo==0&&!a->nowrap) return mul(extract(a->a[0],0,w),extract(a->a[1],0,w)); break;
    case K_ASHR: if(isC(a->a[1])&&a->a[1]->val<a->w){ unsigned s=(unsigned)a->a[1]->val; if(lo+s+w<=a->w) return extract(a->a[0],lo+s,w); if(lo+s>=a->w-1) return sext(extract(a->a[0],a->w-1,1),w); } break;
    case K_SHL: if(isC(a->a[1])){ unsigned s=(unsigned)a->a[1]->val; if(lo>=s) return extract(a->a[0],lo-s,w); if(lo+w<=s) return mkConst(w,0);} break;
    default: break; }
    return ring(intern(K_EXTRACT,w,lo,a,nullptr,nullptr,0));
  }
  Expr *zext(Expr*a,unsigned w){
    if(w==a->w) return a;
    if(isC(a)) return mkConst(w,a->val);
    if(a->k==K_ZEXT) return zext(a->a[0],w);
    if(a->k==K_EXTRACT&&a->aux==0&&a->nowrap&&a->lo>=0) return a->a[0]->w==w?a->a[0]:a->a[0]->w<w?zext(a->a[0],w):extract(a->a[0],0,w);
    if(a->k==K_ITE&&(isC(a->a[1])&&isC(a->a[2]))) return ite(a->a[0],zext(a->a[1],w),zext(a->a[2],w));
    return intern(K_ZEXT,w,0,a,nullptr,nullptr,0);
  }
  Expr *sext(Expr*a,unsigned w){
    if(w==a->w) return a;
    if(isC(a)) return mkConst(w,(W)sgn(a->val,a->w));
    if(a->k==K_SEXT) return sext(a->a[0],w);
    if(a->k==K_ZEXT) return zext(a->a[0],w);
    if(a->k==K_EXTRACT&&a->aux==0&&a->nowrap) return a->a[0]->w==w?a->a[0]:a->a[0]->w<w?sext(a->a[0],w):extract(a->a[0],0,w);
    if(a->k==K_ITE&&(isC(a->a[1])&&isC(a->a[2]))) return ite(a->a[0],sext(a->a[1],w),sext(a->a[2],w));
    return intern(K_SEXT,w,0,a,nullptr,nullptr,0);
  }
  // sums that were put together again from words; their words stay extracts
  std::unordered_map<Expr*,bool> joined;
  static Expr *carryOf(Expr*e){ if((e->k==K_ZEXT||e->k==K_SEXT)&&e->a[0]->w==1) e=e->a[0]; return e->w==1&&(e->k==K_ULT||(e->k==K_NOT&&e->a[0]->k==K_ULT))?e:nullptr; }
  // value whose low word is l: (whole, high word)
  std::pair<Expr*,Expr*> whole(Expr*l,unsigned w){ if(l->k==K_EXTRACT&&l->aux==0&&l->a[0]->w==w) return {l->a[0],extract(l->a[0],l->w,w-l->w)}; return {zext(l,w),mkConst(w-l->w,0)}; }
  Expr *joinWords(Expr*hi,Expr*lo){ // hi:lo where hi contains the carry out of lo
    unsigned w=hi->w+lo->w; if(!ringOn||hi->w<8||lo->w<8||w>256) return nullptr;
    Poly*p=poly(hi); Expr*car=nullptr; W k=0; Expr*cat=nullptr; Expr*a=nullptr,*b=nullptr;
    for(auto&t:*p) if(t.first.n==1){ Expr*x=exprOf(t.first.at[0]); Expr*c=carryOf(x); if(!c||c->k!=K_ULT||(t.second!=1&&t.second!=maskw(hi->w))) continue;
      bool sx=x->k==K_SEXT; W kk=sx?(W(0)-t.second)&maskw(hi->w):t.second; // hi = rest + kk*c
      Expr*u=c->a[0],*v=c->a[1];
      if(kk==1){ if(u==lo){ a=v; b=sub(lo,v); car=x; k=1; } } // carry out of v + (lo-v)
      else if(u->w==lo->w&&sub(u,v)==lo){ a=u; b=v; car=x; k=maskw(w); } // borrow of u-v
      if(car){ cat=x; break; } }
    if(!car) return nullptr;
    bool sx=cat->k==K_SEXT;
    // rest = hi - k*carry
    Expr*rest=(k==1)?(sx?add(hi,cat):sub(hi,cat)):(sx?sub(hi,cat):add(hi,cat));
    // hi:lo = (rest:a) +- b as whole numbers, whatever is taken as the high word of b
    auto comp=[](Expr*x){ return x->k==K_ADD||x->k==K_SUB; };
    Expr*r;
    if(k==1){ if(comp(b)&&!comp(a)) std::swap(a,b); auto B=whole(b,w); r=add(concat(sub(rest,B.second),a),B.first); }
    else if(comp(b)&&!comp(a)){ auto A=whole(a,w); r=sub(A.first,concat(sub(A.second,rest),b)); }
    else { auto B=whole(b,w); r=sub(concat(add(rest,B.second),a),B.first); }
    if(r->k==K_ADD||r->k==K_SUB) joined[r]=true;
    return r; }
  // the sum whose most significant word is hi, found through the carries in hi
  int jfh=0;
  Expr *joinFromHigh(Expr*hi){
    if(!ringOn||jfh||(hi->k!=K_ADD&&hi->k!=K_SUB)||hi->nowrap) return nullptr;
    Poly*p=poly(hi);
    for(auto&t:*p) if(t.first.n==1){ Expr*c=carryOf(exprOf(t.first.at[0])); if(!c||c->k!=K_ULT||c->a[0]->w!=hi->w) continue;
      jfh++; Expr*los[2]={c->a[0],nullptr}; if(c->a[0]->k!=K_CONST) los[1]=sub(c->a[0],c->a[1]); Expr*res=nullptr;
      for(Expr*lo:los) if(lo){ Expr*j=joinWords(hi,lo); if(j&&(j->k==K_ADD||j->k==K_SUB)&&j->nowrap){ res=j; break; } }
      jfh--; if(res) return res; }
    return nullptr; }
  Expr *concat(Expr*hi,Expr*lo){
    unsigned w=hi->w+lo->w;
    if(isC(hi)&&isC(lo)) return mkConst(w,(hi->val<<lo->w)|lo->val);
    if(isC(hi,0)) return zext(lo,w);
    if(isC(lo,0)&&lo->w<=8&&hi->k==K_EXTRACT&&hi->aux==0&&hi->nowrap){ unsigned w=hi->w+lo->w; SW f=(SW)1<<(int)lo->w; if(hi->lo*f>=smin_w(w)&&hi->hi*f<=smax_w(w)) return mul(sext(hi,w),mkConst(w,(W)f)); }
    if(hi->k==K_EXTRACT&&lo->k==K_EXTRACT&&hi->a[0]==lo->a[0]&&hi->aux==lo->aux+lo->w) return extract(lo->a[0],lo->aux,w);
    if(hi->k==K_EXTRACT&&hi->a[0]==lo&&hi->aux==lo->w) return extract(lo,0,w);
    { // sign word above its value
      auto st=[](Expr*x){ while(x->k==K_SEXT||(x->k==K_EXTRACT&&x->aux==0&&x->nowrap)) x=x->a[0]; return x; };
      Expr*h=hi; while(h->k==K_SEXT) h=h->a[0]; Expr*l=st(lo);
      if(h->k==K_ASHR&&isC(h->a[1],h->w-1)){ Expr*x=st(h->a[0]); if(x==l) return sext(lo,w); }
      if(h->k==K_EXTRACT&&h->w==1&&h->aux==h->a[0]->w-1){ Expr*x=st(h->a[0]); if(x==l) return sext(lo,w); } }
    if(Expr*j=joinWords(hi,lo)) return j;
    // concat(sign bits extract of sext)...
    if(lo->k==K_CONCAT&&hi->k==K_EXTRACT){ Expr*m=lo->a[0]; if(m->k==K_EXTRACT&&m->a[0]==hi->a[0]&&hi->aux==m->aux+m->w) return concat(extract(m->a[0],m->aux,m->w+hi->w),lo->a[1]); }
    return intern(K_CONCAT,w,0,hi,lo,nullptr,0);
  }
  // polynomials ---------------------------------------------------------------
  // Terms that are equal as polynomials modulo 2^w share one representative.
  struct Mono { u32 n; u32 at[4]; bool operator<(const Mono&o) const { if(n!=o.n) return n<o.n; for(u32 i=0;i<n;i++) if(at[i]!=o.at[i]) return at[i]<o.at[i]; return false; } bool operator==(const Mono&o) const { return !(*this<o)&&!(o<*this); } };
  typedef std::vector<std::pair<Mono,W>> Poly; // sorted, coefficients non-zero
  std::unordered_map<Expr*,Poly*> polys; std::unordered_map<u64,std::vector<std::pair<Poly*,Expr*>>> reps; bool ringOn=true;
  static const size_t MAXT=40;
  Poly *atomPoly(Expr*e){ Poly*p=new Poly(); Mono m; m.n=1; m.at[0]=e->id; p->push_back({m,1}); return p; }
  static void norm(Poly&p,unsigned w){ std::sort(p.begin(),p.end(),[](auto&a,auto&b){ return a.first<b.first; }); size_t j=0; for(size_t i=0;i<p.size();){ Mono m=p[i].first; W c=0; while(i<p.size()&&p[i].first==m) c+=p[i++].second; c&=maskw(w); if(c!=0) p[j++]={m,c}; } p.resize(j); }
  Poly *poly(Expr*e,int depth=0){
    auto it=polys.find(e); if(it!=polys.end()) return it->second;
    Poly*r=nullptr; unsigned w=e->w;
    auto lin=[&](Poly*a,Poly*b,W kb){ Poly*q=new Poly(*a); for(auto&t:*b) q->push_back({t.first,t.second*kb}); norm(*q,w); if(q->size()>MAXT){ delete q; return (Poly*)nullptr; } return q; };
    auto mulp=[&](Poly*a,Poly*b)->Poly*{ if(a->size()*b->size()>MAXT*4) return nullptr; Poly*q=new Poly(); for(auto&x:*a) for(auto&y:*b){ if(x.first.n+y.first.n>4){ delete q; return nullptr; } Mono m; m.n=0; u32 i=0,j=0; while(i<x.first.n||j<y.first.n){ if(j>=y.first.n||(i<x.first.n&&x.first.at[i]<=y.first.at[j])) m.at[m.n++]=x.first.at[i++]; else m.at[m.n++]=y.first.at[j++]; } q->push_back({m,x.second*y.second}); } norm(*q,w); if(q->size()>MAXT){ delete q; return nullptr; } return q; };
    if(depth<12) switch(e->k){
    case K_CONST: r=new Poly(); if(e->val!=0){ Mono m; m.n=0; r->push_back({m,e->val}); } break;
    case K_ADD: r=lin(poly(e->a[0],depth+1),poly(e->a[1],depth+1),1); break;
    case K_SUB: r=lin(poly(e->a[0],depth+1),poly(e->a[1],depth+1),W(0)-1); break;
    case K_MUL: r=mulp(poly(e->a[0],depth+1),poly(e->a[1],depth+1)); break;
    case K_SHL: if(isC(e->a[1])&&e->a[1]->val<w){ Poly*a=poly(e->a[0],depth+1); r=new Poly(*a); for(auto&t:*r) t.second<<=(int)e->a[1]->val; norm(*r,w); } break;
    case K_SEXT: { Expr*x=e->a[0]; if(x->nowrap&&(x->k==K_ADD||x->k==K_SUB||x->k==K_MUL)){ Poly*a=poly(sext(x->a[0],w),depth+1),*b=poly(sext(x->a[1],w),depth+1); r=x->k==K_ADD?lin(a,b,1):x->k==K_SUB?lin(a,b,W(0)-1):mulp(a,b); } break; }
    case K_EXTRACT: if(e->aux==0){ Expr*x=e->a[0]; if(x->k==K_ADD||x->k==K_SUB||x->k==K_MUL){ Poly*a=poly(extract(x->a[0],0,w),depth+1),*b=poly(extract(x->a[1],0,w),depth+1); r=x->k==K_ADD?lin(a,b,1):x->k==K_SUB?lin(a,b,W(0)-1):mulp(a,b); } } break;
    default: break; }
    if(!r) r=atomPoly(e);
    polys[e]=r; return r;
  }
  // true if the polynomial of e also holds over the integers (nothing wraps)
  std::unordered_map<Expr*,bool> exactMemo;
  bool exact(Expr*e,int depth=0){
    auto it=exactMemo.find(e); if(it!=exactMemo.end()) return it->second;
    bool r=true;
    if(depth>=12) r=true; else switch(e->k){
    case K_ADD: case K_SUB: case K_MUL: r=e->nowrap&&exact(e->a[0],depth+1)&&exact(e->a[1],depth+1); break;
    case K_SHL: if(isC(e->a[1])&&e->a[1]->val<e->w) r=e->nowrap&&exact(e->a[0],depth+1); break;
    case K_SEXT: { Expr*x=e->a[0]; if(x->nowrap&&(x->k==K_ADD||x->k==K_SUB||x->k==K_MUL)) r=exact(sext(x->a[0],e->w),depth+1)&&exact(sext(x->a[1],e->w),depth+1); break; }
    case K_EXTRACT: if(e->aux==0){ Expr*x=e->a[0]; if(x->k==K_ADD||x->k==K_SUB||x->k==K_MUL){ SW l=smin_w(e->w),h=smax_w(e->w); r=e->nowrap&&x->nowrap; for(int i=0;r&&i<2;i++) r=x->a[i]->lo>=l&&x->a[i]->hi<=h&&exact(extract(x->a[i],0,e->w),depth+1); } } break;
    default: break; }
    if(depth==0||r==false) exactMemo[e]=r;
    return r;
  }
  std::unordered_map<u32,Expr*> byId_; 
  Expr *linear(const std::vector<std::pair<u32,W>>&v,W c,unsigned w,bool&ok){ // sum of terms, checked not to wrap
    Expr*pos=nullptr,*ng=nullptr; ok=true; W g=0; if(c==0) for(auto&t:v){ SW k=sgn(t.second,w); W u=k<0?(W)-k:(W)k; W x=g,y=u; while(y!=0){ W q=x%y; x=y; y=q; } g=x; } if(g==0) g=1;
    for(auto&t:v){ Expr*a=exprOf(t.first); SW k=sgn(t.second,w); bool n=k<0; W u=(n?(W)-k:(W)k)/g; Expr*m=u==1?a:mul(a,mkConst(w,u)); if(u!=1&&!m->nowrap&&m->k!=K_CONST) ok=false; Expr*&z=n?ng:pos; if(z){ z=add(z,m); if(!z->nowrap&&z->k==K_ADD) ok=false; } else z=m; }
    Expr*z=mkConst(w,0); SW sc=sgn(c,w); if(sc>0){ Expr*k=mkConst(w,c); pos=pos?add(pos,k):k; } else if(sc<0){ Expr*k=mkConst(w,W(0)-c); ng=ng?add(ng,k):k; }
    if(pos&&pos->k==K_ADD&&!pos->nowrap) ok=false; if(ng&&ng->k==K_ADD&&!ng->nowrap) ok=false;
    lp=pos?pos:z; ln=ng?ng:z; return lp; }
  Expr *lp=nullptr,*ln=nullptr;
  Expr *exprOf(u32 id){ return blocks[(id-1)/BS]+((id-1)%BS); }
  std::unordered_map<u64,std::vector<std::tuple<Poly*,Expr*,int>>> cmpReps; int cmpBusy=0; u64 zkey=0; Poly*zpoly=nullptr;
  Expr *cmpPoly(bool isEq,Expr*a,Expr*b){
    if(!ringOn||cmpBusy||a->w<8||a->w>200) return nullptr;
    auto nl=[](Expr*e){ for(int i=0;i<3;i++){ if(e->k==K_MUL||e->k==K_ADD||e->k==K_SUB) return true; if(e->k==K_SEXT||e->k==K_EXTRACT){ e=e->a[0]; continue; } break; } return false; };
    if(!nl(a)&&!nl(b)) return nullptr;
    unsigned w=a->w; Poly*pa=poly(a),*pb=poly(b);
    bool hi=false; for(auto*p:{pa,pb}) for(auto&t:*p) if(t.first.n>1) hi=true;
    if(!hi) return nullptr;
    if(!exact(a)||!exact(b)) return nullptr;
    Poly*d=new Poly(*pa); for(auto&t:*pb) d->push_back({t.first,W(0)-t.second}); norm(*d,w);
    // coefficients of the difference as integers: both sides fit, the difference fits one more bit; small coefficients only
    for(auto&t:*d){ SW k=sgn(t.second,w); if(k>((SW)1<<20)||k<-((SW)1<<20)){ delete d; return nullptr; } }
    if(d->empty()){ delete d; return isEq?T:F; }
    // compare over the integers: the width of the atoms does not matter
    { Poly*z=new Poly(); for(auto&t:*d){ Mono m=t.first; for(u32 i=0;i<m.n;i++){ Expr*x=exprOf(m.at[i]); for(;;){ if(x->k==K_SEXT||(x->k==K_ZEXT&&x->a[0]->lo>=0)||(x->k==K_EXTRACT&&x->nowrap&&x->aux==0)) x=x->a[0]; else break; } m.at[i]=x->id; } std::sort(m.at,m.at+m.n); z->push_back({m,(W)sgn(t.second,w)}); }
      norm(*z,256); if(z->empty()){ delete z; delete d; return isEq?T:F; }
      if(isEq&&(SW)(*z)[0].second<0) for(auto&t:*z) t.second=W(0)-t.second;
      u64 h=isEq?77:78; for(auto&t:*z){ h=mix(h,t.first.n); for(u32 i=0;i<t.first.n;i++) h=mix(h,t.first.at[i]); h=mix(h,(u64)t.second); }
      zkey=h; zpoly=z; }
    for(auto&x:cmpReps[zkey]) if(std::get<2>(x)==(int)isEq&&*std::get<0>(x)==*zpoly){ delete d; Expr*r=std::get<1>(x); delete zpoly; return r; }
    Poly*myz=zpoly; u64 myh=zkey;
    struct Busy{ int&r; Busy(int&x):r(x){r++;} ~Busy(){r--;} };
    Expr*res=nullptr;
    unsigned deg=0; for(auto&t:*d) deg=std::max(deg,t.first.n);
    if(deg<=1){ std::vector<std::pair<u32,W>> v; W c=0; for(auto&t:*d) if(t.first.n) v.push_back({t.first.at[0],t.second}); else c=t.second; bool ok; linear(v,c,w,ok); Expr*p=lp,*n=ln; if(ok){ Busy bz(cmpBusy); res=isEq?eq(p,n):slt(p,n); } }
    else {
      bool two=true; for(auto&t:*d) if(t.first.n!=2||t.first.at[0]==t.first.at[1]) two=false;
      if(two){
        std::vector<u32> at; auto ix=[&](u32 x){ for(size_t i=0;i<at.size();i++) if(at[i]==x) return (int)i; at.push_back(x); return (int)at.size()-1; };
        std::vector<std::tuple<int,int,SW>> ed; for(auto&t:*d){ int i=ix(t.first.at[0]),j=ix(t.first.at[1]); ed.push_back({i,j,sgn(t.second,w)}); }
        std::vector<int> col(at.size(),-1); col[std::get<0>(ed[0])]=0; bool ch=true,bad=false; while(ch&&!bad){ ch=false; for(auto&[i,j,k]:ed){ if(col[i]>=0&&col[j]<0){ col[j]=1-col[i]; ch=true; } else if(col[j]>=0&&col[i]<0){ col[i]=1-col[j]; ch=true; } else if(col[i]>=0&&col[i]==col[j]) bad=true; } }
        for(int c:col) if(c<0) bad=true;
        if(!bad){
          size_t n=at.size(); std::vector<std::vector<SW>> M(n,std::vector<SW>(n,(SW)0)); for(auto&[i,j,k]:ed){ int r=col[i]==0?i:j,c=col[i]==0?j:i; M[r][c]+=k; }
          int r0=-1,c0=-1; for(size_t i=0;i<n&&r0<0;i++) for(size_t j=0;j<n;j++) if(M[i][j]!=0){ r0=i; c0=j; break; }
          bool rank1=true; for(size_t i=0;i<n&&rank1;i++) for(size_t j=0;j<n;j++) if(M[i][j]*M[r0][c0]!=M[i][c0]*M[r0][j]){ rank1=false; break; }
          if(rank1){
            // F = sum M[i][c0] x_i, G = sum M[r0][j] y_j, d = F*G/M[r0][c0]
            std::vector<std::pair<u32,W>> f,g; for(size_t i=0;i<n;i++){ if(M[i][c0]!=0) f.push_back({at[i],(W)M[i][c0]}); if(M[r0][i]!=0) g.push_back({at[i],(W)M[r0][i]}); }
            bool ok1,ok2; linear(f,0,w,ok1); Expr*fp=lp,*fn=ln; linear(g,0,w,ok2); Expr*gp=lp,*gn=ln;
            if(ok1&&ok2){ Busy bz(cmpBusy);
              if(isEq) res=bin(K_OR,eq(fp,fn),eq(gp,gn));
              else { Expr*fpos=slt(fn,fp),*fneg=slt(fp,fn),*gpos=slt(gn,gp),*gneg=slt(gp,gn); if(M[r0][c0]<0) std::swap(fpos,fneg); res=bin(K_OR,bin(K_AND,fpos,gneg),bin(K_AND,fneg,gpos)); } }
          } } } }
    if(!res){ Busy bz(cmpBusy); res=intern(isEq?K_EQ:K_SLT,1,0,a,b,nullptr,0); if(isEq&&a->id>b->id) res=intern(K_EQ,1,0,b,a,nullptr,0); }
    cmpReps[myh].push_back({myz,res,(int)isEq}); delete d;
    return res;
  }
  Expr *ring(Expr*e){
    if(!ringOn||e->w<8||(e->k!=K_ADD&&e->k!=K_SUB&&e->k!=K_MUL&&!(e->k==K_EXTRACT&&e->aux==0&&(e->a[0]->k==K_ADD||e->a[0]->k==K_SUB||e->a[0]->k==K_MUL)))) return e;
    if(polys.count(e)&&!isC(e)){ } 
    Poly*p=poly(e);
    if(p->empty()) return mkConst(e->w,0);
    if(p->size()==1){ if((*p)[0].first.n==0) return mkConst(e->w,(*p)[0].second); }
    if(p->size()==1&&(*p)[0].first.n==1&&(*p)[0].first.at[0]==e->id) return e;
    if(p->size()==1&&(*p)[0].first.n==1&&(*p)[0].second==1){ Expr*x=exprOf((*p)[0].first.at[0]); if(x->w==e->w) return x; }
    u64 h=e->w; for(auto&t:*p){ h=mix(h,t.first.n); for(u32 i=0;i<t.first.n;i++) h=mix(h,t.first.at[i]); h=mix(h,(u64)t.second); }
    auto&v=reps[h]; for(auto&x:v) if(x.second->w==e->w&&*x.first==*p){ if(x.second==e) return e; if(e->nowrap&&!x.second->nowrap){ x.second=e; return e; } return x.second; }
    v.push_back({p,e}); return e;
  }
  // products ---------------------------------------------------------------
  // e = (-1)^neg * c * prod(fs) as mathematical integers
  struct Prod { bool neg=false; W c=1; std::vector<Expr*> fs; };
  static bool isNeg(Expr*e){ return e->k==K_SUB&&isC(e->a[0],0)&&e->nowrap; }
  void prod(Expr*e,Prod&p,int depth=0){
    for(;;){
      if(e->k==K_SEXT) { e=e->a[0]; continue; }
      if(e->k==K_ZEXT&&e->a[0]->lo>=0) { e=e->a[0]; continue; }
      if(e->k==K_EXTRACT&&e->nowrap&&e->aux==0) { e=e->a[0]; continue; }
      if(isNeg(e)) { p.neg=!p.neg; e=e->a[1]; continue; }
      if(e->k==K_SHL&&e->nowrap&&isC(e->a[1])&&e->a[1]->val<100){ p.c<<=(int)e->a[1]->val; e=e->a[0]; continue; }
      break; }
    if(e->k==K_MUL&&e->nowrap&&depth<8){ prod(e->a[0],p,depth+1); prod(e->a[1],p,depth+1); return; }
    if(e->k==K_CONST){ SW v=sgn(e->val,e->w); if(v<0){ p.neg=!p.neg; v=-v; } p.c*=(W)v; return; }
    if(e->k==K_SUB&&e->nowrap){
      if(e->a[0]->k==K_CONST){ Expr*m=sub(e->a[1],e->a[0]); if(m->k==K_ADD&&m->nowrap){ p.neg=!p.neg; e=m; } }
      else if(e->a[1]->k!=K_CONST&&e->a[0]->id>e->a[1]->id){ Expr*m=sub(e->a[1],e->a[0]); if(m->k==K_SUB&&m->nowrap){ p.neg=!p.neg; e=m; } } }
    p.fs.push_back(e);
  }
  // remove the common factors of two products; false if there are none
  static bool cancel(Prod&a,Prod&b,std::vector<Expr*>*common=nullptr){
    bool any=false;
    for(size_t i=0;i<a.fs.size();) { auto it=std::find(b.fs.begin(),b.fs.end(),a.fs[i]); if(it!=b.fs.end()){ if(common) common->push_back(a.fs[i]); b.fs.erase(it); a.fs.erase(a.fs.begin()+i); any=true; } else i++; }
    W x=a.c,y=b.c; while(y!=0){ W t=x%y; x=y; y=t; } if(x>1){ a.c/=x; b.c/=x; any=true; }
    return any;
  }
  Expr *rebuild(const Prod&p,unsigned w){
    Expr*e=nullptr; for(Expr*f:p.fs){ Expr*g=f->w<w?sext(f,w):f->w>w?extract(f,0,w):f; e=e?mul(e,g):g; }
    if(!e) e=mkConst(w,p.c); else if(p.c!=1) e=mul(e,mkConst(w,p.c));
    return p.neg?neg(e):e;
  }
  static bool prodLike(Expr*e){ for(;;){ if(e->k==K_SEXT||(e->k==K_EXTRACT&&e->nowrap&&e->aux==0)||(e->k==K_ZEXT&&e->a[0]->lo>=0)){ e=e->a[0]; continue; } if(isNeg(e)){ e=e->a[1]; continue; } break; } return e->k==K_MUL&&e->nowrap; }
  bool rangeOk(const Prod&p,unsigned w){ // the product and its partial products fit into w bits
    SW lo=1,hi=1; if(p.c>(W(1)<<100)) return false; lo=hi=(SW)p.c; SW lim=smax_w(w);
    for(Expr*f:p.fs){ SW m=std::max(f->lo<0?-f->lo:f->lo,f->hi<0?-f->hi:f->hi); if(m>((SW)1<<120)||hi>((SW)1<<120)) return false; hi*=m?m:1; if(hi>lim) return false; }
    return hi<=lim; }
  Expr *sgnPos(Expr*e){ return slt(mkConst(e->w,0),e); }
  Expr *sgnNeg(Expr*e){ return slt(e,mkConst(e->w,0)); }
  // sign of a product: pos/neg conditions
  void prodSign(const Prod&p,Expr*&pos,Expr*&ng){
    pos=p.c!=0?T:F; ng=F;
    for(Expr*f:p.fs){ Expr*fp=sgnPos(f),*fn=sgnNeg(f); Expr*np=bin(K_OR,bin(K_AND,pos,fp),bin(K_AND,ng,fn)),*nn=bin(K_OR,bin(K_AND,pos,fn),bin(K_AND,ng,fp)); pos=np; ng=nn; }
    if(p.neg) std::swap(pos,ng);
  }
  // x < y where both are products (or 0); nullptr if nothing can be gained
  Expr *sltProd(Expr*x,Expr*y){
    bool zx=isC(x,0),zy=isC(y,0);
    if(!(prodLike(x)||zx)||!(prodLike(y)||zy)) { if(!(prodLike(x)||prodLike(y))) return nullptr; }
    if(zx||zy){
      Prod p; prod(zx?y:x,p); if(p.fs.size()<2) return nullptr; Expr*pos,*ng; prodSign(p,pos,ng); return zx?pos:ng; }
    Prod a,b; prod(x,a); prod(y,b); std::vector<Expr*> com;
    if(!cancel(a,b,&com)||com.empty()) return nullptr;
    Prod c; c.fs=com; Expr*pos,*ng; prodSign(c,pos,ng);
    unsigned w=std::max(x->w,y->w); if(!rangeOk(a,w)||!rangeOk(b,w)) return nullptr;
    Expr*l=rebuild(a,w),*r=rebuild(b,w);
    return bin(K_OR,bin(K_AND,pos,slt(l,r)),bin(K_AND,ng,slt(r,l)));
  }
  Expr *eqProd(Expr*x,Expr*y){
    if(!prodLike(x)&&!prodLike(y)) return nullptr;
    Prod a,b; prod(x,a); prod(y,b); std::vector<Expr*> com;
    if(!cancel(a,b,&com)||com.empty()) return nullptr;
    unsigned w=std::max(x->w,y->w); if(!rangeOk(a,w)||!rangeOk(b,w)) return nullptr;
    Expr*r=eq(rebuild(a,w),rebuild(b,w)); for(Expr*f:com) r=bin(K_OR,r,eq(f,mkConst(f->w,0)));
    return r;
  }
  // x-y with a common factor
  Expr *subProd(Expr*x,Expr*y,bool plus){
    if(!prodLike(x)||!prodLike(y)) return nullptr;
    Prod a,b; prod(x,a); prod(y,b); if(plus) b.neg=!b.neg; std::vector<Expr*> com;
    Prod a1=a,b1=b; if(!cancel(a1,b1,&com)||com.empty()) return nullptr;
    // constants stay inside
    Prod ra=a1,rb=b1; W g=0; { W u=a.c,v=b.c; while(v!=0){ W t=u%v; u=v; v=t; } g=u; }
    unsigned w=x->w; if(!rangeOk(ra,w)||!rangeOk(rb,w)) return nullptr;
    Expr*l=rebuild(ra,w),*r=rebuild(rb,w); Expr*d=sub(l,r); if(!(d->nowrap||d->k==K_CONST||d->k==K_VAR||d->k==K_SEXT)) return nullptr;
    Expr*res=d; for(Expr*f:com){ Expr*gx=f->w<w?sext(f,w):f->w>w?extract(f,0,w):f; res=mul(res,gx); if(!(res->nowrap||res->k==K_CONST||res->k==K_SEXT||res->k==K_VAR)) return nullptr; }
    if(g>1){ res=mul(res,mkConst(w,g)); }
    return res;
  }
  // rationals -------------------------------------------------------------
  static const unsigned RW=192; // width of numerators/denominators
  Expr *frat(Expr*n,Expr*d){ Expr*e=intern(K_FRAT,64,0,n,d,nullptr,0); return e; }
};
