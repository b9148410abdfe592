// Oracles over a concrete number of output points with symbolic coordinates.
#pragma once
#include "shapes.hpp"
struct Seg { int64_t ax,ay,bx,by; };
template<typename Lp> static void add_segs(std::vector<Seg> &v,const Lp &l) { for(size_t i=0;i<l.size();++i) { const P &a=l[i],&b=l[i+1==l.size()?0:i+1]; v.push_back({a[0],a[1],b[0],b[1]}); } }
static inline int64_t mn(int64_t a,int64_t b) { return a<b?a:b; }
static inline int64_t mx(int64_t a,int64_t b) { return a<b?b:a; }
static inline int64_t crs(const Seg &s,int64_t x,int64_t y) { return (s.bx-s.ax)*(y-s.ay)-(s.by-s.ay)*(x-s.ax); }
// (x,y) lies on s but is not one of its ends
static inline int inside(const Seg &s,int64_t x,int64_t y) {
    int box=(int)(x>=mn(s.ax,s.bx))&(int)(x<=mx(s.ax,s.bx))&(int)(y>=mn(s.ay,s.by))&(int)(y<=mx(s.ay,s.by));
    int end=((int)(x==s.ax)&(int)(y==s.ay))|((int)(x==s.bx)&(int)(y==s.by));
    return box&(end^1)&(int)(crs(s,x,y)==0);
}
static inline int same_seg(const Seg &s,const Seg &t) {
    return ((int)(s.ax==t.ax)&(int)(s.ay==t.ay)&(int)(s.bx==t.bx)&(int)(s.by==t.by))|((int)(s.ax==t.bx)&(int)(s.ay==t.by)&(int)(s.bx==t.ax)&(int)(s.by==t.ay));
}
static inline int crosses(const Seg &s,const Seg &t) {
    int64_t a=crs(s,t.ax,t.ay),b=crs(s,t.bx,t.by),c=crs(t,s.ax,s.ay),d=crs(t,s.bx,s.by);
    int ab=((int)(a<0)&(int)(b>0))|((int)(a>0)&(int)(b<0)),cd=((int)(c<0)&(int)(d>0))|((int)(c>0)&(int)(d<0));
    return ab&cd;
}
static int any_crossing(const Loops &ls) {
    std::vector<Seg> v; for(auto &l:ls) add_segs(v,l);
    int bad=0;
    for(size_t i=0;i<v.size();++i) for(size_t j=0;j<i;++j) {
        const Seg &s=v[i],&t=v[j];
        bad|=crosses(s,t)|inside(s,t.ax,t.ay)|inside(s,t.bx,t.by)|inside(t,s.ax,s.ay)|inside(t,s.bx,s.by);
    }
    return bad;
}
static int same_loops(const Loops &a,const Loops &b) {
    if(a.size()!=b.size()) return 0;
    int ok=1;
    for(size_t i=0;i<a.size();++i) { if(a[i].size()!=b[i].size()) return 0; for(size_t j=0;j<a[i].size();++j) ok&=(int)(a[i][j][0]==b[i][j][0])&(int)(a[i][j][1]==b[i][j][1]); }
    return ok;
}
static int64_t area2(const Loop &l) { int64_t r=0; for(size_t i=0;i<l.size();++i) { const P &a=l[i],&b=l[i+1==l.size()?0:i+1]; r+=(int64_t)a[0]*b[1]-(int64_t)b[0]*a[1]; } return r; }
