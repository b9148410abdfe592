// detail::intersects on two arbitrary segments, against the definition.
//   WIDE: the decision and reported end points over the whole coordinate range
//         (the rounding of interior crossings is replaced by a constant)
//   else: everything including rounding, in the range [-R,R]

#include "../rt/sym.h"
#include "poly_ops/base.hpp"
#ifdef WIDE
// a user specialisation of the documented customisation point; only the
// rounding functions differ from the default
namespace poly_ops {
template<> struct coord_ops<COORD> {
    using long_t = large_ints::sized_int<sizeof(COORD)*2>;
    using real_t = double;
    static long_t mul(COORD a,COORD b) { return large_ints::mul(a,b); }
    static COORD floor(real_t) { return 0; }
    static COORD ceil(real_t) { return 0; }
    static COORD round(real_t) { return 0; }
};
}
#endif
#include "clipsym.hpp"
#ifndef RANGE
#define RANGE 7
#endif
using namespace poly_ops; using namespace poly_ops::detail;
typedef __int128 W;
static Coord anyc(const char *n) {
#ifdef WIDE
    return (Coord)sym_int(n,-((int64_t)1<<(sizeof(Coord)*8-2)),((int64_t)1<<(sizeof(Coord)*8-2))-1);
#else
    return (Coord)sym_int(n,-RANGE,RANGE);
#endif
}
static W cross(const P &a,const P &b,const P &c) { return ((W)b[0]-a[0])*((W)c[1]-a[1])-((W)c[0]-a[0])*((W)b[1]-a[1]); }
static bool same(const P &a,const P &b) { return (a[0]==b[0])&(a[1]==b[1]); }
extern "C" void harness() {
#ifdef COLLINEAR
    // four points base + t*dir: every order of four points on a line
#ifdef WIDE
    const int64_t L=(int64_t)1<<(sizeof(Coord)*8-5);
#else
    const int64_t L=RANGE+1;
#endif
#ifdef NOBASE // the lines lie on a line through the origin
    Coord bx=0,by=0;
#else
    Coord bx=(Coord)sym_int("bx",-L,L-1),by=(Coord)sym_int("by",-L,L-1);
#endif
    Coord dx=(Coord)sym_int("dx",-L,L-1),dy=(Coord)sym_int("dy",-L,L-1);
    sym_assume((dx!=0)|(dy!=0));
    P v[4]; for(auto &p : v) { Coord t=(Coord)sym_concretize((uint64_t)sym_int("t",0,3)); p=P(bx+t*dx,by+t*dy); }
#ifdef OFFSET // the second segment on a parallel line
    Coord ex=(Coord)sym_int("ex",-L,L-1),ey=(Coord)sym_int("ey",-L,L-1);
    sym_assume((W)dx*ey!=(W)dy*ex);
    for(int i=2;i<4;++i) v[i]=P(v[i][0]+ex,v[i][1]+ey);
#endif
#else
    P v[4]; for(auto &p : v) p=P(anyc("x"),anyc("y"));
#endif
#ifdef ORIGIN
    v[0]=P(ORIGIN,-ORIGIN); // 6 variables instead of 8
#endif
    sym_assume(!same(v[0],v[1])); sym_assume(!same(v[2],v[3]));
    Index ix[4];
    for(int i=0;i<4;++i) ix[i]=i;
#ifdef SHARED
    // the segments share vertices: SHARED is a bit set of a-a, a-b, b-a, b-b
    for(int i=0;i<2;++i) for(int j=0;j<2;++j) if(SHARED>>(i*2+j)&1) { v[2+j]=v[i]; ix[2+j]=ix[i]; }
    sym_assume(!same(v[2],v[3]));
#endif
    cached_segment<Index,Coord> s1(ix[0],ix[1],v[0],v[1]),s2(ix[2],ix[3],v[2],v[3]);
    W d=((W)v[1][0]-v[0][0])*((W)v[3][1]-v[2][1])-((W)v[1][1]-v[0][1])*((W)v[3][0]-v[2][0]);
    W o1=cross(v[0],v[1],v[2]),o2=cross(v[0],v[1],v[3]),o3=cross(v[2],v[3],v[0]),o4=cross(v[2],v[3],v[1]);
#ifdef CROSSING
    sym_assume(d!=0);
#endif
    P p(0,0); at_edge_t e[2]={at_edge_t::no,at_edge_t::no};
    rand_generator rg;
    bool r=intersects(s1,s2,p,e,rg);
    if(d!=0) {
#ifdef SHARED
        sym_check(!r,"adjacent-lines-do-not-intersect");
        sym_reach("adjacent");
#else
        bool meet=(((o1>=0)&(o2<=0))|((o1<=0)&(o2>=0)))&(((o3>=0)&(o4<=0))|((o3<=0)&(o4>=0)));
        sym_check(r==meet,"crossing-decision");
        if(!r) { sym_reach("apart"); return; }
        sym_reach("meet");
        sym_check(e[0]!=at_edge_t::both && e[1]!=at_edge_t::both,"crossing-edges");
        bool a0=o3==0,b0=o4==0,a1=o1==0,b1=o2==0; // which end points lie on the other line
        if(a0|b0|a1|b1) {
            // the exact end point
            P q=a0?v[0]:b0?v[1]:a1?v[2]:v[3];
            sym_check(same(p,q),"touch-location");
            sym_check((e[0]==at_edge_t::start)==a0 && (e[0]==at_edge_t::end)==b0,"touch-flag-1");
            sym_check((e[1]==at_edge_t::start)==a1 && (e[1]==at_edge_t::end)==b1,"touch-flag-2");
        } else {
#ifndef WIDE
            for(int k=0;k<2;++k) {
                // |p-c| < 1 for the exact crossing c = v0 + o3/(o3-o4) (v1-v0)
                W den=o3-o4,num=o3*((W)v[1][k]-v[0][k]);
                W diff=((W)p[k]-v[0][k])*den-num;
                sym_check(((diff<den)&(-diff<den))|((diff>den)&(-diff>den)),k?"rounding-y":"rounding-x");
            }
#endif
            sym_check((e[0]==at_edge_t::start)==same(p,v[0]) && (e[0]==at_edge_t::end)==(same(p,v[1])&&!same(p,v[0])),"rounded-flag-1");
            sym_check((e[1]==at_edge_t::start)==same(p,v[2]) && (e[1]==at_edge_t::end)==(same(p,v[3])&&!same(p,v[2])),"rounded-flag-2");
        }
#endif
        return;
    }
    if(o1!=0) { sym_check(!r,"parallel-lines-do-not-intersect"); sym_reach("parallel"); return; }
    // collinear: compare along the axis in which they extend
    int k=sym_branch(v[0][0]!=v[1][0])?0:1;
    Coord t[4]={v[0][k],v[1][k],v[2][k],v[3][k]};
    auto in=[&](int i,int s){ Coord lo=std::min(t[s],t[s+1]),hi=std::max(t[s],t[s+1]); return (t[i]>lo)&(t[i]<hi); };
    bool inside=in(0,2)|in(1,2)|in(2,0)|in(3,0);
    bool equal=(std::min(t[0],t[1])==std::min(t[2],t[3]))&(std::max(t[0],t[1])==std::max(t[2],t[3]));
    bool sameids=(ix[0]==ix[2]&&ix[1]==ix[3])||(ix[0]==ix[3]&&ix[1]==ix[2]);
    sym_check(r==(inside|(equal&!sameids)),"collinear-decision");
    if(!r) { sym_reach("collinear-apart"); return; }
    sym_reach("overlap");
    if(e[0]==at_edge_t::both||e[1]==at_edge_t::both) {
        sym_check(e[0]==e[1]&&equal&&!inside,"both-only-when-equal");
        return;
    }
    sym_check(e[0]!=at_edge_t::no||e[1]!=at_edge_t::no,"overlap-has-an-end");
    for(int s=0;s<2;++s) if(e[s]!=at_edge_t::no) sym_check(same(p,v[2*s+(e[s]==at_edge_t::end)]),"overlap-location");
    if(e[0]==at_edge_t::no) sym_check(in(2+(e[1]==at_edge_t::end),0),"overlap-inside-1");
    else if(e[1]==at_edge_t::no) sym_check(in(e[0]==at_edge_t::end,2),"overlap-inside-2");
    else { int i=e[0]==at_edge_t::end,j=2+(e[1]==at_edge_t::end); sym_check(same(v[i],v[j])&&ix[i]!=ix[j],"overlap-distinct-points"); }
}
