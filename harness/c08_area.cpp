// Triangle orientation and polygon winding direction against exact wide
// arithmetic over (almost) the whole range of the coordinate type.
#include "sym.h"
#include "poly_ops/base.hpp"
#include <vector>
#ifndef COORD
#define COORD int32_t
#endif
#ifndef BITS
#define BITS 32
#endif
#ifndef NPTS
#define NPTS 4
#endif
using namespace poly_ops;
typedef COORD Coord; typedef point_t<Coord> P; typedef __int128 W;
template<typename T> static W wide(const T &v) {
    if constexpr(std::is_integral_v<T>) return v;
    else { static_assert(sizeof(T)==16); return (W)(((unsigned __int128)v[1]<<64)|v[0]); }
}
static Coord any(const char *n,int bits) {
    return (Coord)sym_int(n,-((int64_t)1<<(bits-1)),(int64_t)(((uint64_t)1<<(bits-1))-1));
}
extern "C" void harness() {
#ifdef TRIANGLE
    // a point and two difference vectors, all of them arbitrary as long as the
    // resulting points are representable
    P p0(any("x",BITS),any("y",BITS)),d1(any("dx",BITS),any("dy",BITS)),d2(any("dx",BITS),any("dy",BITS));
    W lim=(W)1<<(BITS-1);
    for(int k=0;k<2;++k) {
        W a=(W)p0[k]+d1[k],b=(W)p0[k]+d2[k];
        sym_assume((a>=-lim)&(a<lim)); sym_assume((b>=-lim)&(b<lim));
    }
    typedef std::make_unsigned_t<Coord> U;
    P p[3]={p0,P((Coord)((U)p0[0]+(U)d1[0]),(Coord)((U)p0[1]+(U)d1[1])),P((Coord)((U)p0[0]+(U)d2[0]),(Coord)((U)p0[1]+(U)d2[1]))};
    W exact=(W)d1[0]*d2[1]-(W)d2[0]*d1[1];
    sym_check(wide(triangle_winding(p[0],p[1],p[2]))==exact,"triangle");
    if(sym_branch(exact>0)) sym_reach("clockwise"); else sym_reach("other");
#else
    std::vector<P> p;
    for(int i=0;i<NPTS;++i) p.push_back(P(any("x",BITS-2),any("y",BITS-2)));
    W exact=0;
    for(int i=0;i<NPTS;++i) { const P &a=p[i],&b=p[(i+1)%NPTS]; exact+=(W)a[0]*b[1]-(W)b[0]*a[1]; }
    W got=wide(winding_dir<Coord>(p));
    sym_check((got>0)==(exact>0),"sign-positive");
    sym_check((got<0)==(exact<0),"sign-negative");
    // another starting point, and as a stream
    for(int k=1;k<NPTS;++k) {
        winding_dir_sink<Coord> s(p[k]);
        for(int i=1;i<NPTS;++i) s(p[(k+i)%NPTS]);
        W g=wide(s.close());
        sym_check(((g>0)==(got>0))&((g<0)==(got<0)),"start-independent");
    }
#if NPTS>=1
    // the reversed polygon has the opposite direction
    std::vector<P> r(p.rbegin(),p.rend());
    W g=wide(winding_dir<Coord>(r));
    sym_check(((g>0)==(got<0))&((g<0)==(got>0)),"reversed");
#endif
    if(NPTS>=3) { if(sym_branch(exact!=0)) sym_reach("area"); }
    std::vector<P> e;
    sym_check(wide(winding_dir<Coord>(e))==0,"empty");
#endif
}
