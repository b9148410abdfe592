// Shared by the clipping harnesses: a random source whose every outcome is a
// symbolic choice, and exact region oracles that are independent of the code
// under test.
#pragma once
#include "../rt/sym.h"
#include <random>
#include <vector>
namespace std {
// takes the place of std::minstd_rand: each draw may come out either way
struct verif_rand {
    using result_type=uint_fast32_t;
    static constexpr result_type min() { return 1; }
    static constexpr result_type max() { return 2147483646u; }
    verif_rand() = default;
    explicit verif_rand(result_type) {}
    void seed(result_type=1) {}
    void discard(unsigned long long) {}
    result_type operator()() {
#ifdef VERIF_RAND_FIXED
        return VERIF_RAND_FIXED ? max() : min();
#else
        return 1 + (result_type)sym_int("rnd",0,1)*(2147483646u-1u);
#endif
    }
};
}
#define minstd_rand verif_rand
#include "poly_ops/clip.hpp"

#ifndef COORD
#define COORD int32_t
#endif
typedef COORD Coord;
#ifndef INDEX
#define INDEX uint32_t
#endif
typedef INDEX Index;
typedef poly_ops::point_t<Coord> P;
typedef std::vector<P> Loop;
typedef std::vector<Loop> Loops;

static inline Coord sym_coord(const char *n,int64_t lo,int64_t hi) { return (Coord)sym_int(n,lo,hi); }

// Winding number of loop around (qx,qy)/2 (doubled coordinates). Positive for
// the direction the library calls clockwise (+1 where a polygon with positive
// winding_dir surrounds the point). Written without branches.
static inline int wind_edge(int64_t ax,int64_t ay,int64_t bx,int64_t by,int64_t qx,int64_t qy) {
    int up=(int)((2*ay<qy)&(2*by>qy)), dn=(int)((2*by<qy)&(2*ay>qy));
    // sign of cross(b-a,q-a)
    int64_t c=(bx-ax)*(qy-2*ay)-(by-ay)*(qx-2*ax);
    return (up & (int)(c>0)) - (dn & (int)(c<0));
}
// as above for edges that are horizontal or vertical
static inline int wind_edge_rect(int64_t ax,int64_t ay,int64_t bx,int64_t by,int64_t qx,int64_t qy) {
    int up=(int)((2*ay<qy)&(2*by>qy)), dn=(int)((2*by<qy)&(2*ay>qy));
    int left=(int)(qx<2*ax);
    (void)bx;
    return (up & left) - (dn & left);
}
template<bool Rect,typename L> static int wind(const L &l,int64_t qx,int64_t qy) {
    int w=0; size_t n=l.size();
    for(size_t i=0;i<n;++i) {
        const P &a=l[i],&b=l[i+1==n?0:i+1];
        w+=Rect?wind_edge_rect(a[0],a[1],b[0],b[1],qx,qy):wind_edge(a[0],a[1],b[0],b[1],qx,qy);
    }
    return w;
}
// Filled area as documented: clockwise parts are solid, counter-clockwise parts
// are holes; normalize fills every odd nesting level.
static inline int op_fill(int op,int ws,int wc) {
    int s=ws>0,c=wc>0;
    switch(op) {
    case 0: return (ws+wc)>0;  // union
    case 1: return s&c;        // intersection
    case 2: return s^c;        // xor
    case 3: return s&(c^1);    // difference
    default: return (ws+wc)&1; // normalize
    }
}
template<typename R> static Loops collect(R &&r) {
    Loops out;
    for(auto &&l : r) { Loop o; for(auto &&p : l) o.push_back(P(p[0],p[1])); out.push_back(std::move(o)); }
    return out;
}
static const poly_ops::bool_op all_ops[]={poly_ops::bool_op::union_,poly_ops::bool_op::intersection,poly_ops::bool_op::xor_,poly_ops::bool_op::difference,poly_ops::bool_op::normalize};
