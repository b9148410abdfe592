// A library of input shapes, and input made of them with symbolic positions.
#pragma once
#include "clipsym.hpp"
struct shape { int n; signed char p[40][2]; };
// loops of one polygon follow each other; n gives the loop's size
static const shape sh_square[]={{4,{{0,0},{8,0},{8,8},{0,8}}}};
static const shape sh_diamond[]={{4,{{4,0},{8,4},{4,8},{0,4}}}};
static const shape sh_octagon[]={{8,{{4,0},{8,0},{12,4},{12,8},{8,12},{4,12},{0,8},{0,4}}}};
static const shape sh_rtri[]={{3,{{0,0},{8,0},{0,8}}}};
static const shape sh_L[]={{6,{{0,0},{12,0},{12,4},{4,4},{4,12},{0,12}}}};
static const shape sh_U[]={{8,{{0,0},{12,0},{12,12},{8,12},{8,4},{4,4},{4,12},{0,12}}}};
static const shape sh_bow[]={{4,{{0,0},{8,8},{8,0},{0,8}}}};
static const shape sh_ring[]={{4,{{0,0},{12,0},{12,12},{0,12}}},{4,{{4,4},{4,8},{8,8},{8,4}}}};
static const shape sh_twice[]={{8,{{0,0},{8,0},{8,8},{0,8},{0,0},{8,0},{8,8},{0,8}}}};
static const shape sh_zig[]={{7,{{0,0},{4,8},{8,0},{12,8},{16,0},{16,12},{0,12}}}};
static const shape sh_tri[]={{3,{{0,0},{7,3},{2,6}}}};
static const shape sh_star[]={{5,{{5,0},{8,9},{0,3},{10,3},{2,9}}}};
static const shape sh_needle[]={{3,{{0,0},{15,1},{15,3}}}};
static const shape sh_corner[]={{4,{{0,0},{4,0},{4,4},{0,4}}},{4,{{4,4},{8,4},{8,8},{4,8}}}};
static const shape sh_nest[]={{4,{{0,0},{20,0},{20,20},{0,20}}},{4,{{2,2},{2,18},{18,18},{18,2}}},{4,{{4,4},{16,4},{16,16},{4,16}}},{4,{{6,6},{6,14},{14,14},{14,6}}}};
static const shape sh_spiral[]={{12,{{0,0},{16,0},{16,16},{4,16},{4,8},{8,8},{8,12},{12,12},{12,4},{2,4},{2,18},{0,18}}}};
static const shape sh_side[]={{4,{{0,0},{4,0},{4,8},{0,8}}},{4,{{4,0},{8,0},{8,8},{4,8}}}};
static const shape sh_small[]={{4,{{0,0},{2,0},{2,2},{0,2}}}};
static const shape sh_ccw[]={{4,{{0,0},{0,8},{8,8},{8,0}}}};
static const shape sh_bar[]={{4,{{0,0},{14,0},{14,2},{0,2}}}};
static const shape sh_wall[]={{4,{{0,0},{2,0},{2,14},{0,14}}}};
static const shape sh_X[]={{4,{{0,0},{10,10},{0,10},{10,0}}}};
static const shape sh_hourglass[]={{6,{{0,0},{8,0},{4,4},{8,8},{0,8},{4,4}}}};
static const shape sh_spike[]={{7,{{0,0},{8,0},{8,8},{4,8},{4,14},{4,8},{0,8}}}}; // a line that goes out and back
static const shape sh_plus[]={{4,{{4,0},{8,0},{8,12},{4,12}}},{4,{{0,4},{12,4},{12,8},{0,8}}}};
static const shape sh_two[]={{4,{{0,0},{4,0},{4,4},{0,4}}},{4,{{8,2},{12,2},{12,6},{8,6}}}};
static const shape sh_kite[]={{4,{{0,5},{3,0},{11,4},{4,9}}}};
static const shape sh_islands[]={{4,{{0,0},{6,0},{6,6},{0,6}}},{4,{{10,0},{16,0},{16,6},{10,6}}},{4,{{2,2},{2,4},{4,4},{4,2}}},{4,{{12,2},{12,4},{14,4},{14,2}}}};
#define SH_(n) sh_##n
#define SH(n) SH_(n)
#ifndef SCALE
#define SCALE 1
#endif
#ifndef STEP
#define STEP 2
#endif
// the clip shape B at any position around the subject A, in steps of STEP
#ifndef TX0
#define TX0 -16
#endif
#ifndef TX1
#define TX1 24
#endif
#ifndef TY0
#define TY0 TX0
#endif
#ifndef TY1
#define TY1 TX1
#endif
// CONC: every position on a path of its own
#ifdef CONC
#define PLACE_(x) sym_concretize(x)
#else
#define PLACE_(x) (x)
#endif
static int64_t shift_x() { return PLACE_((int64_t)sym_int("dx",(int64_t)TX0*SCALE/STEP,(int64_t)TX1*SCALE/STEP))*STEP; }
static int64_t shift_y() { return PLACE_((int64_t)sym_int("dy",(int64_t)TY0*SCALE/STEP,(int64_t)TY1*SCALE/STEP))*STEP; }
// The two operands and the operation of a run: -DA=shape or -DAS=E(shape),E(shape)...
struct shref { const shape *s; int n; };
#define E(x) shref{sh_##x,(int)(sizeof(sh_##x)/sizeof(shape))}
#define EA_(x) E(x)
#ifndef AS
#define AS EA_(A)
#endif
#ifndef BS
#define BS EA_(B)
#endif
static const shref list_a[]={AS},list_b[]={BS};
static int pick(const char *n,int count) { return count>1?(int)sym_concretize(sym_int(n,0,count-1)):0; }
static Loops place(const shref &s,int64_t dx,int64_t dy,int64_t scale=SCALE) {
    Loops r;
    for(int k=0;k<s.n;++k) { auto &l=s.s[k]; Loop o; for(int i=0;i<l.n;++i) o.push_back(P((Coord)(l.p[i][0]*scale+dx),(Coord)(l.p[i][1]*scale+dy))); r.push_back(std::move(o)); }
    return r;
}
static const shref &pick_a() { return list_a[pick("a",sizeof(list_a)/sizeof(shref))]; }
static const shref &pick_b() { return list_b[pick("b",sizeof(list_b)/sizeof(shref))]; }
#ifdef OP
static int pick_op() { return OP; }
#else
static int pick_op() { return pick("op",5); }
#endif
// winding number around (qx,qy)/S
static inline int wind_edge_s(int64_t S,int64_t ax,int64_t ay,int64_t bx,int64_t by,int64_t qx,int64_t qy) {
    int up=(int)((S*ay<qy)&(S*by>qy)), dn=(int)((S*by<qy)&(S*ay>qy));
    int64_t c=(bx-ax)*(qy-S*ay)-(by-ay)*(qx-S*ax);
    return (up & (int)(c>0)) - (dn & (int)(c<0));
}
static int wind_s(int64_t S,const Loops &ls,int64_t qx,int64_t qy) {
    int w=0;
    for(auto &l : ls) for(size_t i=0;i<l.size();++i) { const P &a=l[i],&b=l[i+1==l.size()?0:i+1]; w+=wind_edge_s(S,a[0],a[1],b[0],b[1],qx,qy); }
    return w;
}
