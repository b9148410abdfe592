// Two axis-aligned rectangles with arbitrary corners (either winding
// direction, degenerate ones included): exact region for every query point.
#include "clipsym.hpp"
#ifndef RANGE
#define RANGE 40
#endif
#ifndef OP
#define OP 0
#endif
static Loop rect(const char *nx,const char *ny) {
    Coord x0=sym_coord(nx,0,RANGE),x1=sym_coord(nx,0,RANGE),y0=sym_coord(ny,0,RANGE),y1=sym_coord(ny,0,RANGE);
    return Loop{P(x0,y0),P(x1,y0),P(x1,y1),P(x0,y1)};
}
extern "C" void harness() {
    Loop a=rect("ax","ay"),b=rect("bx","by");
    auto r=poly_ops::boolean_op<false,Coord,Index>(a,b,all_ops[OP]);
    Loops out=collect(r);
    int64_t qx=2*sym_int("qx",0,RANGE-1)+1,qy=2*sym_int("qy",0,RANGE-1)+1;
    int w=0; for(auto &l:out) w+=wind<true>(l,qx,qy);
    int expect=op_fill(OP,wind<true>(a,qx,qy),wind<true>(b,qx,qy));
    sym_check(w==expect,"region");
    if(out.size()==2) sym_reach("two-loops");
}
