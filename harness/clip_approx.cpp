// Any slopes: crossings are rounded, so away from the input lines (further than
// TOL units) the result must still be the exact region.
#include "geom.hpp"
#ifndef TOL
#define TOL 3
#endif
static int64_t isqrt_up(int64_t v) { int64_t r=0; while(r*r<v) ++r; return r; }
extern "C" void harness() {
    const shref &sa=pick_a(),&sb=pick_b(); const int op=pick_op();
    int64_t dx=shift_x(),dy=shift_y();
    Loops a=place(sa,0,0),b=place(sb,dx,dy);
    auto r=poly_ops::boolean_op<false,Coord,Index>(a,b,all_ops[op]);
    Loops out=collect(r);
    int64_t qx=2*sym_int("qx",TX0*SCALE,(TX1+16)*SCALE)+1,qy=2*sym_int("qy",TY0*SCALE,(TY1+16)*SCALE)+1;
    int near=0;
    for(int side=0;side<2;++side) { const shref &s=side?sb:sa; int64_t ox=side?dx:0,oy=side?dy:0;
        for(int k=0;k<s.n;++k) for(int i=0;i<s.s[k].n;++i) { auto *p=s.s[k].p[i],*q=s.s[k].p[i+1==s.s[k].n?0:i+1];
            int64_t px=p[0]*SCALE,py=p[1]*SCALE,vx=q[0]*SCALE-px,vy=q[1]*SCALE-py,len=isqrt_up(vx*vx+vy*vy);
            int64_t x=qx-2*ox,y=qy-2*oy; // relative to the shape's own origin
            int64_t c=vx*(y-2*py)-vy*(x-2*px),lim=2*TOL*len;
            near|=(int)(c<=lim)&(int)(c>=-lim)&(int)(x>=2*(mn(px,px+vx)-TOL))&(int)(x<=2*(mx(px,px+vx)+TOL))&(int)(y>=2*(mn(py,py+vy)-TOL))&(int)(y<=2*(mx(py,py+vy)+TOL));
        } }
    sym_assume(!near);
    int on=0; std::vector<Seg> v; for(auto &l:out) add_segs(v,l);
    for(auto &s:v) on|=(int)((s.bx-s.ax)*(qy-2*s.ay)==(s.by-s.ay)*(qx-2*s.ax));
    sym_assume(!on);
    sym_check(wind_s(2,out,qx,qy)==op_fill(op,wind_s(2,a,qx,qy),wind_s(2,b,qx,qy)),"region-away-from-lines");
    if(!out.empty()) sym_reach("some-output");
}
