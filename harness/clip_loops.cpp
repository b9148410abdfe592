// Size, duplicates, orientation and winding number of the result's loops.
#include "geom.hpp"
extern "C" void harness() {
    const shref &sa=pick_a(),&sb=pick_b(); const int op=pick_op();
    Loops a=place(sa,0,0),b=place(sb,shift_x(),shift_y());
    auto r=poly_ops::boolean_op<false,Coord,Index>(a,b,all_ops[op]);
    Loops out; size_t nl=0;
    for(auto &&l : r) {
        ++nl; Loop o; size_t n=0;
        for(auto &&p : l) { o.push_back(P(p[0],p[1])); ++n; }
        sym_check(n==(size_t)l.size(),"loop-size");
        sym_check(n>=3,"three-points");
        sym_check((size_t)(l.end()-l.begin())==n,"iterator-distance");
        auto it=l.begin(); for(size_t i=0;i<n;++i) { P q=*it; sym_check((q[0]==o[i][0])&(q[1]==o[i][1]),"second-pass"); ++it; }
        sym_check(it==l.end(),"iterator-end");
        out.push_back(std::move(o));
    }
    sym_check(nl==(size_t)r.size(),"loop-count");
    for(size_t i=0;i<out.size();++i) { size_t j=0; for(auto &&p : r[i]) { sym_check((p[0]==out[i][j][0])&(p[1]==out[i][j][1]),"indexed-access"); ++j; } }
    for(auto &l:out) for(size_t i=0;i<l.size();++i) { const P &p=l[i],&q=l[i+1==l.size()?0:i+1]; sym_check((p[0]!=q[0])|(p[1]!=q[1]),"no-repeated-point"); }
    if(out.empty()) return;
    sym_reach("some-output");
    int64_t qx=4*sym_int("qx",TX0*SCALE,(TX1+16)*SCALE)+1,qy=4*sym_int("qy",TY0*SCALE,(TY1+16)*SCALE)+2;
#ifdef SLOPED
    { int on=0; std::vector<Seg> v; for(auto &l:out) add_segs(v,l); for(auto &s:v) on|=(int)((s.bx-s.ax)*(qy-4*s.ay)==(s.by-s.ay)*(qx-4*s.ax)); sym_assume(!on); }
#endif
    int w=wind_s(4,out,qx,qy);
    sym_check((w==0)|(w==1),"winding-0-or-1");
}
