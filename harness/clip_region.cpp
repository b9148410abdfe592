// Shapes whose edges all have slope 0, 1, -1 or infinity at any even position:
// every crossing has integer coordinates, so the result must be exact.
#include "shapes.hpp"
extern "C" void harness() {
    const shref &sa=pick_a(),&sb=pick_b(); const int op=pick_op();
    Loops a=place(sa,0,0),b=place(sb,shift_x(),shift_y());
    auto r=poly_ops::boolean_op<false,Coord,Index>(a,b,all_ops[op]);
    Loops out=collect(r);
    int64_t qx=4*sym_int("qx",TX0*SCALE,(TX1+16)*SCALE)+1,qy=4*sym_int("qy",TY0*SCALE,(TY1+16)*SCALE)+2;
    sym_check(wind_s(4,out,qx,qy)==op_fill(op,wind_s(4,a,qx,qy),wind_s(4,b,qx,qy)),"region");
    if(!out.empty()) sym_reach("some-output");
}
