// The segments of a result never cross, touch inside, or coincide.
#include "geom.hpp"
extern "C" void harness() {
    const shref &sa=pick_a(),&sb=pick_b(); const int op=pick_op();
    Loops a=place(sa,0,0),b=place(sb,shift_x(),shift_y());
    auto r=poly_ops::boolean_op<false,Coord,Index>(a,b,all_ops[op]);
    Loops out=collect(r);
    sym_check(any_crossing(out)==0,"no-crossing");
    if(!out.empty()) sym_reach("some-output");
}
