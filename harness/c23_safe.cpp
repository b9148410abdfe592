// Runs every part of the clipper on a fixed shape and an arbitrary loop. The
// library's own assertions are checked; the executor adds bounds, undefined
// values, arithmetic traps and termination.
#include "../rt/sym.h"
#define POLY_OPS_ASSERT(...) sym_check((bool)(__VA_ARGS__),"assertion")
#include "geom.hpp"
template<typename R> static int64_t walk(R &&r) {
    int64_t s=0;
    for(auto &&l : r) { for(auto &&p : l) s+=(int64_t)p[0]^(int64_t)p[1]; s+=walk(l.inner_loops()); }
    return s;
}
extern "C" void harness() {
    const int op=pick_op();
#ifdef FREE // one loop of FREE arbitrary points next to the shape
    Loops a=place(pick_a(),0,0),b; Loop l; for(int i=0;i<FREE;++i) { Coord x=sym_coord("x",GLO,GHI); Coord y=sym_coord("y",GLO,GHI); l.push_back(P((Coord)(x*SCALE*GSTEP),(Coord)(y*SCALE*GSTEP))); } b.push_back(l);
#else
    const shref &sa=pick_a(),&sb=pick_b(); int64_t dx=shift_x(),dy=shift_y();
    Loops a=place(sa,0,0),b=place(sb,dx,dy);
#endif
    poly_ops::clipper<Coord,Index> c; int64_t s=0;
    c.add_loops_subject(a); c.add_loops_clip(b);
    { auto r=c.template execute<true>(all_ops[op]); s+=walk(r); }
    c.reset();
    c.add_loops_subject(b); c.add_loops_clip(a);
    { auto r=c.template execute<false>(all_ops[op]); size_t n=0; for(auto &&l : r) { for(auto &&p : l) s+=(int64_t)p[0]^(int64_t)p[1]; ++n; } if(n) sym_reach("some-output"); }
    sym_check((s|1)!=0,"read");
    sym_done();
}
