// A clipper with any history gives what a new one gives.
#include "geom.hpp"
#ifndef HIST
#define HIST 1
#endif
#ifndef C
#define C star
#endif
typedef poly_ops::clipper<Coord,Index> CL;
#ifdef TREE
static const bool tree=true;
#else
static const bool tree=false;
#endif
template<typename R> static void dump(std::vector<Loops> &o,R &&r) { // one entry per level, depth first
    for(auto &&l : r) { Loop q; for(auto &&p:l) q.push_back(P(p[0],p[1])); o.push_back(Loops{q}); if constexpr(tree) { dump(o,l.inner_loops()); o.push_back(Loops{}); } }
}
static int same(const std::vector<Loops> &a,const std::vector<Loops> &b) { if(a.size()!=b.size()) return 0; int ok=1; for(size_t i=0;i<a.size();++i) ok&=same_loops(a[i],b[i]); return ok; }
extern "C" void harness() {
    const shref &sa=pick_a(),&sb=pick_b(); const int op=pick_op();
    int64_t dx=shift_x(),dy=shift_y();
    Loops a=place(sa,0,0),b=place(sb,dx,dy),h=place(EA_(C),2,1);
    CL c;
    bool fed=false; // input that has been added and not yet executed or reset
    for(int i=0;i<HIST;++i) {
        switch(sym_concretize(sym_int("act",0,6))) {
        case 0: c.add_loops(h,poly_ops::bool_set::subject); fed=true; break;
        case 1: c.add_loops(h,poly_ops::bool_set::clip); c.add_loops(a,poly_ops::bool_set::subject); fed=true; break;
        case 2: (void)c.template execute<false>(poly_ops::bool_op::union_); fed=false; break;
        case 3: (void)c.template execute<true>(poly_ops::bool_op::xor_); fed=false; break;
        case 4: { auto r=c.template execute<false>(poly_ops::bool_op::normalize); for(auto &&l:r) for(auto &&p:l) (void)p; fed=false; break; }
        case 5: c.reset(); fed=false; break;
        default: (void)c.template execute<true>(poly_ops::bool_op::difference); fed=false; break;
        }
        if(i+1==HIST&&fed) { c.reset(); fed=false; }
    }
    c.add_loops(a,poly_ops::bool_set::subject); c.add_loops(b,poly_ops::bool_set::clip);
    CL f; f.add_loops(a,poly_ops::bool_set::subject); f.add_loops(b,poly_ops::bool_set::clip);
    sym_check(c.next_orig_i()==f.next_orig_i(),"indices-start-over");
    std::vector<Loops> x,y;
    dump(x,c.template execute<tree>(all_ops[op])); dump(y,f.template execute<tree>(all_ops[op]));
    sym_check(same(x,y),"as-a-new-clipper");
    if(!x.empty()) sym_reach("some-output");
    { auto e=c.template execute<false>(all_ops[op]); size_t n=0; for(auto &&l:e) { (void)l; ++n; } sym_check(n==0,"executing-again-gives-nothing"); }
}
