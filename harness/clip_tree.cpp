// The hierarchy: same loops as the flat result, nested as they lie.
#include "geom.hpp"
struct Node { Loop l; int parent,level; };
static std::vector<Node> nodes;
template<typename R> static void walk(R &&r,int parent,int level) {
    for(auto &&l : r) {
        Loop o; for(auto &&p : l) o.push_back(P(p[0],p[1]));
        int me=(int)nodes.size(); nodes.push_back({std::move(o),parent,level});
        walk(l.inner_loops(),me,level+1);
    }
}
extern "C" void harness() {
    const shref &sa=pick_a(),&sb=pick_b(); const int op=pick_op();
    int64_t dx=shift_x(),dy=shift_y();
    Loops a=place(sa,0,0),b=place(sb,dx,dy);
    auto r=poly_ops::boolean_op<true,Coord,Index>(a,b,all_ops[op]);
    nodes.clear(); walk(r,-1,0);
    auto rf=poly_ops::boolean_op<false,Coord,Index>(a,b,all_ops[op]);
    Loops flat=collect(rf);
    int64_t qx=4*sym_int("qx",TX0*SCALE,(TX1+16)*SCALE)+1,qy=4*sym_int("qy",TY0*SCALE,(TY1+16)*SCALE)+2;
    int wt=0; std::vector<int> w; bool deep=false;
    for(auto &n:nodes) { Loops one{n.l}; w.push_back(wind_s(4,one,qx,qy)); wt+=w.back(); if(n.level) deep=true; }
#ifdef SAMEREGION
    sym_check(wt==wind_s(4,flat,qx,qy),"same-region-as-flat");
#else
    sym_check(wt==op_fill(op,wind_s(4,a,qx,qy),wind_s(4,b,qx,qy)),"region");
#endif
    int expectUp=1,nested=1,disjoint=1;
    for(size_t i=0;i<nodes.size();++i) {
        int64_t ar=area2(nodes[i].l);
        expectUp&=nodes[i].level%2?(int)(ar<0):(int)(ar>0);
        if(nodes[i].parent>=0) nested&=(int)(w[i]==0)|(int)(w[nodes[i].parent]!=0);
        for(size_t j=0;j<i;++j) if(nodes[j].parent==nodes[i].parent) disjoint&=(int)(w[i]==0)|(int)(w[j]==0);
    }
    // Known finding: where two lines of the result overlap completely, the
    // hierarchy can be wrong; -DOVERLAP looks at such results too.
    int overlap=0;
#ifndef OVERLAP
    { std::vector<Seg> v; for(auto &n:nodes) add_segs(v,n.l); for(size_t i=0;i<v.size();++i) for(size_t j=0;j<i;++j) overlap|=same_seg(v[i],v[j]); }
#endif
    sym_check(expectUp|overlap,"levels-alternate");
    sym_check(nested|overlap,"child-inside-parent");
    sym_check(disjoint|overlap,"siblings-disjoint");
    if(deep) sym_reach("nested");
}
