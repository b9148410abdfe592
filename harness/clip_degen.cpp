// Repeated points and degenerate loops inserted anywhere change nothing.
#include "geom.hpp"
static const int NOLOOP=-1;
static P rnd_point() { return P(sym_coord("gx",-4,14),sym_coord("gy",-4,14)); }
// loops with fewer than three distinct consecutive points
static Loop degenerate(int kind) {
    Loop l;
    switch(kind) {
    case 0: break;
    case 1: { P p=rnd_point(); l={p}; break; }
    case 2: { P p=rnd_point(); l={p,p,p}; break; }
    case 3: { P p=rnd_point(),q=rnd_point(); l={p,q}; break; }
    case 4: { P p=rnd_point(),q=rnd_point(); l={p,p,q,q,p}; break; }
    default: { P p=rnd_point(),q=rnd_point(); l={p,q,q,q}; break; }
    }
    return l;
}
static Loop repeat(const Loop &l,int at,int times,bool close) {
    Loop o;
    for(size_t i=0;i<l.size();++i) { o.push_back(l[i]); if((int)i==at) for(int k=0;k<times;++k) o.push_back(l[i]); }
    if(close) { o.push_back(l[0]); if(times>1) o.push_back(l[0]); }
    return o;
}
extern "C" void harness() {
    const shref &sa=pick_a(),&sb=pick_b(); const int op=pick_op();
    int64_t dx=shift_x(),dy=shift_y();
    Loops a=place(sa,0,0),b=place(sb,dx,dy);
    auto r0=poly_ops::boolean_op<false,Coord,Index>(a,b,all_ops[op]);
    Loops plain=collect(r0);
    Loops a2=a,b2=b; int side=(int)sym_concretize(sym_int("side",0,1)); Loops &t=side?b2:a2;
#if MODE==0 // repeated points
    int li=(int)sym_concretize(sym_int("loop",0,(int64_t)t.size()-1));
    int at=(int)sym_concretize(sym_int("at",0,(int64_t)t[li].size()-1));
    t[li]=repeat(t[li],at,(int)sym_concretize(sym_int("times",0,2)),sym_branch(sym_int("close",0,1)!=0));
#else       // degenerate loops
    int kind=(int)sym_concretize(sym_int("kind",KLO,KHI));
    int pos=(int)sym_concretize(sym_int("pos",0,(int64_t)t.size()));
    t.insert(t.begin()+pos,degenerate(kind));
#endif
    auto r1=poly_ops::boolean_op<false,Coord,Index>(a2,b2,all_ops[op]);
    Loops got=collect(r1);
    sym_check(got.size()==plain.size(),"same-number-of-loops");
    int all=1;
    for(auto &l:plain) { int any=0; for(auto &m:got) if(m.size()==l.size()) for(size_t k=0;k<l.size();++k) { int eq=1; for(size_t i=0;i<l.size();++i) { const P &p=l[i],&q=m[(i+k)%l.size()]; eq&=(int)(p[0]==q[0])&(int)(p[1]==q[1]); } any|=eq; } all&=any; }
    sym_check(all,"same-loops");
#ifdef SINK // the other ways of giving the same input and asking for the result
    {
        poly_ops::clipper<Coord,Index> c;
        auto feed=[&](const Loops &ls,poly_ops::bool_set cat) { for(auto &l:ls) { auto s=c.add_loop(cat); for(auto &p:l) s(p); } };
        feed(a2,poly_ops::bool_set::subject); feed(b2,poly_ops::bool_set::clip);
        sym_check(same_loops(collect(c.template execute<false>(all_ops[op])),got),"point-sink");
        for(auto &l:a2) c.add_loops_subject(l);
        for(auto &l:b2) { auto s=c.add_loop(poly_ops::bool_set::clip); for(size_t i=0;i<l.size();++i) s(l[i],(Index)i); }
        auto r=std::move(c).template execute<false>(all_ops[op]); Loops moved=collect(std::move(r));
        sym_check(same_loops(moved,got),"moved-clipper");
        Loops none;
        auto u=poly_ops::union_op<false,Coord,Index>(a2); auto u2=poly_ops::boolean_op<false,Coord,Index>(a2,none,poly_ops::bool_op::union_);
        sym_check(same_loops(collect(u),collect(u2)),"union-of-one");
        auto n=poly_ops::normalize_op<false,Coord,Index>(a2); auto n2=poly_ops::boolean_op<false,Coord,Index>(a2,none,poly_ops::bool_op::normalize);
        sym_check(same_loops(collect(n),collect(n2)),"normalize-of-one");
    }
#endif
    if(!got.empty()) sym_reach("some-output");
}
