// Two lines from one point: the combined balance of both against one balance
// for each, fed with the same lines (coincident ones included).
#include "clipsym.hpp"
using namespace poly_ops; using namespace poly_ops::detail;
#ifndef RANGE
#define RANGE 3
#endif
static int sum(const loop_point<Index,Coord> *lp,const std::pmr::vector<Index> &hits,Index p) {
    int w=sym_branch(lp[lp[p].next].data[0]<lp[p].data[0])?-1:0;
    for(Index h:hits) w+=sym_branch((lp[h].data[0]<lp[lp[h].next].data[0])|((lp[h].data[0]==lp[lp[h].next].data[0])&(h<lp[h].next)))?1:-1;
    return w;
}
extern "C" void harness() {
    P v[6]; loop_point<Index,Coord> lp[6]; const Index p1=FIRST,p2=FIRST==0?3:0;
    for(int i=0;i<6;++i) {
        if(i==3) v[i]=v[0];
        else { Coord x=(Coord)sym_int("x",0,RANGE); Coord y=(Coord)sym_int("y",0,RANGE); v[i]=P(x,y); }
    }
    for(int i=0;i<6;++i) {
        int j=i/3*3+(i+1)%3;
        sym_assume((v[i][0]!=v[j][0])|(v[i][1]!=v[j][1]));
        lp[i]=loop_point<Index,Coord>(v[i],(Index)j,bool_set::subject);
    }
    std::pmr::vector<Index> h1,h2; std::pmr::vector<Index> both[2];
    dual_line_balance<Index,Coord> d(lp,p1,p2,both);
    line_balance<Index,Coord> l1(lp,p1,h1),l2(lp,p2,h2);
    for(int i=0;i<6;++i) {
        int j=i/3*3+(i+1)%3;
        segment<Index> s=sym_branch((v[i][0]<v[j][0])|((v[i][0]==v[j][0])&(i<j))) ? segment<Index>{(Index)i,(Index)j} : segment<Index>{(Index)j,(Index)i};
        if(sym_branch((v[s.b][0]<v[0][0])|(v[s.a][0]>v[0][0]))) continue; // not at this x
        d.check(s); l1.check(s); l2.check(s);
    }
    sym_check(both[0]==h1,"lines-above-first"); sym_check(both[1]==h2,"lines-above-second");
    auto [w1,w2]=d.result();
    sym_check(w1==sum(lp,h1,p1),"first"); sym_check(w2==sum(lp,h2,p2),"second");
    if(!h1.empty()||!h2.empty()) sym_reach("above");
}
