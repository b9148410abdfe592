// The line balance of a line of two closed triangles: the number of nested
// boundaries and the keep/discard decision against exact winding numbers on
// both sides of the line.
#include "clipsym.hpp"
using namespace poly_ops; using namespace poly_ops::detail;
#ifndef RANGE
#define RANGE 3
#endif
#ifndef MAIN
#define MAIN 0
#endif
#ifndef OP
#define OP 0
#endif
static const int64_t K=128;
// winding number at (qx,qy)/K^2; nothing is exactly on a line
static int wn_at(const P *v,int n,int64_t qx,int64_t qy) {
    int w=0;
    for(int i=0;i<n;++i) {
        int64_t ax=v[i][0]*K*K,ay=v[i][1]*K*K,bx=v[(i+1)%n][0]*K*K,by=v[(i+1)%n][1]*K*K;
        int64_t c=(bx-ax)*(qy-ay)-(by-ay)*(qx-ax);
        w+=(int)((ay<=qy)&(by>qy)&(c>0))-(int)((by<=qy)&(ay>qy)&(c<0));
    }
    return w;
}
extern "C" void harness() {
    P v[6]; loop_point<Index,Coord> lp[6];
    for(int i=0;i<6;++i) {
#ifdef FIXED_CLIP
        static const int fx[3]={0,3,1},fy[3]={1,2,3};
        if(i/3==(MAIN<3)) v[i]=P(fx[i%3],fy[i%3]); else
#endif
        v[i]=P((Coord)sym_int("x",0,RANGE),(Coord)sym_int("y",0,RANGE));
    }
    for(int i=0;i<6;++i) {
        int j=i/3*3+(i+1)%3;
        sym_assume((v[i][0]!=v[j][0])|(v[i][1]!=v[j][1]));
        lp[i]=loop_point<Index,Coord>(v[i],(Index)j,i<3?bool_set::subject:bool_set::clip);
    }
    P p=v[MAIN],dp=v[MAIN/3*3+(MAIN+1)%3]-p;
    for(int i=0;i<6;++i) if(i!=MAIN) { // no line lies along the main line
        P a=v[i],b=v[i/3*3+(i+1)%3];
        int64_t c1=(int64_t)dp[0]*(a[1]-p[1])-(int64_t)dp[1]*(a[0]-p[0]),c2=(int64_t)dp[0]*(b[1]-p[1])-(int64_t)dp[1]*(b[0]-p[0]);
        sym_assume((c1!=0)|(c2!=0));
    }
    std::pmr::vector<Index> hits;
    line_balance<Index,Coord> lb(lp,MAIN,hits);
    for(int i=0;i<6;++i) {
        int j=i/3*3+(i+1)%3;
        // the sweep only holds lines whose x range contains the point
        if(sym_branch(((v[i][0]<p[0])&(v[j][0]<p[0]))|((v[i][0]>p[0])&(v[j][0]>p[0])))) continue;
        lb.check(sym_branch(v[i][0]<=v[j][0]) ? segment<Index>{(Index)i,(Index)j} : segment<Index>{(Index)j,(Index)i});
    }
    auto r=lb.result(all_ops[OP]);
    // left of the line just after p, and right of it
    int64_t x=p[0]*K*K+dp[0]*K,y=p[1]*K*K+dp[1]*K;
    int ls=wn_at(v,3,x+dp[1],y-dp[0]),lc=wn_at(v+3,3,x+dp[1],y-dp[0]);
    int rs=ls+(MAIN<3),rc=lc+(MAIN>=3);
    int fl=op_fill(OP,ls,lc),fr=op_fill(OP,rs,rc);
    bool keep=r==line_state::keep,rev=r==line_state::keep_rev;
    sym_check(keep==((fl==0)&(fr==1)),"keep");
    sym_check(rev==((fl==1)&(fr==0)),"keep-reversed");
    if(keep) sym_reach("keep"); else sym_reach("discard");
}
