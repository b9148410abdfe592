// The vertical ray test of the line balance, against its geometric meaning.
#include "clipsym.hpp"
using namespace poly_ops; using namespace poly_ops::detail;
typedef __int128 W;
static const int64_t L=(int64_t)1<<(sizeof(Coord)*8-5);
static P anyp(const char *n) { Coord x=(Coord)sym_int(n,-L,L-1); Coord y=(Coord)sym_int(n,-L,L-1); return P(x,y); }
static int sgn(W v) { return (v>0)-(v<0); }
static W cr(const P &a,const P &b) { return (W)a[0]*b[1]-(W)a[1]*b[0]; }
// is segment sa-sb (sa.x < sb.x) above the point just after p on the line p,p+dp?
static bool above(P sa,P sb,P p,P dp,bool tie) {
    W s=dp[0]!=0?dp[0]:dp[1]; // which side of p the ray passes
    bool in=((s>0)&(sa[0]<=p[0])&(p[0]<sb[0]))|((s<0)&(sa[0]<p[0])&(p[0]<=sb[0]));
    W c=cr(sb-sa,p-sa),d=cr(sb-sa,dp);
    return in & ((c>0)|((c==0)&((d>0)|((d==0)&tie))));
}
extern "C" void harness() {
    P p=anyp("p"),dp=anyp("dp"); bool tie=sym_int("tie",0,1);
    sym_assume((dp[0]!=0)|(dp[1]!=0));
#if MODE==0
    P sa=anyp("sa"),sb=anyp("sb");
    sym_assume(sa[0]<sb[0]);
    bool r=line_segment_up_ray_intersection(sa,sb,p,hsign_of(dp),dp,tie);
    sym_check(r==above(sa,sb,p,dp,tie),"single-ray");
    if(r) sym_reach("hit"); else sym_reach("miss");
#elif MODE==1
    // two lines from p tested together
    P dq=anyp("dq"); bool tie2=sym_int("tie",0,1); sym_assume((dq[0]!=0)|(dq[1]!=0));
    P sa=anyp("sa"),sb=anyp("sb");
    sym_assume(sa[0]<=sb[0]); sym_assume((sa[0]!=sb[0])|(sa[1]!=sb[1]));
    auto [r1,r2]=dual_line_segment_up_ray_intersection(sa,sb,p,hsign_of(dp),dp,tie,hsign_of(dq),dq,tie2);
    sym_check(r1==line_segment_up_ray_intersection(sa,sb,p,hsign_of(dp),dp,tie),"dual-first");
    sym_check(r2==line_segment_up_ray_intersection(sa,sb,p,hsign_of(dq),dq,tie2),"dual-second");
    if(r1) sym_reach("hit");
#elif MODE==2
    // two lines from one point: each is tested against the other; exactly one
    // is above when they leave to the same side, neither otherwise
#ifdef COLLINEAR
    int64_t ka=sym_int("ka",1,3),kb=sym_int("kb",-3,3); sym_assume(kb!=0);
    Coord a=(Coord)sym_concretize(ka),b=(Coord)sym_concretize(kb);
    P dq(dp[0]*b,dp[1]*b); dp=P(dp[0]*a,dp[1]*a);
    if(sym_branch(dp[0]==0)) sym_assume(a==b||b<0); // vertical lines overlap completely or not at all
#else
    P dq=anyp("dq"); sym_assume((dq[0]!=0)|(dq[1]!=0)); sym_assume(cr(dp,dq)!=0);
#endif
    P q=p+dp,s=p+dq;
    bool r1=false,r2=false; // r1: the second line is above the first
    if(sym_branch(dq[0]>=0)) r1=line_segment_up_ray_intersection(p,s,p,hsign_of(dp),dp,tie);
    else r1=line_segment_up_ray_intersection(s,p,p,hsign_of(dp),dp,tie);
    if(sym_branch(dp[0]>=0)) r2=line_segment_up_ray_intersection(p,q,p,hsign_of(dq),dq,!tie);
    else r2=line_segment_up_ray_intersection(q,p,p,hsign_of(dq),dq,!tie);
    bool same=((dp[0]>0)&(dq[0]>0))|((dp[0]<0)&(dq[0]<0))|((dp[0]==0)&(dq[0]==0)&(dp[1]==dq[1]));
    sym_check(!(r1&&r2),"not-both");
    if(sym_branch(same)) { sym_check(r1!=r2,"exactly-one"); if(sym_branch((cr(dp,dq)==0)&(dp[0]!=0))) { sym_check(r1==tie,"coincident-by-tie"); sym_reach("coincident"); } }
#ifndef COLLINEAR
    if(sym_branch((dp[0]!=0)&(dq[0]!=0))) { bool right=sym_branch(dq[0]>0); sym_check(r1==above(right?p:s,right?s:p,p,dp,tie),"geometry"); }
#endif
#else
    // a segment and its reverse: A-B with index i, B-A with index j
    P q=p+dp; sym_assume(dp[0]!=0);
    bool right=sym_branch(dp[0]>0);
    P sa=right?p:q,sb=right?q:p,dn(-dp[0],-dp[1]);
    bool r1=line_segment_up_ray_intersection(sa,sb,p,hsign_of(dp),dp,tie);
    bool r2=line_segment_up_ray_intersection(sa,sb,q,hsign_of(dn),dn,!tie);
    sym_check(r1==tie&&r2==!tie,"reverse-coincident");
#endif
}
