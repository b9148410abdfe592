// The order of sweep events and of segments in the sweep.
#include "clipsym.hpp"
using namespace poly_ops; using namespace poly_ops::detail;
typedef __int128 W;
#ifdef RANGE
static P anyp(const char *n) { Coord x=(Coord)sym_int(n,0,RANGE); Coord y=(Coord)sym_int(n,0,RANGE); return P(x,y); }
#else
static const int64_t L=(int64_t)1<<(sizeof(Coord)*8-5);
static P anyp(const char *n) { Coord x=(Coord)sym_int(n,-L,L-1); Coord y=(Coord)sym_int(n,-L,L-1); return P(x,y); }
#endif
static int sgn(W v) { return (v>0)-(v<0); }
static W cr(const P &a,const P &b) { return (W)a[0]*b[1]-(W)a[1]*b[0]; }
typedef cached_segment<Index,Coord> S;
static S anys(std::pmr::vector<loop_point<Index,Coord>> &pts,Index a,Index b) {
    P p=anyp("a"),q=anyp("b");
    sym_assume((p[0]<=q[0])&((p[0]!=q[0])|(p[1]!=q[1])));
    return S(a,b,p,q);
}
extern "C" void harness() {
    std::pmr::vector<loop_point<Index,Coord>> pts;
#if MODE==0
    for(int i=0;i<6;++i) pts.emplace_back(anyp("p"),(Index)0,bool_set::subject);
    event_cmp<Index,Coord> c{pts};
    event<Index> e[3]; int64_t k[3][4];
    for(int i=0;i<3;++i) {
        int a=(int)sym_concretize((uint64_t)sym_int("a",0,5)); Index b=(Index)sym_int("b",0,5); int t=(int)sym_int("t",0,3);
        e[i]=event<Index>(segment<Index>{(Index)a,b},0,(event_type_t)t);
        k[i][0]=pts[a].data[0]; k[i][1]=t; k[i][2]=a; k[i][3]=b;
        if(i==1 && e[0].ab.a>e[1].ab.a) sym_done(); // symmetric in the first two
    }
    sym_check((int)event_type_t::vforward<(int)event_type_t::backward && (int)event_type_t::backward<(int)event_type_t::forward && (int)event_type_t::forward<(int)event_type_t::vbackward,"kind-order");
    bool lt[3][3];
    for(int i=0;i<3;++i) for(int j=0;j<3;++j) {
        bool eq=(k[i][0]==k[j][0])&(k[i][1]==k[j][1])&(k[i][2]==k[j][2])&(k[i][3]==k[j][3]);
        bool ref=(k[i][0]<k[j][0])|((k[i][0]==k[j][0])&((k[i][1]<k[j][1])|((k[i][1]==k[j][1])&((k[i][2]<k[j][2])|((k[i][2]==k[j][2])&(k[i][3]<k[j][3]))))));
        lt[i][j]=c(e[i],e[j]);
        sym_check((i!=j) | !lt[i][j],"irreflexive");
        // position first, then kind; identity decides the rest
        sym_check((k[i][0]==k[j][0]) | (lt[i][j]==(k[i][0]<k[j][0])),"position");
        sym_check((k[i][0]!=k[j][0]) | (k[i][1]==k[j][1]) | (lt[i][j]==(k[i][1]<k[j][1])),"kind");
        (void)ref;
        if(j<i) { sym_check(eq ? !lt[i][j]&!lt[j][i] : lt[i][j]!=lt[j][i],"total"); }
    }
    sym_check(!(lt[0][1]&lt[1][2]&!lt[0][2]) & !(lt[1][0]&lt[0][2]&!lt[1][2]) & !(lt[0][2]&lt[2][1]&!lt[0][1]) & !(lt[1][2]&lt[2][0]&!lt[1][0]) & !(lt[2][0]&lt[0][1]&!lt[2][1]) & !(lt[2][1]&lt[1][0]&!lt[2][0]),"transitive");
#elif MODE==1
    // two segments that overlap in x: order at the greater start
    static const Index ids[][4]={{0,1,2,3},{3,2,1,0},{0,1,1,2},{1,0,1,2},{1,0,2,0},{2,0,1,0}};
#ifndef CASE
#define IDS 5
#elif CASE==4
#define IDS 1
#else
#define IDS 0
#endif
    auto &id=ids[sym_concretize((uint64_t)sym_int("ids",0,IDS))];
#if !defined(CASE)
    S s=anys(pts,id[0],id[1]),t=anys(pts,id[2],id[3]);
#elif CASE==1 // the later start is not on the earlier line
    S s=anys(pts,id[0],id[1]),t=anys(pts,id[2],id[3]);
    if(sym_branch(s.pa[0]==t.pa[0])) sym_assume(s.pa[1]!=t.pa[1]);
    else if(sym_branch(s.pa[0]<t.pa[0])) sym_assume(cr(s.pb-s.pa,t.pa-s.pa)!=0);
    else sym_assume(cr(t.pb-t.pa,s.pa-t.pa)!=0);
#elif CASE==2 // same start, different directions
    S s=anys(pts,id[0],id[1]),t=anys(pts,id[2],id[3]);
    t.pa=s.pa; sym_assume((t.pa[0]<=t.pb[0])&((t.pa[0]!=t.pb[0])|(t.pa[1]!=t.pb[1])));
    sym_assume(cr(s.pb-s.pa,t.pb-s.pa)!=0);
#elif CASE==3 // one starts on the other
    P base=anyp("base"),d=anyp("dir"); int m=(int)sym_concretize((uint64_t)sym_int("m",1,3)),k=(int)sym_concretize((uint64_t)sym_int("k",0,3)); if(k>m) sym_done();
    sym_assume(d[0]>0);
    S s(id[0],id[1],base,P(base[0]+m*d[0],base[1]+m*d[1])); P q=anyp("b"),at(base[0]+k*d[0],base[1]+k*d[1]);
    sym_assume((at[0]<=q[0])&((at[0]!=q[0])|(at[1]!=q[1]))&(cr(d,q-at)!=0));
    S t(id[2],id[3],at,q);
    if(sym_branch(sym_int("swap",0,1)!=0)) std::swap(s,t);
#else // all on one line
    P base=anyp("base"),d=anyp("dir"); sym_assume((d[0]!=0)|(d[1]!=0)); Coord v[4];
    for(auto &x : v) x=(Coord)sym_concretize((uint64_t)sym_int("t",0,3));
    if(v[0]==v[1] || v[2]==v[3]) sym_done();
    auto at=[&](Coord x){ return P(base[0]+x*d[0],base[1]+x*d[1]); };
    S s(id[0],id[1],at(v[0]),at(v[1])),t(id[2],id[3],at(v[2]),at(v[3]));
    sym_assume((s.pa[0]<=s.pb[0])&(t.pa[0]<=t.pb[0]));
#endif
    sym_assume((s.pa[0]<=t.pb[0])&(t.pa[0]<=s.pb[0]));
    sweep_cmp<Index,Coord> c;
    bool st=c(s,t),ts=c(t,s);
    sym_check(st!=ts,"asymmetric-total");
    sym_check(!c(s,s) & !c(t,t),"irreflexive");
    P ds=s.pb-s.pa,dt=t.pb-t.pa;
    // positive: s has the greater y just after both have started
    int dir=sgn((W)ds[1]*dt[0]-(W)dt[1]*ds[0]);
    int pos; bool coincident=false;
    if(sym_branch(s.pa[0]==t.pa[0])) pos=sgn((W)s.pa[1]-t.pa[1]);
    else if(sym_branch(s.pa[0]<t.pa[0])) pos=sgn(cr(ds,s.pa-t.pa));
    else pos=sgn(cr(dt,s.pa-t.pa));
    if(sym_branch(pos==0)) {
        if(sym_branch(dir==0)) {
            coincident=true;
            // two vertical lines that leave the same point in opposite directions
            if(sym_branch((ds[0]==0)&(dt[0]==0)&((ds[1]>0)!=(dt[1]>0))&(s.pa[1]==t.pa[1]))) sym_check(st==(ds[1]>0),"opposite-vertical");
            sym_reach("coincident");
        } else pos=dir;
    }
    if(!coincident) { sym_check(st==(pos>0),"geometry"); sym_reach("strict"); }
    line_bal_sweep_cmp<Index> lc;
    sym_check(!lc(s,s) && lc(s,t)!=lc(t,s),"index-order");
#else
    static const Index ids[][6]={{0,1,2,3,4,5},{5,4,3,2,1,0},{0,1,1,2,2,3},{0,2,1,2,2,3},{2,0,4,1,0,3},{0,3,1,3,2,3}};
    auto &id=ids[sym_concretize((uint64_t)sym_int("ids",0,5))];
    S s[3]={anys(pts,id[0],id[1]),anys(pts,id[2],id[3]),anys(pts,id[4],id[5])};
    // by symmetry the last one starts at the sweep position
    Coord X=s[2].pa[0];
    sym_assume((s[0].pa[0]<=s[1].pa[0])&(s[1].pa[0]<=X));
    // lines that end here are removed after vertical lines are inserted and
    // before other lines are
    bool pre=sym_branch(sym_int("pre",0,1)!=0);
    for(int i=0;i<3;++i) {
        bool vert=(s[i].pa[0]==X)&(s[i].pb[0]==X);
        sym_assume(vert | (pre ? (s[i].pa[0]<X)&(s[i].pb[0]>=X) : (s[i].pb[0]>X)));
    }
    // no pair changes sides up to here
    for(int j=1;j<3;++j) for(int i=0;i<j;++i) {
        Coord l=s[j].pa[0];
        if(!sym_branch(l<X)) continue;
        P di=s[i].pb-s[i].pa,dj=s[j].pb-s[j].pa;
        W at_l=cr(di,s[j].pa-s[i].pa); // sign of yj-yi at l
        W at_x=((W)s[j].pa[1]-s[i].pa[1])*di[0]*dj[0]+(W)dj[1]*(X-s[j].pa[0])*di[0]-(W)di[1]*(X-s[i].pa[0])*dj[0];
        if(sym_branch(at_l>0)) sym_assume(pre ? at_x>=0 : at_x>0);
        else if(sym_branch(at_l<0)) sym_assume(pre ? at_x<=0 : at_x<0);
    }
    sweep_cmp<Index,Coord> c;
    bool a=c(s[0],s[1]),b=c(s[1],s[2]),d=c(s[0],s[2]);
    sym_check(!(a&b&!d) & !((!a)&(!b)&d),"transitive");
    if(pre) sym_reach("with-ending-lines"); else sym_reach("with-starting-lines");
#endif
}
