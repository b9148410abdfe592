// The event queue driven by a consumer that may add events after any forward
// step.  The oracle keeps the stack of applied events.
#include "clipsym.hpp"
using namespace poly_ops; using namespace poly_ops::detail;
#ifndef NINIT
#define NINIT 3
#endif
#ifndef BURSTS
#define BURSTS 2
#endif
#ifndef PERBURST
#define PERBURST 2
#endif
#ifndef XR
#define XR 3
#endif
static const int NP=NINIT+BURSTS*PERBURST;
static Coord xs[NP+1];
struct ev { int x,type; Index a,b; };
static bool less(const ev &l,const ev &r) {
    if(sym_branch(l.x!=r.x)) return sym_branch(l.x<r.x);
    if(sym_branch(l.type!=r.type)) return sym_branch(l.type<r.type);
    if(l.a!=r.a) return l.a<r.a;
    return l.b<r.b;
}
static bool same(const ev &l,const ev &r) { return l.a==r.a && l.b==r.b && sym_branch(l.type==r.type); }
extern "C" void harness() {
    std::pmr::vector<loop_point<Index,Coord>> pts;
    for(int i=0;i<=NP;++i) { xs[i]=sym_coord("x",0,XR); pts.emplace_back(P(xs[i],0),(Index)(i==NP?0:i+1),bool_set::subject); }
    events_t<Index,Coord> q(std::pmr::get_default_resource());
    ev known[NP]; int nk=0; bool applied[NP]={};
    int stack[NP],ns=0;
    auto add=[&](){
        // every identity distinct; identities are not in the order of insertion
        constexpr int mult=(NP+1)%3?3:(NP+1)%5?5:7;
        int a=(nk*mult+2)%(NP+1),b=nk;
        int t=(int)sym_int("type",0,3);
        known[nk]={xs[a],t,(Index)a,(Index)b};
        q.add_event((Index)a,(Index)b,(Index)nk,(event_type_t)t);
        ++nk;
    };
    for(int i=0;i<NINIT;++i) add();
    int bursts=0; bool back=false;
    for(int steps=0;steps<400;++steps) {
        if(!q.more()) break;
        auto [e,fwd]=q.next(pts);
        int k=-1;
        for(int i=0;i<nk;++i) if(known[i].a==e.ab.a && known[i].b==e.ab.b) k=i;
        sym_check(k>=0,"event-known");
        sym_check((int)e.type==known[k].type,"event-type-kept");
        sym_check(e.sweep_node==(Index)k,"event-data-kept");
        // the least event that is not applied
        int m=-1;
        for(int i=0;i<nk;++i) if(!applied[i] && (m<0 || less(known[i],known[m]))) m=i;
        if(fwd) {
            sym_check(!applied[k],"applied-twice");
            sym_check(k==m,"not-next-in-order");
            applied[k]=true; stack[ns++]=k; 
            sym_check(q.current().ab.a==e.ab.a && q.current().ab.b==e.ab.b,"current");
            if(bursts<BURSTS && sym_int("burst",0,1)) { ++bursts; int c=(int)sym_concretize((uint64_t)sym_int("count",1,PERBURST)); for(int i=0;i<c;++i) add(); }
        } else {
            sym_reach("backtrack");
            sym_check(ns>0,"undo-nothing");
            sym_check(stack[ns-1]==k,"undo-order");
            sym_check(m>=0 && less(known[m],known[k]),"undo-needless");
            applied[k]=false; --ns;
        }
    }
    sym_check(!q.more(),"ends");
    sym_check(ns==nk,"all-applied");
    sym_check(q.size()==(size_t)nk,"size");
    for(int i=1;i<ns;++i) sym_check(less(known[stack[i-1]],known[stack[i]]),"sorted");
    for(int i=0;i<ns;++i) sym_check(q[i].ab.a==known[stack[i]].a && q[i].ab.b==known[stack[i]].b,"content");
    for(int i=0;i<nk;++i) {
        auto &f=q.find(pts,segment<Index>{known[i].a,known[i].b},(event_type_t)sym_concretize(known[i].type));
        sym_check(f.ab.a==known[i].a && f.ab.b==known[i].b && f.sweep_node==(Index)i,"find");
    }
    // a second pass over the same events
    q.rewind();
    for(int i=0;i<ns;++i) {
        sym_check(q.more(),"rewind-more");
        auto [e,fwd]=q.next(pts);
        sym_check(fwd && e.ab.a==known[stack[i]].a && e.ab.b==known[stack[i]].b,"rewind-order");
    }
    sym_check(!q.more(),"rewind-ends");
    q.clear(); sym_check(!q.more() && q.size()==0,"clear");
}
