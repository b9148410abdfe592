// Two small flat sets under any sequence of operations, against bit masks.
#include "../rt/sym.h"
#include <cstdint>
#include <cstddef>
#include <vector>
#include <new>
#include <limits>
#include <memory_resource>
#include "poly_ops/mini_flat_set.hpp"
using namespace poly_ops::detail;
#ifndef VT
#define VT uint32_t
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef VMAX
#define VMAX 0x7fffffff
#endif
typedef VT V; typedef std::allocator<V> A; typedef mini_flat_set<V,A> Set;
static A al;
static V val() { return (V)sym_int("v",0,VMAX); }
// sorted list without repetitions; every comparison is a branch
struct Model {
    V v[4+4*OPS+8]; int n=0;
    bool add(V x) {
        int i=0; for(;i<n;++i) { if(sym_branch(v[i]==x)) return false; if(sym_branch(x<v[i])) break; }
        for(int k=n;k>i;--k) v[k]=v[k-1];
        v[i]=x; ++n; return true;
    }
    void add(const Model &b) { for(int i=0;i<b.n;++i) add(b.v[i]); }
    bool has(V x) const { for(int i=0;i<n;++i) if(sym_branch(v[i]==x)) return true; return false; }
};
template<typename S> static void check(const S &s,const Model &m) {
    sym_check(s.size()==(size_t)m.n,"size");
    sym_check(s.empty()==(m.n==0),"empty");
    int i=0; bool ok=true;
    for(auto it=s.begin();it!=s.end();++it) { if(i>=m.n) sym_fail("size"); ok&=*it==m.v[i++]; }
    sym_check(i==m.n,"end");
    sym_check(ok,"content");
}
template<typename S> static Model left_over(const S &s,const Model &all) {
    Model k; V last=0; int i=0;
    for(auto it=s.begin();it!=s.end();++it) { if(i++) sym_check(last<*it,"merge-source-sorted"); last=*it; sym_check(all.has(*it),"merge-source"); k.add(*it); }
    return k;
}
struct input_it { // single pass
    using iterator_category=std::input_iterator_tag; using iterator_concept=std::input_iterator_tag; using value_type=V; using difference_type=std::ptrdiff_t; using pointer=const V*; using reference=V;
    const V *p;
    V operator*() const { return *p; }
    input_it &operator++() { ++p; return *this; }
    void operator++(int) { ++p; }
    bool operator==(const input_it &b) const { return p==b.p; }
};
extern "C" void harness() {
#ifdef PROXY
    // a growing collection of sets reached through proxies
    std::pmr::polymorphic_allocator<> pa;
    typedef mini_set_proxy_vector<V,A> PV;
    PV pv(al); const PV &cpv=pv; Model m[3+OPS]; int n=2;
    pv.resize(2);
    for(int o=0;o<OPS;++o) {
        int i=(int)sym_concretize((uint64_t)sym_int("i",0,n-1)),j=(int)sym_concretize((uint64_t)sym_int("j",0,n-1));
        switch(sym_concretize((uint64_t)sym_int("op",0,6))) {
        case 0: { V v=val(); bool nw=m[i].add(v); auto r=pv[i].insert(v); sym_check(r.second==nw,"insert-new"); sym_check(*r.first==v,"insert-where"); break; }
        case 1: { V v[3]={val(),val(),val()}; pv[i].insert(v,v+3); for(V x : v) m[i].add(x); break; }
        case 2: if(i!=j) { pv[i].merge(pv[j]); m[i].add(m[j]); m[j]=left_over(pv[j],m[i]); } break;
        case 3: pv.emplace_back(); m[n++]=Model(); sym_reach("grow"); break;
        case 4: { if(i==j) break; if constexpr(requires { pv.data[0].assign(al,pv.data[0]); }) pv.data[i].assign(al,cpv[j]); m[i]=m[j]; break; }
        case 5: { if(i==j) break; pv.data[i].assign(al,std::move(pv.data[j])); m[i]=m[j]; m[j]=Model(); break; }
        case 6: if(n>1) { pv.pop_back(); --n; } break;
        }
        sym_check(pv.size()==(size_t)n && pv.empty()==(n==0),"count");
        for(int k=0;k<n;++k) { check(cpv[k],m[k]); check(pv[k],m[k]); }
    }
    { PV copy(pv); for(int k=0;k<n;++k) check(copy.data[k],m[k]); 
      if(n) { V v=val(); copy[0].insert(v); check(cpv[0],m[0]); } }
    pv.clear(); sym_check(pv.empty(),"clear");
#else
    Set a,b; Model ma,mb;
    // start from any content of the given sizes
    V init[INITA+INITB+1];
    for(int i=0;i<INITA;++i) { init[i]=val(); ma.add(init[i]); }
    if(INITA) a.insert(al,init,init+INITA);
    check(a,ma);
    for(int i=0;i<INITB;++i) { init[i]=val(); mb.add(init[i]); b.insert(al,init[i]); }
    check(b,mb);
    for(int o=0;o<OPS;++o) {
        switch(sym_concretize((uint64_t)sym_int("op",0,9))) {
        case 0: { V v=val(); bool nw=ma.add(v); auto r=a.insert(al,v); sym_check(r.second==nw,"insert-new"); sym_check(*r.first==v,"insert-where"); break; }
        case 1: { V v[3]={val(),val(),val()}; int c=(int)sym_concretize((uint64_t)sym_int("n",0,3)); a.insert(al,v,v+c); for(int i=0;i<c;++i) ma.add(v[i]); break; }
        case 2: { V v[3]={val(),val(),val()}; int c=(int)sym_concretize((uint64_t)sym_int("n",0,3)); a.insert(al,input_it{v},input_it{v+c}); for(int i=0;i<c;++i) ma.add(v[i]); break; }
        case 3: { a.merge(al,b); ma.add(mb); mb=left_over(b,ma); sym_reach("merge"); break; }
        case 4: a.assign(al,b); ma=mb; break;
        case 5: a.assign(al,std::move(b)); ma=mb; mb=Model(); break;
        case 6: { swap(a,b); Model t=ma; ma=mb; mb=t; break; }
        case 7: { Set c(al,a); check(c,ma); c.insert(al,val()); check(a,ma); c.destroy(al); break; }
        case 8: { Set c(std::move(a)); check(c,ma); check(a,Model()); swap(a,c); c.destroy(al); break; }
        case 9: { V v=val(); bool nw=mb.add(v); auto r=b.insert(al,v); sym_check(r.second==nw,"insert-new"); break; }
        }
        check(a,ma); check(b,mb);
    }
    a.destroy(al); b.destroy(al);
#endif
}
