// The sweep set against a sorted list, with the red-black rules checked after
// every operation.
#include "../rt/sym.h"
#include <vector>
#include <memory_resource>
#include "poly_ops/clip.hpp"
#include "poly_ops/sweep_set.hpp"
using namespace poly_ops::detail;
#ifndef INDEX
#define INDEX uint32_t
#endif
typedef INDEX Index;
struct key_less { bool operator()(int a,int b) const { return sym_branch(a<b); } };
typedef std::vector<set_node<int,Index>> Store;
typedef sweep_set<int,Index,key_less,Store> Set;
typedef std::vector<Index> Model; // sorted
static Store store;
static int black_height(Index i,Index parent,int depth) {
    const Index NIL=(Index)Set::node_ptr::NIL;
    if(i==NIL) return 1;
    sym_check(depth<40,"cycle");
    auto &n=store[i];
    sym_check(n.parent==parent,"parent-link");
    if(n.color==color_t::red) {
        sym_check(n.left==NIL || store[n.left].color==color_t::black,"red-red");
        sym_check(n.right==NIL || store[n.right].color==color_t::black,"red-red");
    }
    int l=black_height(n.left,i,depth+1),r=black_height(n.right,i,depth+1);
    sym_check(l==r,"black-height");
    return l+(n.color==color_t::black);
}
static void check(Set &s,const Model &m) {
    sym_check(s.empty()==m.empty(),"empty");
    const Index NIL=(Index)Set::node_ptr::NIL;
    if(!m.empty()) { Index root=store[0].parent; sym_check(root!=NIL && store[root].color==color_t::black,"root-black"); black_height(root,0,0); }
    size_t k=0;
    for(auto it=s.begin();it!=s.end();++it) { sym_check(k<m.size() && it.index()==m[k],"forward-order"); ++k; }
    sym_check(k==m.size(),"forward-complete");
    auto it=s.end();
    while(k) { --it; --k; sym_check(it.index()==m[k],"backward-order"); }
    sym_check(it==s.begin(),"begin");
    const Set &cs=s; k=0;
    for(auto i=cs.begin();i!=cs.end();i++) { sym_check(k<m.size() && i.index()==m[k],"const-forward"); ++k; }
    for(size_t i=0;i<m.size();++i) {
        auto q=s.iterator_to(m[i]); sym_check(q->value==store[m[i]].value && q.index()==m[i],"iterator-to");
        sym_check(!s.unique(m[i]),"unique");
        ++q; sym_check(q==(i+1<m.size()?s.iterator_to(m[i+1]):s.end()),"neighbour");
    }
}
static void do_insert(Set &s,Model &m,Index i) {
    size_t at=0; bool dup=false; Index other=0;
    for(;at<m.size();++at) {
        if(sym_branch(store[m[at]].value==store[i].value)) { dup=true; other=m[at]; break; }
        if(sym_branch(store[i].value<store[m[at]].value)) break;
    }
    s.init_node(i);
    sym_check(s.unique(i),"unique-before");
    auto r=s.insert(i);
    sym_check(r.second==!dup,"insert-result");
    sym_check(r.first.index()==(dup?other:i),"insert-iterator");
    if(!dup) m.insert(m.begin()+at,i); else sym_reach("duplicate");
    check(s,m);
}
static void do_erase(Set &s,Model &m,size_t at,int how) {
    Index i=m[at];
    auto r=how==0 ? s.erase(i) : how==1 ? s.erase(store[i]) : s.erase(s.iterator_to(i));
    m.erase(m.begin()+at);
    sym_check(r==(at<m.size()?s.iterator_to(m[at]):s.end()),"erase-next");
    check(s,m);
}
extern "C" void harness() {
    Model m;
#ifdef ANYORDER
    // up to NKEYS keys in every relative order, then erased one after another
    store.resize(1); for(int i=0;i<NKEYS;++i) store.emplace_back((int)sym_int("key",0,1000));
    Set s(store);
    check(s,m);
    for(int i=0;i<NKEYS;++i) do_insert(s,m,(Index)(i+1));
    for(int e=0;e<ERASES && !m.empty();++e) do_erase(s,m,(size_t)sym_concretize((uint64_t)sym_int("at",0,(int)m.size()-1)),e%3);
#ifdef REINSERT
    s.clear(); m.clear(); check(s,m);
    do_insert(s,m,1); do_insert(s,m,2);
#endif
#else
    // a tree of NKEYS keys built in one of several fixed orders, then any
    // sequence of OPS insertions (before any element) and removals
    int n=NKEYS;
    store.resize(1); for(int i=0;i<n+OPS;++i) store.emplace_back(0);
    Set s(store);
    for(int i=0;i<n;++i) {
        int v=BUILD==0?i:BUILD==1?n-i:BUILD==2?(i*11)%(n|1):(i%2?i:2*n-i);
        store[i+1].value=v*64+32;
        s.init_node((Index)(i+1)); auto r=s.insert((Index)(i+1)); sym_check(r.second,"insert-result");
        size_t at=0; while(at<m.size() && store[m[at]].value<store[i+1].value) ++at;
        m.insert(m.begin()+at,(Index)(i+1));
    }
    check(s,m);
    for(int o=0;o<OPS;++o) {
        int kind=sym_int("kind",0,1);
        if(sym_branch(kind==0)) {
            if(m.empty()) continue;
            do_erase(s,m,(size_t)sym_concretize((uint64_t)sym_int("at",0,(int)m.size()-1)),o%3);
            sym_reach("erase");
        } else {
            size_t at=(size_t)sym_concretize((uint64_t)sym_int("gap",0,(int)m.size()));
            Index i=(Index)(n+1+o);
            int lo=at?store[m[at-1]].value:0,hi=at<m.size()?store[m[at]].value:1<<20;
            store[i].value=(lo+hi)/2;
            if(o%2) {
                s.init_node(i);
                auto r=s.insert_before(at<m.size()?s.iterator_to(m[at]):s.end(),i);
                sym_check(r.index()==i,"insert-before");
                m.insert(m.begin()+at,i); check(s,m);
            } else do_insert(s,m,i);
        }
    }
#endif
#ifdef LOOK
    // lookups
    for(int c=0;c<LOOK;++c) {
        int k=(int)sym_int("look",0,1000); size_t cnt=0;
        for(Index i : m) cnt+=sym_branch(store[i].value==k);
        sym_check(s.count(k)==cnt,"count");
    }
#endif
    s.clear(); sym_check(s.empty() && s.begin()==s.end(),"clear");
}
