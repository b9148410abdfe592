// Strided iterators and ranges against positions on a line: the iterator at
// element k of a view with any stride.
#include "../rt/sym.h"
#include <cstdint>
#include <utility>
#include <cstring>
#include <vector>
#include <iterator>
#include "poly_ops/base.hpp"
#include "poly_ops/strided_itr.hpp"
using namespace poly_ops; using detail::strided_itr;
static char buf[1<<14];
extern "C" void harness() {
#ifdef ARITH
    // any stride and element numbers: pointer arithmetic only
    typedef strided_itr<char> It; char *base=buf+(1<<13);
    int64_t s=sym_int("stride",-16,16),i=sym_int("i",-100,100),j=sym_int("j",-100,100),n=sym_int("n",-100,100);
    It zero(base,s);
    It a=zero+i,b=zero+j;
    auto at=[&](It x,int64_t k){ return (*x==base+k*s) & (x.stride==s) & (x.ptr==base+k*s); };
    sym_check(at(zero,0) & at(a,i) & at(b,j),"plus");
    sym_check(at(i+zero,i),"plus-left");
    sym_check(at(a-n,i-n),"minus");
    sym_check(a[n]==base+(i+n)*s,"subscript");
    { It c=a; It &r=++c; sym_check((&r==&c) & at(c,i+1),"pre-increment"); }
    { It c=a; It &r=--c; sym_check((&r==&c) & at(c,i-1),"pre-decrement"); }
    { It c=a; It r=c++; sym_check(at(r,i) & at(c,i+1),"post-increment"); }
    { It c=a; It r=c--; sym_check(at(r,i) & at(c,i-1),"post-decrement"); }
    { It c=a; It &r=(c+=n); sym_check((&r==&c) & at(c,i+n),"plus-assign"); }
    { It c=a; It &r=(c-=n); sym_check((&r==&c) & at(c,i-n),"minus-assign"); }
    if(sym_branch(s!=0)) {
        int64_t st=(int64_t)sym_concretize((uint64_t)s); (void)st;
        sym_check(b-a==j-i,"difference");
        sym_check((a==b)==(i==j),"equal"); sym_check((a!=b)==(i!=j),"not-equal");
        sym_check((a<b)==(i<j),"less"); sym_check((a>b)==(i>j),"greater");
        sym_check((a<=b)==(i<=j),"less-equal"); sym_check((a>=b)==(i>=j),"greater-equal");
        sym_reach("strided");
    }
    { It c; c=a; sym_check(at(c,i),"assign"); }
    sym_check(at(a.new_ptr(base),0),"new-ptr");
#else
    // loops of points stored with any layout
    const int L=3,PN=3;
    int64_t cs=sym_int("coord_stride",-2,3),ps=sym_int("point_stride",-5,5),ls=sym_int("loop_stride",-9,20);
    sym_assume((cs!=0)&(ps!=0)&(ls!=0));
    int64_t l=sym_int("loops",0,L),p=sym_int("points",0,PN);
    cs=(int64_t)sym_concretize((uint64_t)cs); ps=(int64_t)sym_concretize((uint64_t)ps);
    l=(int64_t)sym_concretize((uint64_t)l); p=(int64_t)sym_concretize((uint64_t)p);
    int32_t *d=(int32_t*)buf;
    for(int i=0;i<200;++i) d[i]=i*7+1;
    int32_t *o=d+100;
    auto val=[&](int64_t k){ return (int64_t)((100+k)*7+1); };
    auto rr=blob_to_point_range_range<int64_t,int32_t>(o,cs*4,ps*4,ls*4,(size_t)p,(size_t)l);
    int64_t i=0;
    sym_check((int64_t)std::ranges::size(rr)==l,"loops-size");
    sym_check(std::ranges::empty(rr)==(l==0),"loops-empty");
    for(auto &&r : rr) {
        sym_check(i<l,"loops-visited");
        int64_t j=0;
        sym_check((int64_t)r.size()==p && (int64_t)std::ranges::distance(r)==p && std::ranges::empty(r)==(p==0),"points-size");
        for(auto &&q : r) {
            sym_check(j<p,"points-visited");
            sym_check((q[0]==val(i*ls+j*ps)) & (q[1]==val(i*ls+j*ps+cs)),"point");
            ++j;
        }
        sym_check(j==p,"points-complete");
        if(p>1) {
            auto b=r.begin(); sym_check((b[p-1])[0]==val(i*ls+(p-1)*ps),"index");
            sym_check((int64_t)(r.end()-r.begin())==p,"distance");
            sym_check((r[1])[1]==val(i*ls+ps+cs),"range-index");
            auto e=r.end(); --e; sym_check((*e)[1]==val(i*ls+(p-1)*ps+cs),"last");
            int64_t k=p; for(auto &&q : r | std::views::reverse) { --k; sym_check(q[0]==val(i*ls+k*ps),"reverse"); }
            sym_check(b<e || p==1,"order");
            sym_reach("points");
        }
        ++i;
    }
    sym_check(i==l,"loops-complete");
    // a mutable view writes to the described elements only
    auto w=make_strided_range(reinterpret_cast<char*>(o),(size_t)p,ps*4,[](char *c){ return reinterpret_cast<int32_t*>(c); });
    for(auto x : w) *x=-1;
    for(int64_t k=-30;k<=30;++k) { bool in=k%ps==0 && k/ps>=0 && k/ps<p; sym_check(o[k]==(in?-1:(int32_t)val(k)),"written"); }
#endif
}
