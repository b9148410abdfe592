// Addition, subtraction, negation, absolute value, equality and order of large
// integers of every kind against word-by-word references.
#include "li.hpp"
template<unsigned N_,typename A,typename B> static bool is_sum(const auto &r,const A &a,const B &b) {
    bool ok=true; Word c=0;
    for(unsigned i=0;i<N_;++i) { W2 s=(W2)at(a,i)+at(b,i)+c; ok&=r.data()[i]==(Word)s; c=(Word)(s>>WORD)&1; }
    return ok;
}
// a-b is the sum of a, the complement of b and one
template<unsigned N_,typename A,typename B> static bool is_diff(const auto &r,const A &a,const B &b) {
    bool ok=true; Word c=1;
    for(unsigned i=0;i<N_;++i) { W2 s=(W2)at(a,i)+(Word)~at(b,i)+c; ok&=r.data()[i]==(Word)s; c=(Word)(s>>WORD)&1; }
    return ok;
}
template<typename A,typename B> static void pair() {
    constexpr bool S=mixed_signed<A,B>;
    // widths as documented: enough words for either operand, one bit more for an unsigned one next to a signed one
    auto cnt=[]<typename X>(X*) { return (info<X>::bits+(S&&!info<X>::is_signed?1:0)+WORD-1)/WORD; };
    A a=any<A>("a"); B b=any<B>("b");
    int o=order(a,b);
    if constexpr(!info<A>::builtin||!info<B>::builtin) {
        auto s=a+b; auto d=a-b; typedef decltype(s) R1; typedef decltype(d) R2;
        const unsigned n=std::max(cnt((A*)0),cnt((B*)0));
        sym_check(info<R1>::words==n && info<R2>::words==n && info<R1>::is_signed==S && info<R2>::is_signed==S,"result-type");
        sym_check(is_sum<info<R1>::words>(s,a,b),"sum");
        sym_check(is_diff<info<R2>::words>(d,a,b),"difference");
        sym_check((a==b)==(o==0),"equal");
        sym_check((b==a)==(o==0),"equal-swapped");
        if constexpr(!info<A>::builtin) {
            auto c=a<=>b; sym_check((c<0)==(o<0) && (c>0)==(o>0) && (c==0)==(o==0),"order");
            sym_check((a<b)==(o<0) && (a>b)==(o>0) && (a<=b)==(o<=0) && (a>=b)==(o>=0),"relations");
            if constexpr(requires(A x) { x+=b; x-=b; }) {
                A x=a; x+=b; sym_check(is_sum<info<A>::words>(x,a,b),"add-to");
                A y=a; y-=b; sym_check(is_diff<info<A>::words>(y,a,b),"subtract-from");
                A z; z=b; bool ok=true; for(unsigned i=0;i<info<A>::words;++i) ok&=z.data()[i]==at(b,i); sym_check(ok,"assign");
            }
        }
    }
    auto s=li::add(a,b); sym_check(is_sum<info<decltype(s)>::words>(s,a,b),"add");
    auto d=li::sub(a,b); sym_check(is_diff<info<decltype(d)>::words>(d,a,b),"sub");
    auto c=li::cmp(a,b); sym_check((c<0)==(o<0) && (c>0)==(o>0) && (c==0)==(o==0),"cmp");
    sym_check(li::eq(a,b)==(o==0),"eq");
}
template<typename A> static void single() {
    A a=any<A>("a");
    if constexpr(!info<A>::builtin) {
        constexpr unsigned n=info<A>::words; Word z=0;
        if constexpr(info<A>::is_signed && (n>1||WORD>=32)) { auto m=-a; sym_check(is_diff<n>(m,z,a),"negate"); }
        sym_check(a.negative()==(info<A>::is_signed&&neg(a)) && li::negative(a)==a.negative(),"negative");
        if constexpr(n>1||WORD>=32) {
            auto m=li::abs(a); bool ok=info<decltype(m)>::words==n;
            if(sym_branch(info<A>::is_signed&&neg(a))) ok&=is_diff<n>(m,z,a); else { for(unsigned i=0;i<n;++i) ok&=m.data()[i]==at(a,i); }
            sym_check(ok,"abs");
        }
        bool nz=false; for(unsigned i=0;i<n;++i) nz|=at(a,i)!=0;
        sym_check((bool)a==nz,"truth");
        // the array forms
        A b=any<A>("b"),s,d; li::ar_add(n,a.data(),b.data(),s.data()); li::ar_sub(n,a.data(),b.data(),d.data());
        sym_check(is_sum<n>(s,a,b) && is_diff<n>(d,a,b),"arrays");
    }
}
extern "C" void harness() {
#ifdef SINGLE
    choose("type",list<LISTA>{},[]<typename A>() { single<A>(); });
#else
    choose("left",list<LISTA>{},[]<typename A>() { choose("right",list<LISTB>{},[]<typename B>() { pair<A,B>(); }); });
#endif
    sym_reach("done");
    sym_done();
}
