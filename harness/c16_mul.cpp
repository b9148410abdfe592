// Products of large integers against the schoolbook product of the
// sign-extended operands modulo the width of the result.
#include "li.hpp"
#ifndef LISTA
#define LISTA I1,I2,I3,U1,U2,U3
#endif
// Sum of all partial products a_i*b_j W^(i+j) of the operands extended to M
// words, added in the order that the solver finds easiest.
template<unsigned M> struct Num {
    Word w[M]={};
    Num operator+(const Num &o) const { Num r; Word c=0; for(unsigned i=0;i<M;++i) { W2 s=(W2)w[i]+o.w[i]+c; r.w[i]=(Word)s; c=(Word)(s>>WORD); } return r; }
    void put(unsigned i,W2 p) { if(i<M) w[i]=(Word)p; if(i+1<M) w[i+1]=(Word)(p>>WORD); }
};
#if defined(CFG_NOEXT) && WORD==64 // the product of two words from products of their halves
static W2 word_product(Word a,Word b) {
    const Word h=0xffffffff; Word ll=(a&h)*(b&h),hl=(a>>32)*(b&h),lh=(a&h)*(b>>32),hh=(a>>32)*(b>>32);
    return (((W2)hh<<64)+ll)+(((W2)hl<<32)+((W2)lh<<32));
}
#else
static W2 word_product(Word a,Word b) { return (W2)a*b; }
#endif
template<unsigned M,typename A> static Num<M> by_word(const A &a,unsigned n,Word b,unsigned at_) { // (lowest n words of a)*b*W^at
    Num<M> p; p.put(at_+n-1,word_product(at(a,n-1),b));
    if(n>1) return by_word<M>(a,n-1,b,at_)+p;
    return p;
}
template<unsigned M,typename A,typename B> static Num<M> below(const A &a,const B &b,unsigned n,unsigned at_) { // partial products below W^M
    Num<M> h; h.w[M-1]=(Word)(at(a,n-1)*at(b,at_));
    if(n>1) return (by_word<M>(a,n-1,at(b,at_),at_)+h)+below<M>(a,b,n-1,at_+1);
    return h;
}
template<unsigned M,typename A,typename B,typename R_> static bool is_product(const R_ &r,const A &a,const B &b) {
    Num<M> s=below<M>(a,b,M,0);
    bool ok=true; for(unsigned i=0;i<M;++i) ok&=at(r,i)==s.w[i];
    return ok;
}
#ifdef SPARSE
static Word edge_word(const char *n) {
    static const Word k[]={0,1,2,ONES,(Word)(ONES-1),(Word)((Word)1<<(WORD-1)),(Word)(ONES>>1),(Word)((Word)1<<(WORD/2)),(Word)(((Word)1<<(WORD/2))-1)};
    return k[sym_concretize((uint64_t)sym_int(n,0,SPARSE))];
}
#endif
template<typename A,typename B> static void pair() {
    if constexpr(requires(A a,B b) { li::mul(a,b); } && !(info<A>::builtin&&info<B>::builtin&&info<A>::bits<64&&info<B>::bits<64)) {
#ifdef SIGNS
        A a=any_signed<A>("a"); B b=any_signed<B>("b");
#else
        A a=any<A>("a"); B b=any<B>("b");
#endif
#ifdef SPARSE
        if constexpr(info<B>::builtin) b=(B)edge_word("edge"); else for(unsigned i=0;i<info<B>::words;++i) b.data()[i]=edge_word("edge");
#endif
        auto p=li::mul(a,b); typedef decltype(p) Rp;
        sym_check(info<Rp>::is_signed==mixed_signed<A,B>,"sign");
        constexpr unsigned need=info<A>::bits+info<B>::bits+(mixed_signed<A,B>&&!(info<A>::is_signed&&info<B>::is_signed)?0:0);
        sym_check(info<Rp>::words*WORD>=need || (info<A>::words+info<B>::words)*WORD>=need,"room");
        sym_check(is_product<info<Rp>::words>(p,a,b),"product");
#ifndef SPARSE
        if constexpr(requires { a*b; } && (!info<A>::builtin||!info<B>::builtin)) { auto q=a*b; bool ok=true; for(unsigned i=0;i<info<Rp>::words;++i) ok&=at(q,i)==at(p,i); sym_check(ok,"operator"); }
#endif
        sym_reach("product");
    } else if constexpr(info<A>::builtin&&info<B>::builtin) { // small operands: the built-in product does not overflow
        A a=any<A>("a"); B b=any<B>("b"); auto p=li::mul(a,b);
        sym_check((__int128)p==(__int128)a*b,"small-product");
    }
}
extern "C" void harness() {
    choose("left",list<LISTA>{},[]<typename A>() { choose("right",list<LISTB>{},[]<typename B>() { pair<A,B>(); }); });
    sym_done();
}
