// Shifts, conversions and bit queries of large integers, word by word.
#include "li.hpp"
#ifndef CFG_NOEXT
#define XB ,__int128,unsigned __int128
#else
#define XB
#endif
template<typename A> static void shifts() {
    constexpr unsigned n=info<A>::words; A a=any<A>("a");
    unsigned w=(unsigned)sym_concretize((uint64_t)sym_int("words",0,n)),b=(unsigned)sym_int("bits",0,WORD-1),amt=w*WORD+b;
    auto left=[&](unsigned i)->Word { // bits of a*2^amt
        if(i<w) return 0; 
        Word hi=at(a,i-w),lo=i>w?at(a,i-w-1):(Word)0;
        return (Word)((((W2)hi<<WORD|lo)<<b)>>WORD);
    };
    auto right=[&](unsigned i)->Word { return (Word)(((W2)at(a,i+w+1)<<WORD|at(a,i+w))>>b); };
    if(amt<256) {
        A l=a<<(unsigned char)amt,m=a; m<<=(unsigned char)amt; bool ok=true,ok2=true;
        for(unsigned i=0;i<n;++i) { ok&=l.data()[i]==left(i); ok2&=m.data()[i]==left(i); }
        sym_check(ok,"left"); sym_check(ok2,"left-in-place");
    }
    if(w<n) {
        auto r=li::shift_right(a,amt); bool ok=true,ok2=true; for(unsigned i=0;i<n;++i) ok&=r.data()[i]==right(i);
        sym_check(ok,"right");
        A q=a>>(unsigned char)amt,m=a; m>>=(unsigned char)amt; ok=true; for(unsigned i=0;i<n;++i) { ok&=q.data()[i]==right(i); ok2&=m.data()[i]==right(i); }
        sym_check(ok,"right-operator"); sym_check(ok2,"right-in-place");
    }
    sym_reach("shift");
}
template<typename A,typename B> static void convert() { // A to B
    A a=any<A>("a");
    if constexpr(info<A>::builtin&&info<B>::builtin) return;
    else if constexpr(info<B>::builtin) {
        B b=static_cast<B>(a); bool ok=true;
        for(unsigned i=0;i*WORD<info<B>::bits;++i) { Word m=info<B>::bits-i*WORD>=WORD?ONES:(Word)(((W2)1<<(info<B>::bits-i*WORD))-1); ok&=((at(b,i)^at(a,i))&m)==0; }
        sym_check(ok,"to-builtin");
    } else {
        B b{a}; bool ok=true; for(unsigned i=0;i<info<B>::words;++i) ok&=b.data()[i]==at(a,i);
        sym_check(ok,"to-compound");
        if constexpr(li::safe_comp_or_single_i<A,info<B>::words,info<B>::is_signed>) {
            B c; c=a; ok=true; for(unsigned i=0;i<info<B>::words;++i) ok&=c.data()[i]==at(a,i);
            sym_check(ok,"assigned");
        }
    }
    sym_reach("convert");
}
template<typename A> static void queries() {
    A a=any<A>("a"); constexpr unsigned n=info<A>::words;
    bool nz=false; for(unsigned i=0;i<n;++i) nz|=at(a,i)!=0;
    sym_check((bool)a==nz,"truth");
    sym_check(li::negative(a)==(info<A>::is_signed&&neg(a)),"negative");
    // position of the highest set bit
    int z=li::countl_zero(a); bool ok=(z>=0)&(z<=(int)(n*WORD));
    sym_assume(ok|true); sym_check(ok,"leading-range");
    int top=(int)(n*WORD)-z; // number of significant bits
    for(int i=0;i<(int)n;++i) {
        int k=top-i*WORD; // significant bits of this word
        Word w=at(a,(unsigned)i);
        bool fine=((k>0)|(w==0)) & ((k>=WORD)|(k<=0)|((Word)(w>>(k&(WORD-1)))==0)) & ((k<=0)|(k>WORD)|((Word)(w>>((k-1)&(WORD-1)))==1)|((k==WORD)&((Word)(w>>(WORD-1))==1)));
        ok&=fine;
    }
    sym_check(ok,"leading");
    sym_reach("query");
}
template<typename A> static void floats() {
    // values that are exact in a double: with words of 64 bits only the lowest
    // 16 bits of the high and the highest 16 bits of the low word are used
    constexpr unsigned n=info<A>::words; A a;
#if WORD==64
    int64_t h=info<A>::is_signed?sym_int("h",-32768,32767):sym_int("h",0,65535),k=sym_int("k",0,65535); int64_t v=h*65536+k;
    for(unsigned i=0;i<n;++i) a.data()[i]=0;
    if(n==1) { a.data()[0]=(Word)v; sym_check(static_cast<double>(a)==(double)v,"to-double"); sym_check(static_cast<double>(a)==(double)v,"to-double"); }
    else {
        unsigned p=(unsigned)sym_concretize((uint64_t)sym_int("place",0,(int64_t)n-2)); // the low one of the two words
        for(unsigned i=p+1;i<n;++i) a.data()[i]=(Word)(h>>63);
        a.data()[p+1]=(Word)h; a.data()[p]=(Word)k<<48;
        if(info<A>::is_signed || h>=0) {
            double r=static_cast<double>(a),e=std::ldexp((double)v,48+64*(int)p);
            sym_check(r==e,"to-double");
        }
    }
#else
    if constexpr(n*WORD<=53) {
    a=any<A>("a"); int64_t v=0; for(unsigned i=0;i<n;++i) v|=(int64_t)((uint64_t)at(a,i)<<(i*WORD));
    if(info<A>::is_signed&&neg(a)) v-=(int64_t)1<<(n*WORD);
    sym_check(static_cast<double>(a)==(double)v,"to-double");
    }
#endif
    sym_reach("float");
}
extern "C" void harness() {
#if MODE==0
    choose("type",list<I1,I2,I3,I4,U1,U2,U3,U4>{},[]<typename A>() { shifts<A>(); });
#elif MODE==1
    choose("from",list<LISTA>{},[]<typename A>() { choose("to",list<LISTB,int16_t,uint16_t XB>{},[]<typename B>() { convert<A,B>(); }); });
#elif MODE==2
    choose("type",list<I1,I2,I3,I4,U1,U2,U3,U4>{},[]<typename A>() { queries<A>(); });
#else
    choose("type",list<LISTA>{},[]<typename A>() { floats<A>(); });
#endif
    sym_done();
}
