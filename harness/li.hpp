// Symbolic operands for the large integers, with a choice of word width and
// compile-time configuration, and simple word-by-word references.
#pragma once
#include "../rt/sym.h"
#include <concepts>
#include <cstdint>
#include <cmath>
#include <type_traits>
#include <algorithm>
#include <compare>
#include <bit>
#include <cassert>
#include <limits>
#ifdef CFG_NOEXT
#define POLY_OPS_NO_COMPILER_EXTENSIONS
#endif
#if defined(CFG_GCC) && defined(__clang__)
#undef __has_builtin
#define __has_builtin(x) 0
#endif
#ifdef WORD // the word is chosen by the type of std::intptr_t
#define LI_C2(a,b,c) a##b##c
#define LI_C(a,b,c) LI_C2(a,b,c)
namespace std { using vint_t=LI_C(int,WORD,_t); using vuint_t=LI_C(uint,WORD,_t); }
#define intptr_t vint_t
#define uintptr_t vuint_t
#include "poly_ops/large_ints.hpp"
#undef intptr_t
#undef uintptr_t
#else
#define WORD 64
#include "poly_ops/large_ints.hpp"
#endif
namespace li=poly_ops::large_ints;
using li::compound_int; using li::compound_uint; using li::compound_xint;
typedef li::full_uint Word; typedef std::make_signed_t<Word> SWord; typedef unsigned __int128 W2;
static const Word ONES=(Word)~(Word)0;
static Word any_word(const char *n) {
    if constexpr(sizeof(Word)==8) return sym_u64(n);
    else return (Word)sym_int(n,0,(int64_t)ONES);
}
template<typename X> struct info {
    static_assert(std::is_integral_v<X>);
    static const bool is_signed=std::is_signed_v<X>; static const unsigned words=(sizeof(X)+sizeof(Word)-1)/sizeof(Word); static const bool builtin=true; static const unsigned bits=sizeof(X)*8;
    static X any(const char *n) { if constexpr(sizeof(X)==8) return (X)sym_u64(n); else return (X)sym_int(n,(int64_t)std::numeric_limits<X>::min(),(int64_t)std::numeric_limits<X>::max()); }
    static Word get(const X &x,unsigned i) { if(i*WORD<bits) return (Word)((int64_t)x>>(i*WORD)); return x<0?ONES:(Word)0; }
};
template<> struct info<__int128> {
    static const bool is_signed=true; static const unsigned words=128/WORD; static const bool builtin=true; static const unsigned bits=128;
    static __int128 any(const char *n) { uint64_t h=sym_u64(n),l=sym_u64(n); return (__int128)((unsigned __int128)h<<64|l); }
    static Word get(const __int128 &x,unsigned i) { if(i*WORD<bits) return (Word)(x>>(i*WORD)); return x<0?ONES:(Word)0; }
};
template<> struct info<unsigned __int128> {
    static const bool is_signed=false; static const unsigned words=128/WORD; static const bool builtin=true; static const unsigned bits=128;
    static unsigned __int128 any(const char *n) { uint64_t h=sym_u64(n),l=sym_u64(n); return (unsigned __int128)h<<64|l; }
    static Word get(const unsigned __int128 &x,unsigned i) { if(i*WORD<bits) return (Word)(x>>(i*WORD)); return 0; }
};
template<unsigned N_,bool S_> struct info<compound_xint<N_,S_>> {
    static const bool is_signed=S_; static const unsigned words=N_; static const bool builtin=false; static const unsigned bits=N_*WORD;
    static compound_xint<N_,S_> any(const char *n) { compound_xint<N_,S_> r; for(unsigned i=0;i<N_;++i) r.data()[i]=any_word(n); return r; }
    static Word get(const compound_xint<N_,S_> &x,unsigned i) { if(i<N_) return x.data()[i]; return S_&&(SWord)x.data()[N_-1]<0?ONES:(Word)0; }
};
// the word at position i of the value (sign or zero extended without end)
template<typename X> static Word at(const X &x,unsigned i) { return info<X>::get(x,i); }
template<typename X> static X any(const char *n) { return info<X>::any(n); }
template<typename A,typename B> static constexpr bool mixed_signed=info<A>::is_signed||info<B>::is_signed;
template<typename X> static bool neg(const X &x) { return (SWord)at(x,8)<0; }
// mathematical order: -1, 0, 1
template<typename A,typename B> static int order(const A &a,const B &b) {
    const int M=(int)std::max(info<A>::words,info<B>::words);
    SWord ha=(SWord)at(a,(unsigned)M),hb=(SWord)at(b,(unsigned)M);
    int r=0;
    for(int i=0;i<M;++i) { Word x=at(a,(unsigned)i),y=at(b,(unsigned)i); r=x<y?-1:x>y?1:r; }
    return ha<hb?-1:ha>hb?1:r;
}
typedef compound_int<1> I1; typedef compound_int<2> I2; typedef compound_int<3> I3; typedef compound_int<4> I4;
typedef compound_uint<1> U1; typedef compound_uint<2> U2; typedef compound_uint<3> U3; typedef compound_uint<4> U4;
// any value with a chosen sign: its sign words are constants
template<typename X> static X any_signed(const char *n) {
    if constexpr(!info<X>::is_signed || (info<X>::builtin&&info<X>::bits<64)) return any<X>(n);
    else {
        auto top=[&]()->Word { const int64_t h=(int64_t)1<<(WORD-2); 
            if(sym_branch(sym_int("negative",0,1)!=0)) return (Word)(SWord)sym_int(n,-h-h,-1); return (Word)(SWord)sym_int(n,0,h-1+h); };
        if constexpr(info<X>::builtin) return (X)(int64_t)(WORD==64?(int64_t)top():(int64_t)sym_u64(n));
        else { X r; for(unsigned i=0;i+1<info<X>::words;++i) r.data()[i]=any_word(n); r.data()[info<X>::words-1]=top(); return r; }
    }
}
// one path per entry of a list of types
template<typename... X> struct list {};
template<typename F,typename... X> static void choose(const char *n,list<X...>,F f) {
    uint64_t k=sym_concretize((uint64_t)sym_int(n,0,(int64_t)sizeof...(X)-1)),i=0;
    ((i++==k?f.template operator()<X>():(void)0),...);
}
#ifndef LISTA
#define LISTA I1,I2,I3,I4,U1,U2,U3,U4,int8_t,uint8_t,int32_t,uint32_t,int64_t,uint64_t
#endif
#ifndef LISTB
#define LISTB LISTA
#endif
