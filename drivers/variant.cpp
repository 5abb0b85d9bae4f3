#include "variant.inl.hpp"
#include <type_traits>
#include <utility>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::assume; using spec::any_int; using std::size_t;

namespace {
enum class Kind : int { };
template<class C, C K> struct Alt { static constexpr C code() { return K; } };
// counts its calls, remembers the code of the alternative it was called with, and returns an arbitrary result
struct Vis { int* calls; long* seen; int r; mutable int n=0; template<class C, C K> int operator()(Alt<C,K> const&) const { ++*calls; ++n; *seen=static_cast<long>(K); return r; } };
struct RVis { int* calls; long* seen; int* r; template<class C, C K> int& operator()(Alt<C,K> const&) const { ++*calls; *seen=static_cast<long>(K); return *r; } };
struct NVis { int* calls; long* seen; template<class C, C K> void operator()(Alt<C,K>) const { ++*calls; *seen=static_cast<long>(K); } };
struct Bang { };
struct TVis { int* calls; template<class C, C K> int operator()(Alt<C,K> const&) const { ++*calls; throw Bang(); } };

template<class C, C... K> void visited() {
    using W=CodedVariant<C,Alt<C,K>...>;
    int calls=0; long seen=0; int k=any_int(); C c=static_cast<C>(k); long code=static_cast<long>(c); bool member=((c==K) || ...);
    W const var(c); claim(var.code()==c,"the given code is stored");
    Vis v{&calls,&seen,any_int()};
    if(member) {
        static_assert(std::is_same_v<decltype(var.accept(v)),int>);
        int r=var.accept(v); claim(calls==1 && v.n==1,"the visitor is called exactly once"); claim(seen==code,"with the alternative whose code is stored"); claim(r==v.r,"its result is returned"); claim(var.code()==c,"visiting leaves the stored code");
    } else {
        spec::aborts(calls); var.accept(v); spec::never("visiting with the code of no alternative aborts");
    }
}
template<class C, C... K> void other_visitors() {
    using W=CodedVariant<C,Alt<C,K>...>;
    int calls=0; long seen=0; int k=any_int(); C c=static_cast<C>(k); assume(((c==K) || ...)); W var(c); int target=0;
    static_assert(std::is_same_v<decltype(var.accept(std::declval<RVis const&>())),int&> && std::is_same_v<decltype(var.accept(std::declval<NVis const&>())),void>);
    int& r=var.accept(RVis{&calls,&seen,&target}); claim(calls==1 && seen==static_cast<long>(c) && &r==&target,"a reference result is returned as such");
    var.accept(NVis{&calls,&seen}); claim(calls==2 && seen==static_cast<long>(c),"a visitor without result is called once");
    auto f=[&calls,&seen](auto const& a) { ++calls; seen=static_cast<long>(a.code()); return &calls; }; claim(var.accept(f)==&calls && calls==3 && seen==static_cast<long>(c),"a lambda is called once");
    bool threw=false; try { var.accept(TVis{&calls}); } catch(Bang const&) { threw=true; } claim(threw && calls==4,"what the visitor throws reaches the caller");
}
template<class C, C L, C... K> void constructed_from() { using W=CodedVariant<C,Alt<C,K>...>; using T=Alt<C,L>;
    T t; W var(t); claim(var.code()==L,"constructing from an alternative stores its code"); W conv=t; claim(conv.code()==L,"an alternative converts"); W copy(var); claim(copy.code()==L,"copied"); copy=W(t); claim(copy.code()==L,"assigned"); bool b=((holds_alternative<Alt<C,K>>(var)==(K==L)) && ...); claim(b,"the alternative test is true exactly for the stored alternative");
    static_assert(!std::is_convertible_v<C,W> && std::is_constructible_v<W,C> && !std::is_constructible_v<W,Alt<long long,5>>); }
template<class C, C... K> void constructed() { (constructed_from<C,K,K...>(), ...); }
template<class C, C... K> void held() { using W=CodedVariant<C,Alt<C,K>...>; int k=any_int(); C c=static_cast<C>(k); W var(c); bool b=((holds_alternative<Alt<C,K>>(var)==(c==K)) && ...); claim(b,"the alternative test compares with the stored code"); }
constexpr Kind kd(int i) { return static_cast<Kind>(i); }
}
#define ALL_OF(N,C,...) void spec_C21_visit_##N() { visited<C,__VA_ARGS__>(); } void spec_C21_visitors_##N() { other_visitors<C,__VA_ARGS__>(); } void spec_C21_construct_##N() { constructed<C,__VA_ARGS__>(); held<C,__VA_ARGS__>(); }
void spec_C21_visit_0() { int calls=0; CodedVariant<int> var(any_int()); auto v=[&calls](){ ++calls; }; spec::aborts(calls); var.accept(v); spec::never("visiting a variant without alternatives aborts"); }
ALL_OF(1,int,5)
ALL_OF(2,int,1,0)
ALL_OF(3,int,-1,70000,4)
ALL_OF(4,char,'b','a','z','c')
ALL_OF(5,unsigned char,0,1,2,128,255)
ALL_OF(6,int,2,3,5,7,11,13)
ALL_OF(7,Kind,kd(6),kd(5),kd(4),kd(3),kd(2),kd(1),kd(0))
ALL_OF(8,short,1,2,3,4,-4,-3,-2,-1)
ALL_OF(9,int,0,1,2,3,4,5,6,7,8)
ALL_OF(10,unsigned int,9,8,7,6,5,4,3,2,1,0)
ALL_OF(11,int,10,20,30,40,50,60,70,80,90,100,110)
ALL_OF(12,int,1,65537,2,65538,3,65539,256,257,258,512,513,0)
ALL_OF(13,int,12,11,10,9,8,7,6,5,4,3,2,1,0)
ALL_OF(14,int,0,1,2,3,4,5,6,7,8,9,10,11,12,13)
ALL_OF(15,int,7,8,9,10,11,12,13,14,0,1,2,3,4,5,6)
ALL_OF(16,int,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1)
ALL_OF(16e,Kind,kd(-8),kd(-7),kd(-6),kd(-5),kd(-4),kd(-3),kd(-2),kd(-1),kd(1000000),kd(1000001),kd(1000002),kd(1000003),kd(1000004),kd(1000005),kd(1000006),kd(1000007))
