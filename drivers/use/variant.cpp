#include "variant.inl.hpp"
#include "values.hpp"
#include <string>
using namespace Helper;
using probe::any;
enum class Code { A, B, C };
template<int N> struct Alt { static constexpr int code() { return N; } };
struct A { static constexpr Code code() { return Code::A; } }; struct B { static constexpr Code code() { return Code::B; } }; struct C { static constexpr Code code() { return Code::C; } };
typedef CodedVariant<Code,A,B,C> V;
template<int... NS> struct Sized { typedef CodedVariant<int,Alt<NS>...> Type; };
struct Visitor { template<int N> int operator()(Alt<N>) const; std::string operator()(A) const; std::string operator()(B) const; std::string operator()(C) const; };
template<class W> void visits(W const& v) { int i=v.accept(Visitor()); i+=v.accept([](auto a) { return a.code(); }); v.accept([](auto) { }); W c(v); c=v; i+=v.code(); (void)i; }
template class Helper::CodedVariant<Code,A,B,C>;
template class Helper::CodedVariant<int,Alt<1>>;
void uses() {
    V a(Code::A); V b=B(); V c=V(C()); a=b; a=C(); std::string s=a.accept(Visitor()); Code k=a.code(); bool q=holds_alternative<A>(a)&&holds_alternative<C>(a); (void)q; (void)k; Variant<int,std::string> v(3); v=std::string();
    visits(Sized<1>::Type(1)); visits(Sized<1,2>::Type(Alt<2>())); visits(Sized<1,2,3>::Type(1)); visits(Sized<1,2,3,4>::Type(1)); visits(Sized<1,2,3,4,5>::Type(1)); visits(Sized<1,2,3,4,5,6>::Type(1)); visits(Sized<1,2,3,4,5,6,7>::Type(1)); visits(Sized<1,2,3,4,5,6,7,8>::Type(1)); visits(Sized<1,2,3,4,5,6,7,8,9>::Type(1)); visits(Sized<1,2,3,4,5,6,7,8,9,10>::Type(1));
    visits(Sized<1,2,3,4,5,6,7,8,9,10,11>::Type(1)); visits(Sized<1,2,3,4,5,6,7,8,9,10,11,12>::Type(1)); visits(Sized<1,2,3,4,5,6,7,8,9,10,11,12,13>::Type(1)); visits(Sized<1,2,3,4,5,6,7,8,9,10,11,12,13,14>::Type(1)); visits(Sized<1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>::Type(1)); visits(Sized<1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16>::Type(1));
    CodedVariant<int> n(1); n.code(); n.accept([](auto) { });
}
