#include "variant.hpp"
#include "values.hpp"
using namespace Helper;
struct A { static constexpr char code() { return 'A'; } }; struct B { static constexpr char code() { return 'B'; } };
template class Helper::CodedVariant<char,A,B>;
void uses() { CodedVariant<char,A,B> a('A'); CodedVariant<char,A,B> b=B(); a=b; a=A(); bool q=holds_alternative<A>(a)&&(a.code()=='B'); (void)q; Variant<int,char> v(3); v='c'; }
