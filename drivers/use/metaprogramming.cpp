#include "metaprogramming.hpp"
#include "values.hpp"
using namespace Helper;
template<Convertible<int> T> int f(T t) { return t; }
template<ConvertibleTo<int> T> int g(T t) { return t; }
template<ExplicitlyConvertibleTo<int> T> int h(T t) { return static_cast<int>(t); }
template<OneOf<int,char> T> T one(T t) { return t; }
template<class F, class A> requires Invocable<F,A> InvokeResult<F,A> call(F f, A a) { return f(a); }
template<class F> requires InvocableReturning<int,F,int> int ret(F f) { return f(1); }
template<class T> requires Constructible<T,int> and CopyConstructible<T> and DefaultConstructible<int> T make() { return T(1); }
template<class B, DerivedFrom<B> T> void derived(T&) { }
struct Cast { explicit operator int() const; }; struct Base { }; struct Derived : Base { };
void uses() { f(1); g('c'); h(Cast()); one(1); one('c'); call([](int i) { return i; },1); ret([](int) { return 2; }); make<probe::Plain>(); Derived d; derived<Base>(d); static_assert(Same<InvokeResult<int(*)(int),int>,int>); }
