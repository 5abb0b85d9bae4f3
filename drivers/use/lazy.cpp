#include "lazy.hpp"
#include "values.hpp"
#include <string>
using namespace Helper;
using probe::any;
template class Helper::Lazy<int>;
template class Helper::Lazy<std::string>;
template class Helper::Lazy<probe::Plain>;
namespace probe { int* produce(); struct Producer { std::string* operator()() const; }; struct Abstract { virtual ~Abstract(); virtual int f() const=0; }; struct Derived : Abstract { int f() const override; }; Derived* derived(); }
void uses() {
    int n=3; Lazy<int> a([n]() { return new int(n); }); Lazy<int> b(probe::produce); Lazy<int> c(&probe::produce); Lazy<std::string> s=Lazy<std::string>(probe::Producer()); Lazy<int> d(a); Lazy<int> e(static_cast<Lazy<int>&&>(a)); a=b; a=static_cast<Lazy<int>&&>(b);
    Lazy<int> const& k=a; int x=k()+a(); (void)x; std::string const& t=s(); (void)t; Lazy<probe::Abstract> f(probe::derived); f().f(); Lazy<probe::Plain> p(any<function<probe::Plain*()>>()); probe::Plain const& q=p(); (void)q;
}
