#include "array.hpp"
#include "values.hpp"
#include <string>
#include <list>
#include <vector>
using namespace Helper;
using probe::any;
template class Helper::Array<int>;
template class Helper::Array<bool>;
template class Helper::Array<char>;
template class Helper::Array<double>;
template class Helper::Array<size_t>;
template class Helper::Array<int*>;
template class Helper::Array<std::string>;
template class Helper::Array<Helper::Array<int>>;
template class Helper::SharedArray<int>;
template class Helper::SharedArray<double>;
template class Helper::SharedArray<std::string>;

template<class T> void members() {
    Array<T> a; Array<T> n(5u,any<T>()); Array<T> i({any<T>(),any<T>()}); Array<T> u(3u,Uninitialised());
    Array<T> c(a); Array<T> m(static_cast<Array<T>&&>(a)); a=c; a=static_cast<Array<T>&&>(c);
    Array<T> r(any<std::vector<T>>().begin(),any<std::vector<T>>().end());
    Array<T> l(any<std::list<T>>().begin(),any<std::list<T>>().end());
    Array<T> p(any<T const*>(),any<T const*>());
    Array<T> g(3u,[](size_t)->T { return any<T>(); });
    a.resize(4u,any<T>()); a.swap(c); a.fill(any<T>()); a.fill(c.begin()); a.fill(any<std::list<T>>().begin());
    bool e=a.empty(); size_t s=a.size()+a.max_size(); T& x=a[s]; x=a.at(s); x=a.front(); x=a.back();
    Array<T> const& k=a; T const& y=k[s]; x=y; x=k.at(s); x=k.front(); x=k.back(); (void)e;
    typename Array<T>::Iterator it=a.begin(); it=a.end(); typename Array<T>::ConstIterator kt=k.begin(); kt=k.end();
    for(T& z : a) { x=z; } for(T const& z : k) { x=z; }
}
template<class T> void shared() {
    SharedArray<T> a(4u); SharedArray<T> b(4u,any<T>()); SharedArray<T> l(InitializerList<T>{any<T>(),any<T>()}); SharedArray<T> c(a); a=c;
    size_t n=a.size(); T& x=a[n]; SharedArray<T> const& k=a; T const& y=k[n]; x=y;
    for(T& z : a) { x=z; } for(T const& z : k) { x=z; }
}
void uses() {
    members<int>(); members<bool>(); members<double>(); members<std::string>(); members<probe::Plain>(); members<probe::Ordered>(); members<probe::Defaulted>(); members<int*>(); members<Array<double>>();
    shared<int>(); shared<double>(); shared<std::string>(); shared<probe::Defaulted>(); shared<Array<int>>();
    Array<int> a(5,1); Array<int> b(5); Array<double> d(5,1); Array<double> e(5u,1.5); Array<std::string> w(3u,"x"); Array<size_t> s(3u,0u); Array<probe::Defaulted> f(3u);
    Array<int> t={1,2,3}; Array<std::string> v={"a","b"}; Array<double> from(a); Array<double> conv=a; Array<probe::FromInt> fi=a;
    Array<probe::FromPlain> ex(any<Array<probe::Plain>>()); Array<probe::FromPlain> pr({1.5,2.5},3); Array<probe::FromPlain> px(any<Array<probe::Plain>>(),3);
    a.fill(7); d.fill(1); d.fill(any<std::vector<int>>().begin()); w.fill("x"); a.resize(3); a.resize(3u); f.resize(3); a.resize(3,1); a.reallocate(3); f.reallocate(2);
    a.assign(b.begin(),b.end()); a.assign(any<std::list<int>>().begin(),any<std::list<int>>().end());
    bool q=(a==b)&&(a!=b)&&(v==w)&&(v!=w)&&(any<Array<probe::Comparable>>()==any<Array<probe::Comparable>>())&&(any<Array<Array<int>> const>()==any<Array<Array<int>> const>()); (void)q;
    Array<size_t> c=complement(5u,s);
    SharedArray<double> sd(3); sd[0]=2;
}
