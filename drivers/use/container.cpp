#include "container.hpp"
#include "values.hpp"
using namespace Helper;
using probe::any;
template class Helper::List<int>;
template class Helper::List<double>;
template class Helper::List<std::string>;
template class Helper::List<Helper::List<int>>;
template class Helper::List<Helper::Set<int>>;
template class Helper::LinkedList<int>;
template class Helper::LinkedList<std::string>;
template class Helper::Set<int>;
template class Helper::Set<double>;
template class Helper::Set<std::string>;
template class Helper::Set<Helper::List<int>>;
template class Helper::Set<Helper::Set<int>>;
template class Helper::Map<int,double>;
template class Helper::Map<std::string,std::string>;
template class Helper::Map<std::string,Helper::List<int>>;
template class Helper::Map<int,Helper::Map<int,int>>;

template<class T> void lists() {
    T& x=any<T>(); List<T> a; List<T> b(3u,x); List<T> c{x,x}; List<T> d(any<std::vector<T>>()); List<T> e(x); List<T> f(b.begin(),b.end()); List<T> g=any<std::vector<T>>(); List<T> h(b); List<T> m(static_cast<List<T>&&>(b));
    a=b; a=static_cast<List<T>&&>(c); a.append(x); a.append(any<std::vector<T>>()); a.append(b); a.concatenate(any<std::vector<T>>()); a.concatenate(b);
    List<T> j=catenate(a,b); j=catenate(a,x);
    List<int> k=Helper::apply([](T const&) { return 1; },a); List<T> l=Helper::apply([](T y) { return y; },a); k=Helper::apply(any<int(T const&)>(),a);
    k=elementwise([](T const&) { return 1; },a); k=elementwise([](T const&,T const&) { return 1; },a,b); l=elementwise(any<T(T const&,T const&)>(),a,b); l=elementwise(any<T(T const&,int)>(),a,k); l=elementwise(any<T(T const&)>(),a);
    Array<T> u=make_array(x); u=make_array(any<std::vector<T>>()); u=make_array(u); List<T> v=make_list(x); v=make_list(any<std::vector<T>>()); v=make_list(u);
    LinkedList<T> n; LinkedList<T> o(3u,x); LinkedList<T> p(any<std::list<T>>()); LinkedList<T> q(a); LinkedList<T> r(n); LinkedList<T> s(a.begin(),a.end()); n=o;
    n.append(x); n.append(o); n.concatenate(o);
    for(typename List<T>::Iterator i=a.begin(); i!=a.end(); ++i) { x=*i; }
    for(typename List<T>::ConstIterator i=a.begin(); i!=a.end(); ++i) { x=*i; }
    for(typename LinkedList<T>::ConstIterator i=n.begin(); i!=n.end(); ++i) { x=*i; }
    for(typename LinkedList<T>::Iterator i=n.begin(); i!=n.end(); ++i) { x=*i; }
}
template<class T> void sets() {
    T& x=any<T>(); std::set<T>& ss=any<std::set<T>>(); std::vector<T>& sv=any<std::vector<T>>();
    Set<T> a; Set<T> b{x,x}; Set<T> c(sv); Set<T> d(ss); Set<T> e(ss.begin(),ss.end()); Set<T> f=ss; Set<T> g(a); Set<T> h(static_cast<Set<T>&&>(b)); a=b; a=static_cast<Set<T>&&>(b); List<T> l(a); l=static_cast<List<T>>(a);
    bool q=a.contains(x)&&a.subset(ss)&&a.subset(b)&&a.disjoint(ss)&&a.disjoint(b)&&a.disjoint(sv)&&a.disjoint(l);
    a.adjoin(ss).adjoin(b).remove(x).remove(ss).remove(b).restrict(ss).restrict(b).remove(sv).remove(l);
    Set<int> k=Helper::apply([](T const&) { return 1; },a); Set<T> m=Helper::apply(any<T(T const&)>(),a);
    a=join(a,b); q=contains(ss,x)&&contains(a,x)&&subset(ss,ss)&&subset(a,b)&&disjoint(ss,ss)&&disjoint(a,b)&&disjoint(ss,sv)&&disjoint(a,l);
    a=intersection(ss,ss); a=intersection(a,b); a=intersection(ss,sv); a=intersection(a,l); a=difference(ss,ss); a=difference(a,b); ss=remove(ss,a); ss=restrict(ss,a);
    q=unique_elements(sv)&&unique_elements(l); a=duplicate_elements(sv); a=duplicate_elements(l); a=make_set(sv); a=make_set(l); l=make_list(a); (void)q;
    for(typename Set<T>::Iterator i=a.begin(); i!=a.end(); ++i) { } for(typename Set<T>::ConstIterator i=a.begin(); i!=a.end(); ++i) { }
}
template<class K, class T> void maps() {
    K& k=any<K>(); T& x=any<T>(); std::map<K,T>& sm=any<std::map<K,T>>(); std::set<K>& sk=any<std::set<K>>();
    Map<K,T> a; Map<K,T> b{{k,x},{k,x}}; Map<K,T> c(sm); Map<K,T> d=sm; Map<K,T> e(sm.begin(),sm.end()); Map<K,T> f(a); a=f; a=static_cast<Map<K,T>&&>(f); Map<K,T> const& n=a;
    x=n[k]; x=a.get(k); x=n.get(k); bool q=n.has_key(k); a.value(k)=x; x=n.value(k); a.insert(any<std::pair<K,T>>()); a.insert(k,x); a.insert(typename std::map<K,T>::value_type(k,x)); a.adjoin(sm); a.adjoin(f); a.remove_keys(any<Set<K>>());
    Set<K> ks=n.keys(); List<T> vs=n.values(); a=join(a,f); T& r=Helper::insert(a,k,x); a=restrict_keys(sm,sk); a=restrict_keys(a,ks); (void)q; (void)r; 
    for(typename Map<K,T>::Iterator i=a.begin(); i!=a.end(); ++i) { i->second=x; } for(typename Map<K,T>::ConstIterator i=a.begin(); i!=a.end(); ++i) { }
}
template<class T> void print() {
    std::ostream& os=any<std::ostream>();
    os << any<Array<T>>() << any<SharedArray<T>>() << any<List<T>>() << any<std::vector<T>>() << any<LinkedList<T>>() << any<std::list<T>>() << any<Set<T>>() << any<std::set<T>>() << any<Map<int,T>>() << any<std::map<T,int>>() << any<std::pair<T,T>>() << any<std::tuple<T,int,T>>();
}
void uses() {
    lists<int>(); lists<double>(); lists<std::string>(); lists<probe::Plain>(); lists<probe::Ordered>(); lists<std::pair<int,double>>();
    sets<int>(); sets<double>(); sets<std::string>(); sets<probe::Ordered>(); sets<List<int>>();
    maps<int,int>(); maps<int,double>(); maps<std::string,int>(); maps<probe::Ordered,double>(); maps<int,probe::Defaulted>(); maps<int,List<int>>();
    print<int>(); print<double>(); print<std::string>(); print<List<int>>(); print<Set<int>>(); print<Map<int,int>>(); print<std::pair<int,double>>();
    Map<std::string,int> m; m["x"]=1; m.insert("y",2); int y=m.get("y")+m.value("y"); m.has_key("y"); (void)y;
    Map<int,probe::Plain> p; p.insert(1,any<probe::Plain>()); any<probe::Plain>()=p.get(1); p.value(1); p.adjoin(p); p.keys(); p.values();
    List<double> l(any<List<int>>()); l=any<std::vector<int>>(); List<probe::FromPlain> e(any<List<probe::Plain>>()); Set<double> s(any<Set<int>>()); Set<double> v(any<List<int>>()); Map<int,double> k(any<Map<int,int>>());
    LinkedList<int> n(3u); LinkedList<double> x(any<List<int>>()); LinkedList<double> z(any<LinkedList<int>>()); LinkedList<probe::Defaulted> d(4u);
    List<int> c=catenate(List<int>{1,2},3); c=catenate(c,c); Set<int> t=join(Set<int>{1},Set<int>{2}); Set<std::string> w={"a","b"}; List<std::string> u={"a","b"};
    Set<probe::Ordered> q(any<std::set<probe::Ordered>>()); List<int> nums(3); List<int> range(std::vector<int>{1,2}); any<std::istream>() >> c;
}
