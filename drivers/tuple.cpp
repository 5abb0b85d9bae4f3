/* C29: tuple accessors */
#include "tuple.hpp"
#include <array>
#include <memory>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::any;

namespace probe {
struct A { }; struct B { }; struct C { }; struct D { }; struct E { }; struct F { };
}
using probe::A; using probe::B; using probe::C; using probe::D; using probe::E; using probe::F;

/* The type of each access is the type of the direct access. */
template<std::size_t N, class T> using Direct = decltype(std::get<N>(std::declval<T>()));
template<class T, class U> constexpr bool Same_ = std::is_same<T,U>::value;
#define EVERY(ACC,N,T) \
    static_assert(Same_<decltype(ACC(std::declval<T&>())),Direct<N,T&>>); \
    static_assert(Same_<decltype(ACC(std::declval<T const&>())),Direct<N,T const&>>); \
    static_assert(Same_<decltype(ACC(std::declval<T&&>())),Direct<N,T&&>>);
#define EVERY2(...) EVERY(get_first,0,__VA_ARGS__) EVERY(get_second,1,__VA_ARGS__)
#define EVERY5(...) EVERY2(__VA_ARGS__) EVERY(get_third,2,__VA_ARGS__) EVERY(get_fourth,3,__VA_ARGS__) EVERY(get_fifth,4,__VA_ARGS__)
using P1 = Pair<A,B>; using P2 = Pair<A&,B const&>; using P3 = Pair<const int,std::unique_ptr<int>>; using P4 = std::pair<A&&,B>;
using T2 = Tuple<A,B>; using T5 = Tuple<A,B,C,D,E>; using T6 = Tuple<A&,B const&,const int,std::unique_ptr<int>,A&&,F>; using TS = Tuple<A,A,A,A,A>;
EVERY2(P1) EVERY2(P2) EVERY2(P3) EVERY(get_second,1,P4) EVERY2(T2) EVERY5(T5) EVERY5(TS)
EVERY2(T6) EVERY(get_third,2,T6) EVERY(get_fourth,3,T6)
using AR = std::array<A,5>;
EVERY5(AR)
static_assert(Same_<decltype(make_lpair(std::declval<A&>(),std::declval<B const&>())),std::pair<A&,B const&>>);
static_assert(Same_<decltype(make_ltuple(std::declval<A&>(),std::declval<B const&>(),std::declval<int&>())),std::tuple<A&,B const&,int&>>);
static_assert(Same_<Pair<A,B&>,std::pair<A,B&>> && Same_<Tuple<A,B&,C>,std::tuple<A,B&,C>>);

void spec_C29_pair() { Pair<A,B> p(any<A>(),any<B>()); claim(&get_first(p)==&p.first,"the first component"); claim(&get_second(p)==&p.second,"the second component");
    Pair<A,B> const& c=p; claim(&get_first(c)==&p.first && &get_second(c)==&p.second,"also of a constant pair"); }
void spec_C29_same_types() { Pair<A,A> p(any<A>(),any<A>()); claim(&get_first(p)==&p.first,"the first component"); claim(&get_second(p)==&p.second,"the second component");
    Tuple<A,A,A,A,A> t(any<A>(),any<A>(),any<A>(),any<A>(),any<A>());
    claim(&get_first(t)==&std::get<0>(t),"the first component"); claim(&get_second(t)==&std::get<1>(t),"the second component");
    claim(&get_third(t)==&std::get<2>(t),"the third component"); claim(&get_fourth(t)==&std::get<3>(t),"the fourth component"); claim(&get_fifth(t)==&std::get<4>(t),"the fifth component"); }
void spec_C29_tuple() { Tuple<A,B,C,D,E,F> t(any<A>(),any<B>(),any<C>(),any<D>(),any<E>(),any<F>());
    claim(&get_first(t)==&std::get<0>(t),"the first component"); claim(&get_second(t)==&std::get<1>(t),"the second component");
    claim(&get_third(t)==&std::get<2>(t),"the third component"); claim(&get_fourth(t)==&std::get<3>(t),"the fourth component"); claim(&get_fifth(t)==&std::get<4>(t),"the fifth component");
    auto const& c=t; claim(&get_first(c)==&std::get<0>(t) && &get_fifth(c)==&std::get<4>(t),"also of a constant tuple"); }
void spec_C29_moved() { A& a=any<A>(); B& b=any<B>(); Pair<A,B> p(a,b); A c(get_first(std::move(p))); claim(spec::same(p.second,b),"moving one component leaves the other"); B d(get_second(std::move(p))); claim(spec::same(c,a) && spec::same(d,b),"components can be moved out"); }
void spec_C29_assigned() { Pair<A,B> p(any<A>(),any<B>()); A& a=any<A>(); B& b=any<B>(); get_second(p)=b; get_first(p)=a; claim(spec::same(p.first,a) && spec::same(p.second,b),"assigning through an accessor assigns the component"); }
void spec_C29_lpair() { A a(any<A>()); B b(any<B>()); auto p=make_lpair(a,b); claim(&p.first==&a && &p.second==&b,"an lvalue pair refers to its arguments, in order"); 
    A& x=any<A>(); B& y=any<B>(); make_lpair(a,b)=make_pair(x,y); claim(spec::same(a,x) && spec::same(b,y),"assigning to it assigns its arguments"); }
void spec_C29_lpair_swap() { A a(any<A>()), b(any<A>()); auto p=make_lpair(a,b); claim(&p.first==&a && &p.second==&b,"an lvalue pair refers to its arguments, in order");
    A& x=any<A>(); A& y=any<A>(); make_lpair(a,b)=make_pair(x,y); claim(spec::same(a,x) && spec::same(b,y),"assigning to it assigns its arguments"); }
void spec_C29_ltuple() { A a(any<A>()), b(any<A>()), c(any<A>()); auto t=make_ltuple(a,b,c);
    claim(&std::get<0>(t)==&a && &std::get<1>(t)==&b && &std::get<2>(t)==&c,"an lvalue tuple refers to its arguments, in order");
    A& x=any<A>(); A& y=any<A>(); A& z=any<A>(); make_ltuple(a,b,c)=make_tuple(x,y,z); claim(spec::same(a,x) && spec::same(b,y) && spec::same(c,z),"assigning to it assigns its arguments"); }
void spec_C29_ltuple_mixed() { A a(any<A>()); B b(any<B>()); C c(any<C>()); D d(any<D>()); auto t=make_ltuple(a,b,c,d);
    claim(&get_first(t)==&a && &get_second(t)==&b && &get_third(t)==&c && &get_fourth(t)==&d,"an lvalue tuple refers to its arguments, in order"); auto e=make_ltuple(); (void)e; auto o=make_ltuple(b); claim(&get_first(o)==&b,"also of one component"); }
