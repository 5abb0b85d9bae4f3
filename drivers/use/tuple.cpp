#include "tuple.hpp"
#include "values.hpp"
#include <string>
using namespace Helper;
using probe::any;
void uses() {
    int i=1; double d=2; std::string s; Pair<int,double> p=make_pair(1,2.5); make_lpair(i,d)=p; Tuple<int,double,std::string> t=make_tuple(1,2.5,std::string()); make_ltuple(i,d,s)=t; Tuple<int,int,int,int,int> f(1,2,3,4,5); Tuple<int,int,int,int,int> const& k=f;
    get_first(p)=2; get_second(p)=3; get_first(f)=get_second(f)=get_third(f)=get_fourth(f)=get_fifth(f)=7; i=get_first(k)+get_second(k)+get_third(k)+get_fourth(k)+get_fifth(k); i=get_first(make_tuple(1,2)); s=get_third(static_cast<Tuple<int,double,std::string>&&>(t)); make_lpair(any<probe::Plain>(),i)=Pair<probe::Plain const&,int>(any<probe::Plain>(),3); make_ltuple(i)=make_tuple(3); make_ltuple(); Pair<int&,double&> lp=make_lpair(i,d); Tuple<int&,double&> lt=make_ltuple(i,d); (void)lp; (void)lt;
}
