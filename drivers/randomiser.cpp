#include "randomiser.hpp"
#include <type_traits>
#include <utility>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::assume; using spec::any; using spec::draws; using spec::uniform; using spec::shared_source; using spec::seeded_from_entropy;

namespace {
template<class T> T input() { if constexpr(std::is_floating_point_v<T>) return static_cast<T>(spec::any_double()); else if constexpr(sizeof(T)<=4) return static_cast<T>(spec::any_int()); else return static_cast<T>(spec::any_int())*70000; }
template<class R, class T> void drawn() { T lo=input<T>(), hi=input<T>(); assume(lo<=hi); R r(lo,hi); claim(draws()==0,"making a randomiser draws nothing");
    T x=r.get(); claim(draws()==1,"a call is one draw"); claim(uniform(x,lo,hi),"uniform from the minimum to the maximum"); T y=r.get(); claim(draws()==2,"each call is a fresh draw"); claim(uniform(y,lo,hi),"from the same interval"); T z=r.get(); claim(draws()==3 && uniform(z,lo,hi),"and so on"); claim(shared_source(),"the shared generator is used, in turn, and neither copied nor seeded again"); claim(seeded_from_entropy(),"it is seeded from entropy"); }
template<class R, class T> void many() { T lo=input<T>(), hi=input<T>(), lo2=input<T>(), hi2=input<T>(); assume(lo<=hi && lo2<=hi2); R r(lo,hi); R const s(lo2,hi2); R t(s);
    claim(uniform(r.get(),lo,hi),"the first"); claim(uniform(t.get(),lo2,hi2),"the second"); claim(uniform(r.get(),lo,hi),"the first again"); t=r; claim(uniform(t.get(),lo,hi),"after assignment"); claim(draws()==4,"one draw per call"); claim(shared_source() && seeded_from_entropy(),"all share one generator"); }
template<class R, class T> void interface() { T lo=input<T>(), hi=input<T>(); assume(lo<=hi); RandomiserInterface<T>* p=new R(lo,hi); claim(uniform(p->get(),lo,hi),"through the interface"); delete p; static_assert(std::has_virtual_destructor_v<RandomiserInterface<T>>); static_assert(std::is_base_of_v<RandomiserInterface<T>,R>); claim(draws()==1 && shared_source() && seeded_from_entropy(),"one draw"); }
}
#define KIND(R,T,N) static_assert(std::is_same_v<decltype(std::declval<R<T>&>().get()),T>); void spec_C22_drawn_##N() { drawn<R<T>,T>(); } void spec_C22_many_##N() { many<R<T>,T>(); } void spec_C22_interface_##N() { interface<R<T>,T>(); }
KIND(UniformIntRandomiser,int,int) KIND(UniformIntRandomiser,long,long) KIND(UniformIntRandomiser,unsigned int,unsigned) KIND(UniformIntRandomiser,unsigned long,ulong) KIND(UniformIntRandomiser,short,short)
KIND(UniformRealRandomiser,double,double) KIND(UniformRealRandomiser,float,float) KIND(UniformRealRandomiser,long double,ldouble)
void spec_C22_mixed() { int a=spec::any_int(), b=spec::any_int(); assume(a<=b); double x=spec::any_double(), y=spec::any_double(); UniformIntRandomiser<int> i(a,b); UniformRealRandomiser<double> r(x,y); claim(uniform(i.get(),a,b),"integer"); claim(uniform(r.get(),x,y),"real"); claim(uniform(i.get(),a,b),"integer again"); claim(draws()==3 && shared_source() && seeded_from_entropy(),"randomisers of both kinds share the generator"); }
