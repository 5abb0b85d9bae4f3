#include "stopwatch.hpp"
#include <type_traits>
#include <utility>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::any_bool; using spec::readings; using spec::reading; using spec::exact_seconds;

namespace {
using Nano = std::chrono::nanoseconds; using Hours = std::chrono::hours; using Third = std::chrono::duration<long,std::ratio<1,3>>; using Real = std::chrono::duration<double>; using RealMilli = std::chrono::duration<double,std::milli>;
// the interval as the unit gives it
template<class D> D in(long ns) { return std::chrono::duration_cast<D>(Nano(ns)); }
template<class D> void shows(Stopwatch<D> const& w, long from, long to) {
    claim(w.duration()==in<D>(to-from),"the duration is click minus start in the unit"); claim(exact_seconds(w.elapsed_seconds(),to-from),"elapsed seconds is the same interval, not rounded to the unit");
    claim(w.duration()>=D(0) && w.elapsed_seconds()>=0,"neither is negative"); claim(spec::steady(),"no adjustment of the system clock matters"); }
#define ZEROED(w) claim((w).duration()==D(0) && (w).elapsed_seconds()==0,"start and click are the same instant")
template<class D> void history() {
    Stopwatch<D> w; claim(readings()==1,"creating takes one instant"); ZEROED(w); shows(w,reading(0),reading(0)); int s=0, c=0;
    for(int i=0; i!=3; ++i) { int k=readings();
        if(any_bool()) { Stopwatch<D>& r=w.click(); claim(&r==&w,"a click returns the stopwatch"); claim(readings()==k+1,"a click takes the current time"); c=k; }
        else { Stopwatch<D>& r=w.restart(); claim(&r==&w,"restarting returns the stopwatch"); claim(readings()==k+1,"restarting takes one instant"); s=c=k; ZEROED(w); }
        k=readings(); shows(w,reading(s),reading(c)); shows(w,reading(s),reading(c)); claim(readings()==k,"queries read no clock"); }
}
template<class D> void copies() { Stopwatch<D> w; w.click(); Stopwatch<D> v(w); w.click(); shows(v,reading(0),reading(1)); shows(w,reading(0),reading(2)); v.restart(); shows(w,reading(0),reading(2)); ZEROED(v); v=w; w.restart(); shows(v,reading(0),reading(2)); v.click(); shows(v,reading(0),reading(5)); ZEROED(w); }
template<class D> void chained() { Stopwatch<D> w; w.click().click().restart().click(); claim(readings()==5,"each takes one instant"); shows(w,reading(3),reading(4)); }
}
#define UNIT(D) static_assert(std::is_same_v<decltype(std::declval<Stopwatch<D> const&>().duration()),D> && std::is_same_v<decltype(std::declval<Stopwatch<D> const&>().elapsed_seconds()),double>); \
    void spec_C23_history_##D() { history<D>(); } void spec_C23_copies_##D() { copies<D>(); } void spec_C23_chained_##D() { chained<D>(); }
UNIT(Seconds) UNIT(Milliseconds) UNIT(Microseconds) UNIT(Nano) UNIT(Hours) UNIT(Third) UNIT(Real) UNIT(RealMilli)
