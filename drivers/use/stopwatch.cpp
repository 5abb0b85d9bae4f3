#include "stopwatch.hpp"
#include "values.hpp"
using namespace Helper;
template class Helper::Stopwatch<Seconds>;
template class Helper::Stopwatch<Milliseconds>;
template class Helper::Stopwatch<Microseconds>;
template class Helper::Stopwatch<std::chrono::nanoseconds>;
template class Helper::Stopwatch<std::chrono::minutes>;
template class Helper::Stopwatch<std::chrono::hours>;
template class Helper::Stopwatch<std::chrono::duration<double>>;
void uses() {
    Stopwatch<Milliseconds> a; a.restart(); a.click(); auto n=a.click().duration().count(); double s=a.restart().click().elapsed_seconds(); Stopwatch<Milliseconds> const& k=a; Milliseconds d=k.duration(); s+=k.elapsed_seconds(); (void)n; (void)d; Stopwatch<Milliseconds> b(a); b=a; Stopwatch<Microseconds> c; Microseconds u=c.duration(); (void)u; Stopwatch<Seconds> e; Seconds t=e.click().duration(); (void)t;
}
