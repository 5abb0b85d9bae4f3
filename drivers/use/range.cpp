#include "range.hpp"
#include "values.hpp"
using namespace Helper;
void uses() {
    Range a=range(3); Range b=range(1,4); Range c(1u,3u); Range const& k=a; size_t n=k[0]+k.size()+k.start()+k.stop()+k.stride(); for(size_t i : range(5)) { n+=i; } for(auto i : range(2,5)) { n+=i; } for(auto i : k) { n+=i; } RangeIterator p=begin(a), q=end(k); bool d=(p!=q); ++p; n=*q; (void)d; a=b; RangeIterator e(3); for(RangeIterator const& f=e; f!=q; ) { n+=*f; break; } (void)n;
}
