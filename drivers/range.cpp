/* C28: index ranges */
#include "range.hpp"
#include "spec.hpp"
using spec::claim; using spec::assume; using spec::any_word; using spec::any_size;
using Helper::Range; using Helper::range;

void spec_C28_members() {
    std::size_t a=any_word(), b=any_word(); assume(a<=b);
    Range const r(a,b);
    claim(r.start()==a,"the start is the first argument"); claim(r.stop()==b,"the stop is the second argument");
    claim(r.size()==b-a,"the size is the number of indices"); claim(r.stride()==1,"the stride is one"); }
void spec_C28_index() {
    std::size_t a=any_word(), b=any_word(), i=any_word(); assume(a<=b && i<b-a);
    Range const r(a,b); claim(r[i]==a+i,"element i is start plus i"); }
void spec_C28_made() {
    std::size_t a=any_word(), b=any_word(), i=any_word(); assume(a<=b && i<b-a);
    Range r=range(a,b); claim(r.start()==a && r.stop()==b && r.size()==b-a && r[i]==a+i && r.stride()==1,"a range made of two indices is the range between them"); }
void spec_C28_from_zero() {
    std::size_t b=any_word(), i=any_word(); assume(i<b);
    Range r=range(b); claim(r.start()==0 && r.stop()==b && r.size()==b && r[i]==i && r.stride()==1,"a range of one argument starts at zero"); }
void spec_C28_copies() {
    std::size_t a=any_word(), b=any_word(); assume(a<=b); std::size_t c=any_word(), d=any_word(); assume(c<=d);
    Range r(a,b), s(r), t(c,d); t=r; claim(s.start()==a && s.stop()==b && t.start()==a && t.stop()==b,"copies are the same range"); }
void spec_C28_iterates() {
    std::size_t a=any_word(), b=any_word(); assume(a<=b);
    std::size_t k=a;
    for(auto i : range(a,b)) { claim(i==k,"the indices come in order, none left out"); claim(i<b,"none reaches the stop"); ++k; }
    claim(k==b,"all are produced"); }
void spec_C28_iterates_from_zero() {
    std::size_t b=any_word(), k=0;
    for(std::size_t i : range(b)) { claim(i==k,"the indices come in order, none left out"); ++k; }
    claim(k==b,"all are produced"); }
void spec_C28_nothing() {
    std::size_t a=any_word(); 
    for(auto i : range(a,a)) { spec::never("an empty range produces an index"); (void)i; }
    for(auto i : range(0)) { spec::never("an empty range produces an index"); (void)i; }
    claim(range(a,a).size()==0,"an empty range has size zero"); }
void spec_C28_iterators() {
    std::size_t a=any_word(), b=any_word(); assume(a<=b);
    Range r(a,b); auto i=begin(r); auto e=end(r);
    claim((i!=e)==(a!=b),"begin and end differ unless the range is empty");
    if(a!=b) { claim(*i==a,"iteration begins at the start"); auto& j=++i; claim(&j==&i,"incrementing returns the iterator"); claim(*i==a+1,"and moves on by one"); claim((i!=e)==(a+1!=b),"until the end"); } }
void spec_C28_twice() {
    std::size_t a=any_size(), b=any_size(); assume(a<=b); std::size_t n=0; Range r(a,b);
    for(auto i : r) { (void)i; ++n; }
    for(auto i : r) { (void)i; ++n; }
    claim(n==2*(b-a) && r.start()==a && r.stop()==b,"a range can be iterated again"); }
