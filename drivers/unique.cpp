#include "container.hpp"
#include <stdexcept>
#include <utility>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::any_elems; using spec::any_size; using spec::any_bool; using spec::same; using spec::assume; using std::size_t;

namespace probe {
#ifdef KIND_NUMBER
typedef KIND_NUMBER E;
#else
struct E { SPECIALS(E)
    friend bool operator==(E const&, E const&); friend bool operator!=(E const&, E const&); friend bool operator<(E const&, E const&); friend bool operator>(E const&, E const&); };
#endif
}
using probe::E;
using VE=std::vector<E>;

// any list: a repeated value at any two positions
#define REPEATED E& y=spec::any<E>(); spec::named(y); size_t n=any_size(), m=any_size(), p=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); E const* u=any_elems<E>(p); VE l(s,s+n); l.push_back(y); l.insert(l.end(),t,t+m); l.push_back(y); l.insert(l.end(),u,u+p); VE const& cl=l;
void spec_C14_repeated_unique() { REPEATED; claim(!unique_elements(cl),"a list with a repeated element does not have unique elements"); claim(l.size()==n+m+p+2 && same(l[n],y),"the list is unchanged"); }
void spec_C14_repeated_duplicate() { E& y=spec::any<E>(); spec::named(y); size_t m=any_size(); E const* t=any_elems<E>(m); VE l; l.push_back(y); l.insert(l.end(),t,t+m); l.push_back(y); VE const& cl=l; Set<E> d=duplicate_elements(cl); claim(d.count(y)==1,"a repeated element is a duplicate"); claim(l.size()==m+2 && same(l[0],y),"the list is unchanged"); }
void spec_C14_repeated_duplicate_kept() { E& y=spec::any<E>(); spec::named(y); size_t m=any_size(); E const* t=any_elems<E>(m); VE l; l.push_back(y); l.push_back(y); l.insert(l.end(),t,t+m); VE const& cl=l; Set<E> d=duplicate_elements(cl); claim(d.count(y)==1,"a repeated element is a duplicate"); claim(l.size()==m+2 && same(l[0],y),"the list is unchanged"); }
void spec_C14_repeated_duplicate_late() { E& y=spec::any<E>(); spec::named(y); size_t m=any_size(); E const* t=any_elems<E>(m); VE l(t,t+m); l.push_back(y); l.push_back(y); VE const& cl=l; Set<E> d=duplicate_elements(cl); claim(d.count(y)==1,"a repeated element is a duplicate"); claim(l.size()==m+2 && same(l[m],y),"the list is unchanged"); }
void spec_C14_absent() { E& y=spec::any<E>(); spec::named(y); size_t n=any_size(); E const* s=any_elems<E>(n); VE l(s,s+n); VE const& cl=l; spec::assume_absent(s,n,y); Set<E> d=duplicate_elements(cl); claim(d.count(y)==0,"an element that does not occur is not a duplicate"); }
// all small lists
void spec_C14x_small() { E& y=spec::any<E>(); VE l; size_t m=0; if(any_bool()) { l.push_back(spec::any<E>()); } if(any_bool()) { l.push_back(spec::any<E>()); } if(any_bool()) { l.push_back(spec::any<E>()); } if(any_bool()) { l.push_back(spec::any<E>()); }
    VE const& cl=l; size_t n=l.size(); for(size_t i=0;i<n;++i) { if(l[i]==y) ++m; } Set<E> d=duplicate_elements(cl); claim((d.count(y)!=0)==(m>=2),"exactly the values that occur at two or more positions"); claim(l.size()==n,"the list is unchanged"); }
void spec_C14x_unique() { VE l; if(any_bool()) { l.push_back(spec::any<E>()); } if(any_bool()) { l.push_back(spec::any<E>()); } if(any_bool()) { l.push_back(spec::any<E>()); } if(any_bool()) { l.push_back(spec::any<E>()); }
    VE const& cl=l; size_t n=l.size(); bool rep=false; for(size_t i=0;i<n;++i) for(size_t j=0;j<i;++j) { if(l[i]==l[j]) rep=true; } bool u=unique_elements(cl); claim(u==!rep,"unique exactly when no two positions hold equal elements"); claim(l.size()==n,"the list is unchanged"); }

// larger lists of numbers, in no particular order, with and without one repetition
void spec_C14x_large() { spec::unroll(60); size_t n=0; while(n!=18 && any_bool()) ++n; assume(n!=11); int x=spec::any_int(); assume(x<1000000 && x>-1000000); std::vector<int> l; for(size_t i=0;i<n;++i) { l.push_back(x+static_cast<int>((i*11+5)%n)); } std::vector<int> const& cl=l; claim(unique_elements(cl),"a list without a repeated element has unique elements"); claim(duplicate_elements(cl).empty(),"and no duplicates");
    if(n>1) { size_t p = any_bool() ? 0 : n/2; size_t q = any_bool() ? n : p+1; int y=l[p]; l.insert(l.begin()+static_cast<std::ptrdiff_t>(q),y); claim(!unique_elements(cl),"a list with a repeated element does not"); Set<int> d=duplicate_elements(cl); claim(d.size()==1 && d.count(y)==1,"the repeated element is the duplicate"); } }
