#include "container.hpp"
#include "stlio.hpp"
#include <map>
#include <set>
#include <tuple>
#include <utility>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::any_elems; using spec::any_size; using spec::any_char; using spec::same; using spec::expect; using spec::then; using spec::each; using spec::separator; using spec::each_end; using spec::expected; using std::size_t;

namespace probe {
#ifdef KIND_NUMBER
typedef KIND_NUMBER E;
#else
struct E { SPECIALS(E)
    friend bool operator==(E const&, E const&); friend bool operator!=(E const&, E const&); friend bool operator<(E const&, E const&); friend std::ostream& operator<<(std::ostream&, E const&); };
#endif
struct D { SPECIALS(D) friend bool operator==(D const&, D const&); friend bool operator<(D const&, D const&); friend std::ostream& operator<<(std::ostream&, D const&); };
struct P { P(P const&); ~P(); P& operator=(P const&); E operator*() const; };                        // points to an element
struct T { T(T const&); ~T(); T& operator=(T const&); D index() const; E coefficient() const; };     // a term of a polynomial
}
using probe::E; using probe::D; using probe::P; using probe::T;
using std::ostream;

namespace {
// n elements of s between delimiters
void sequence(ostream& os, E const* s, size_t n, char o, char c, char p) { expect(os); then(os,o); if(n!=0) { size_t i=each(os,n); then(os,s[i]); separator(os); then(os,p); each_end(os); } then(os,c); }
}
#define BLOCK ostream& os=spec::stream(); size_t n=any_size(); E const* s=any_elems<E>(n);
void spec_C15_write_sequence() { BLOCK; char o=any_char(), c=any_char(), p=any_char(); sequence(os,s,n,o,c,p); ostream& r=write_sequence(os,s,s+n,o,c,p); claim(&r==&os,"returns the stream"); expected(os); claim(spec::untouched(s),"the sequence is not modified"); }
void spec_C15_write_sequence_default() { BLOCK; sequence(os,s,n,'[',']',','); write_sequence(os,s,s+n); expected(os); }
void spec_C15_write_sequence_delimiters() { BLOCK; char o=any_char(), c=any_char(); sequence(os,s,n,o,c,','); write_sequence(os,s,s+n,o,c); expected(os); }
void spec_C15_write_vector_iterators() { BLOCK; char o=any_char(), c=any_char(), p=any_char(); std::vector<E> v(s,s+n); sequence(os,s,n,o,c,p); write_sequence(os,v.begin(),v.end(),o,c,p); expected(os); }
void spec_C15_write_list_iterators() { BLOCK; char o=any_char(), c=any_char(), p=any_char(); std::list<E> v(s,s+n); sequence(os,s,n,o,c,p); write_sequence(os,v.begin(),v.end(),o,c,p); expected(os); }
void spec_C15_write_pointer_sequence() { ostream& os=spec::stream(); size_t n=any_size(); P const* s=any_elems<P>(n); char o=any_char(), c=any_char(), p=any_char(); expect(os); then(os,o); if(n!=0) { size_t i=each(os,n); then(os,*s[i]); separator(os); then(os,p); each_end(os); } then(os,c); ostream& r=write_pointer_sequence(os,s,s+n,o,c,p); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15_write_pointer_sequence_default() { ostream& os=spec::stream(); size_t n=any_size(); P const* s=any_elems<P>(n); expect(os); then(os,'['); if(n!=0) { size_t i=each(os,n); then(os,*s[i]); separator(os); then(os,','); each_end(os); } then(os,']'); write_pointer_sequence(os,s,s+n); expected(os); }
#define TERMS ostream& os=spec::stream(); size_t n=any_size(); T const* s=any_elems<T>(n);
void spec_C15_write_coefficient_map_sequence() { TERMS; char o=any_char(), c=any_char(), p=any_char(), d=any_char(); expect(os); then(os,o); if(n!=0) { size_t i=each(os,n); then(os,s[i].index()); then(os,d); then(os,s[i].coefficient()); separator(os); then(os,p); each_end(os); } then(os,c); ostream& r=write_coefficient_map_sequence(os,s,s+n,o,c,p,d); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15_write_coefficient_map_sequence_default() { TERMS; expect(os); then(os,'{'); if(n!=0) { size_t i=each(os,n); then(os,s[i].index()); then(os,':'); then(os,s[i].coefficient()); separator(os); then(os,','); each_end(os); } then(os,'}'); write_coefficient_map_sequence(os,s,s+n); expected(os); }
void spec_C15_write_map_sequence() { ostream& os=spec::stream(); size_t n=any_size(); D const* t=any_elems<D>(n); E const* s=any_elems<E>(n); char o=any_char(), c=any_char(), p=any_char(), d=any_char(); std::vector<std::pair<D,E>> v; for(size_t i=0; i!=n; ++i) { v.push_back(std::pair<D,E>(t[i],s[i])); }
    expect(os); then(os,o); if(n!=0) { size_t i=each(os,n); then(os,t[i]); then(os,d); then(os,s[i]); separator(os); then(os,p); each_end(os); } then(os,c); ostream& r=write_map_sequence(os,v.begin(),v.end(),o,c,p,d); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15_write_map_pointer_sequence() { ostream& os=spec::stream(); size_t n=any_size(); D const* t=any_elems<D>(n); P const* s=any_elems<P>(n); char o=any_char(), c=any_char(), p=any_char(), d=any_char(); std::vector<std::pair<D,P>> v; for(size_t i=0; i!=n; ++i) { v.push_back(std::pair<D,P>(t[i],s[i])); }
    expect(os); then(os,o); if(n!=0) { size_t i=each(os,n); then(os,t[i]); then(os,d); then(os,*s[i]); separator(os); then(os,p); each_end(os); } then(os,c); ostream& r=write_map_pointer_sequence(os,v.begin(),v.end(),o,c,p,d); claim(&r==&os,"returns the stream"); expected(os); }

void spec_C15_vector() { BLOCK; std::vector<E> v(s,s+n); sequence(os,s,n,'[',']',','); std::vector<E> const& cv=v; ostream& r=Helper::operator<<(os,cv); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15_list() { BLOCK; List<E> v(s,s+n); sequence(os,s,n,'[',']',','); List<E> const& cv=v; ostream& r=(os << cv); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15_array() { BLOCK; Array<E> v(s,s+n); sequence(os,s,n,'[',']',','); Array<E> const& cv=v; ostream& r=(os << cv); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15_shared_array() { ostream& os=spec::stream(); size_t n=any_size(); E const& x=spec::any<E>(); SharedArray<E> v(n,x); expect(os); then(os,'['); if(n!=0) { each(os,n); then(os,x); separator(os); then(os,','); each_end(os); } then(os,']'); SharedArray<E> const& cv=v; ostream& r=(os << cv); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15_linked_list() { BLOCK; LinkedList<E> v(s,s+n); sequence(os,s,n,'[',']',','); LinkedList<E> const& cv=v; ostream& r=(os << cv); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15_pair() { ostream& os=spec::stream(); std::pair<D,E> const p(spec::any<D>(),spec::any<E>()); expect(os); then(os,'('); then(os,p.first); then(os,','); then(os,p.second); then(os,')'); ostream& r=(os << p); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15_tuple1() { ostream& os=spec::stream(); std::tuple<E> const p(spec::any<E>()); expect(os); then(os,'('); then(os,std::get<0>(p)); then(os,')'); ostream& r=(os << p); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15_tuple2() { ostream& os=spec::stream(); std::tuple<E,D> const p(spec::any<E>(),spec::any<D>()); expect(os); then(os,'('); then(os,std::get<0>(p)); then(os,','); then(os,std::get<1>(p)); then(os,')'); ostream& r=(os << p); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15_tuple4() { ostream& os=spec::stream(); std::tuple<E,D,int,E> const p(spec::any<E>(),spec::any<D>(),spec::any_int(),spec::any<E>()); expect(os); then(os,'('); then(os,std::get<0>(p)); then(os,','); then(os,std::get<1>(p)); then(os,','); then(os,std::get<2>(p)); then(os,','); then(os,std::get<3>(p)); then(os,')'); ostream& r=(os << p); claim(&r==&os,"returns the stream"); expected(os); }

// sets and maps, and nesting, on all small collections
void spec_C15x_set() { ostream& os=spec::stream(); Set<E> v; spec::fill(v); expect(os); then(os,'{'); bool f=true; for(auto i=v.begin(); i!=v.end(); ++i) { if(!f) then(os,','); f=false; then(os,*i); } then(os,'}'); Set<E> const& cv=v; ostream& r=(os << cv); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15x_map() { ostream& os=spec::stream(); Map<D,E> v; spec::fill(v); expect(os); then(os,'{'); if(v.empty()) then(os,' '); bool f=true; for(auto i=v.begin(); i!=v.end(); ++i) { if(!f) then(os,','); f=false; then(os,' '); then(os,i->first); then(os,':'); then(os,i->second); } if(!v.empty()) then(os,' '); then(os,'}'); Map<D,E> const& cv=v; ostream& r=(os << cv); claim(&r==&os,"returns the stream"); expected(os); }
void spec_C15x_write_set_sequence() { ostream& os=spec::stream(); Set<E> v; spec::fill(v); char o=any_char(), c=any_char(), p=any_char(); expect(os); then(os,o); bool f=true; for(auto i=v.begin(); i!=v.end(); ++i) { if(!f) then(os,p); f=false; then(os,*i); } then(os,c); write_sequence(os,v.begin(),v.end(),o,c,p); expected(os); }
void spec_C15x_write_map_sequence() { ostream& os=spec::stream(); Map<D,E> v; spec::fill(v); expect(os); then(os,'{'); bool f=true; for(auto i=v.begin(); i!=v.end(); ++i) { if(!f) then(os,','); f=false; then(os,i->first); then(os,':'); then(os,i->second); } then(os,'}'); write_map_sequence(os,v.begin(),v.end()); expected(os); }
void spec_C15x_nested() { ostream& os=spec::stream(); E const& x=spec::any<E>(); E const& y=spec::any<E>(); E const& z=spec::any<E>(); List<List<E>> v; List<E> a; a.append(x); a.append(y); List<E> b; b.append(z); v.append(a); v.append(b); expect(os); then(os,"[["); then(os,x); then(os,','); then(os,y); then(os,"],["); then(os,z); then(os,"]]"); os << v; expected(os); }

// larger sets and maps
void spec_C15x_large_set() { spec::unroll(40); ostream& os=spec::stream(); int x=spec::any_int(); spec::assume(x<1000000 && x>-1000000); size_t n=any_size(); spec::assume(n<=17); Set<int> v; for(size_t i=0;i<n;++i) { v.insert(x+static_cast<int>(i)); } expect(os); then(os,'{'); for(size_t i=0;i<n;++i) { if(i>0) then(os,','); then(os,x+static_cast<int>(i)); } then(os,'}'); Set<int> const& cv=v; os << cv; expected(os); }
void spec_C15x_large_map() { spec::unroll(40); ostream& os=spec::stream(); int x=spec::any_int(); spec::assume(x<1000000 && x>-1000000); E const& y=spec::any<E>(); size_t n=any_size(); spec::assume(n>0 && n<=17); Map<int,E> v; for(size_t i=0;i<n;++i) { v.std::map<int,E>::insert(std::pair<int const,E>(x+static_cast<int>(i),y)); } expect(os); then(os,'{'); for(size_t i=0;i<n;++i) { if(i>0) then(os,','); then(os,' '); then(os,x+static_cast<int>(i)); then(os,':'); then(os,y); } then(os,' '); then(os,'}'); Map<int,E> const& cv=v; os << cv; expected(os); }
