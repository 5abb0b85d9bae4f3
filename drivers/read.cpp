#include "container.hpp"
#include "stlio.hpp"
#include <deque>
#include <istream>
#include <list>
#include <vector>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::assume; using spec::any_elems; using spec::any_size; using spec::any_char; using spec::same; using std::size_t;

namespace probe {
#ifdef KIND_NUMBER
typedef KIND_NUMBER E;
#else
struct E { SPECIALS(E)
    friend bool operator==(E const&, E const&); friend bool operator!=(E const&, E const&); friend bool operator<(E const&, E const&); friend std::ostream& operator<<(std::ostream&, E const&); friend std::istream& operator>>(std::istream&, E&); };
#endif
}
using probe::E;

namespace {
template<class C> typename C::const_iterator at(C const& v, size_t k) { auto i=v.begin(); for(size_t j=0; j!=k; ++j) { ++i; } return i; }
template<class C, class T> void read_exactly(std::istream& is, C const& v) {
    claim(spec::complete(),"the sequence was complete and nothing after it was read"); claim(v.size()==spec::items(),"as many items are stored as were read");
    size_t k=any_size(); if(k<v.size()) { claim(same(v[k],spec::item<T>(k)),"item k is stored at position k"); } claim(!is.fail(),"the stream has not failed"); }
}
namespace { template<class C, class T> void only_read(C const& v) { claim(v.size()<=spec::items(),"only items that were read are stored"); size_t k=any_size(); if(k<v.size()) { claim(same(v[k],spec::item<T>(k)),"only items that were read are stored"); } } }
#define REJECTED claim(spec::broken(),"only input that is not a sequence is rejected");
#define REJECT(C,T) catch(std::ios_base::failure const&) { REJECTED only_read<C,T>(v); }
#define OLD(C,T) size_t n=any_size(); T const* s=any_elems<T>(n); C v(s,s+n);
#define DELIMITERS char o=any_char(), c=any_char(), p=any_char(); assume(p!=c);

void spec_C16_vector() { DELIMITERS OLD(std::vector<E>,E) std::istream& is=spec::sequence_input(o,c,p); try { std::istream& r=read_sequence(is,v,o,c,p); claim(&r==&is,"returns the stream"); read_exactly<std::vector<E>,E>(is,v); } REJECT(std::vector<E>,E) }
void spec_C16_vector_default() { OLD(std::vector<E>,E) std::istream& is=spec::sequence_input('[',']',','); try { read_sequence(is,v); read_exactly<std::vector<E>,E>(is,v); } REJECT(std::vector<E>,E) }
void spec_C16_vector_operator() { OLD(std::vector<E>,E) std::istream& is=spec::sequence_input('[',']',','); try { std::istream& r=std::operator>>(is,v); claim(&r==&is,"returns the stream"); read_exactly<std::vector<E>,E>(is,v); } REJECT(std::vector<E>,E) }
void spec_C16_vector_double() { DELIMITERS OLD(std::vector<double>,double) std::istream& is=spec::sequence_input(o,c,p); try { read_sequence(is,v,o,c,p); read_exactly<std::vector<double>,double>(is,v); } REJECT(std::vector<double>,double) }
void spec_C16_list() { DELIMITERS OLD(List<E>,E) std::istream& is=spec::sequence_input(o,c,p); try { read_sequence(is,v,o,c,p); read_exactly<List<E>,E>(is,v); } REJECT(List<E>,E) }
void spec_C16_deque() { DELIMITERS OLD(std::deque<E>,E) std::istream& is=spec::sequence_input(o,c,p); try { read_sequence(is,v,o,c,p); read_exactly<std::deque<E>,E>(is,v); } REJECT(std::deque<E>,E) }
void spec_C16_linked_list() { DELIMITERS OLD(LinkedList<E>,E) std::istream& is=spec::sequence_input(o,c,p); try { read_sequence(is,v,o,c,p); claim(spec::complete(),"the sequence was complete and nothing after it was read"); claim(v.size()==spec::items(),"as many items are stored as were read"); size_t k=any_size(); if(k<v.size()) { claim(same(*at(v,k),spec::item<E>(k)),"item k is stored at position k"); } } catch(std::ios_base::failure const&) { REJECTED claim(v.size()<=spec::items(),"only items that were read are stored"); size_t k=any_size(); if(k<v.size()) { claim(same(*at(v,k),spec::item<E>(k)),"only items that were read are stored"); } } }
void spec_C16_throwing_item() { spec::throwing("read"); DELIMITERS OLD(std::vector<E>,E) std::istream& is=spec::sequence_input(o,c,p); try { read_sequence(is,v,o,c,p); read_exactly<std::vector<E>,E>(is,v); } catch(std::ios_base::failure const&) { REJECTED only_read<std::vector<E>,E>(v); } catch(probe::Error const&) { only_read<std::vector<E>,E>(v); } }
