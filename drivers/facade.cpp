#include "iterator.hpp"
#include <ostream>
#include <type_traits>
#include <utility>
#include <list>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::assume; using spec::any_elems; using spec::any_size; using spec::any_int; using spec::same; using std::size_t;

namespace probe { struct E { E(E const&); E& operator=(E const&); ~E(); friend std::ostream& operator<<(std::ostream&, E const&); }; struct D { D(D const&); D& operator=(D const&); ~D(); }; }
using probe::E; using probe::D;
namespace {
typedef std::ptrdiff_t Z;
// an iterator over a block, by index, and one over constant elements that also counts the calls of its core operations
struct It : IteratorFacade<It,E,RandomAccessTraversalTag> { E* b; Z p; It(E* b_, Z p_) : b(b_), p(p_) { } bool equal(It const& o) const { return p==o.p; } Z distance_to(It const& o) const { return o.p-p; } void advance(Z n) { p+=n; } E& dereference() const { return b[p]; } };
struct CIt : IteratorFacade<CIt,E const,RandomAccessTraversalTag> { E const* b; Z p; CIt(E const* b_, Z p_) : b(b_), p(p_) { } bool equal(CIt const& o) const { return p==o.p; } Z distance_to(CIt const& o) const { return o.p-p; } void advance(Z n) { p+=n; } E const& dereference() const { return b[p]; } };
// a random access iterator that yields values
struct VIt : IteratorFacade<VIt,Z,RandomAccessTraversalTag,Z> { Z p; VIt(Z p_) : p(p_) { } bool equal(VIt const& o) const { return p==o.p; } Z distance_to(VIt const& o) const { return o.p-p; } void advance(Z n) { p+=n; } Z dereference() const { return p; } };
// a forward iterator along a chain
struct FIt : IteratorFacade<FIt,E,ForwardTraversalTag> { E* b; size_t p; FIt(E* b_, size_t p_) : b(b_), p(p_) { } bool equal(FIt const& o) const { return p==o.p; } void increment() { ++p; } E& dereference() const { return b[p]; } };
struct FVIt : IteratorFacade<FVIt,Z,ForwardTraversalTag,Z> { Z p; FVIt(Z p_) : p(p_) { } bool equal(FVIt const& o) const { return p==o.p; } void increment() { ++p; } Z dereference() const { return p; } };

static_assert(std::is_same_v<It::value_type,E> && std::is_same_v<It::reference,E&> && std::is_same_v<It::pointer,E*> && std::is_same_v<It::difference_type,Z> && std::is_same_v<It::iterator_category,std::random_access_iterator_tag>);
static_assert(std::is_same_v<CIt::value_type,E> && std::is_same_v<CIt::reference,E const&> && std::is_same_v<CIt::pointer,E const*> && std::is_same_v<CIt::iterator_category,std::random_access_iterator_tag>);
static_assert(std::is_same_v<VIt::value_type,Z> && std::is_same_v<VIt::reference,Z>);
static_assert(std::is_same_v<FIt::value_type,E> && std::is_same_v<FIt::reference,E&> && std::is_same_v<FIt::pointer,E*> && std::is_same_v<FIt::difference_type,Z> && std::is_same_v<FIt::iterator_category,std::forward_iterator_tag>);
static_assert(std::is_same_v<decltype(*std::declval<CIt>()),E const&> && std::is_same_v<decltype(*std::declval<VIt>()),Z>);
Z at() { return any_int(); }
}
#define TWO(I) Z p=at(), q=at(); E* b=any_elems<E>(1); I i(b,p), j(b,q); I const& ci=i; I const& cj=j;

#define COMPARE(I) TWO(I) claim((ci==cj)==(p==q),"equality is that of the core operation"); claim((ci!=cj)==(p!=q),"inequality is its negation"); claim((ci<cj)==(p<q),"i<j iff the distance from i to j is positive"); claim((ci<=cj)==(p<=q),"i<=j iff it is not negative"); claim((ci>cj)==(p>q),"i>j iff it is negative"); claim((ci>=cj)==(p>=q),"i>=j iff it is not positive"); claim(cj-ci==q-p,"j-i is the distance from i to j"); claim(i.p==p && j.p==q,"comparing moves nothing");
void spec_C20_compare() { COMPARE(It) }
void spec_C20_compare_const() { COMPARE(CIt) }
#define PLUS(I) TWO(I) Z n=any_int(); I r=ci+n; claim(r.p==p+n && r.b==b,"i+n is a copy advanced by n"); I s=ci-n; claim(s.p==p-n && s.b==b,"i-n is a copy advanced by -n"); claim(i.p==p && j.p==q,"the operand is not moved");
void spec_C20_plus() { PLUS(It) }
void spec_C20_plus_const() { PLUS(CIt) }
#define INPLACE(I) TWO(I) Z n=any_int(); I& r=(i+=n); claim(&r==&i,"the in-place form returns the iterator"); claim(i.p==p+n,"advanced by n"); I& s=(j-=n); claim(&s==&j,"the in-place form returns the iterator"); claim(j.p==q-n,"advanced by -n"); claim(i.p==p+n,"nothing else is moved");
void spec_C20_inplace() { INPLACE(It) }
void spec_C20_inplace_const() { INPLACE(CIt) }
#define STEP(I) TWO(I) I& r=++i; claim(&r==&i,"increment returns the iterator"); claim(i.p==p+1,"moved one on"); I& s=--j; claim(&s==&j,"decrement returns the iterator"); claim(j.p==q-1,"moved one back"); ++++i; ----j; claim(i.p==p+3 && j.p==q-3,"again and again");
void spec_C20_step() { STEP(It) }
void spec_C20_step_const() { STEP(CIt) }
void spec_C20_dereference() { size_t n=any_size(), k=any_size(); assume(k<n); E* b=any_elems<E>(n); It i(b,static_cast<Z>(k)); It const& ci=i; claim(&*ci==b+k,"dereference gives the element"); claim(ci.operator->()==b+k,"as does member access"); CIt j(b,static_cast<Z>(k)); claim(&*j==b+k && j.operator->()==b+k,"for constant elements too"); claim(i.p==static_cast<Z>(k),"without moving"); }
void spec_C20_value() { Z p=at(), q=at(), n=any_int(); VIt i(p), j(q); claim(*i==p,"dereference gives the value"); claim((i==j)==(p==q) && (i!=j)==(p!=q) && (i<j)==(p<q) && (i>j)==(p>q) && (i<=j)==(p<=q) && (i>=j)==(p>=q) && j-i==q-p,"comparisons are those of the core operations"); claim(*(i+n)==p+n && *(i-n)==p-n,"sums are those of the core operations"); claim(*++i==p+1 && *--j==q-1,"steps are those of the core operations"); claim(*(i+=n)==p+1+n && *(j-=n)==q-1-n,"in-place sums too"); }
void spec_C20_loop() { size_t n=any_size(); E* b=any_elems<E>(n); size_t k=0; for(It i(b,0); i!=It(b,static_cast<Z>(n)); ++i) { claim(&*i==b+k,"a loop visits each element in turn"); ++k; } claim(k==n,"and all of them"); }

void spec_C20_forward_compare() { size_t p=any_size(), q=any_size(); E* b=any_elems<E>(1); FIt const i(b,p), j(b,q); claim((i==j)==(p==q),"equality is that of the core operation"); claim((i!=j)==(p!=q),"inequality is its negation"); }
void spec_C20_forward_step() { size_t p=any_size(); E* b=any_elems<E>(1); FIt i(b,p); FIt& r=++i; claim(&r==&i,"increment returns the iterator"); claim(i.p==p+1,"moved one on"); FIt o=i++; claim(o.p==p+1 && o.b==b,"post-increment returns the old position"); claim(i.p==p+2,"and moves one on"); ++++i; claim(i.p==p+4,"again and again"); }
void spec_C20_forward_dereference() { size_t n=any_size(), k=any_size(); assume(k<n); E* b=any_elems<E>(n); FIt const i(b,k); claim(&*i==b+k,"dereference gives the element"); claim(i.operator->()==b+k,"as does member access"); claim(i.p==k,"without moving"); }
void spec_C20_forward_value() { Z p=at(); FVIt i(p); claim(*i==p,"dereference gives the value"); claim(*i++==p && *i==p+1 && *++i==p+2,"steps are those of the core operation"); }

// pairs of iterators
#define PAIRS size_t n=any_size(), m=any_size(), p=any_size(), q=any_size(), u=any_size(), v=any_size(); assume(p<=n && u<=n && q<=m && v<=m); E* b=any_elems<E>(n); D* c=any_elems<D>(m); typedef PairIterator<E*,D*> P; P i(b+p,c+q), j(b+u,c+v); P const& ci=i; P const& cj=j;
void spec_C20_pair_make() { PAIRS claim(i._iter1==b+p && i._iter2==c+q,"a pair iterator holds its components"); PairIterator<E const*,D const*> k(ci); claim(k._iter1==b+p && k._iter2==c+q,"also when converted"); P o(ci); claim(o._iter1==b+p && o._iter2==c+q,"or copied"); j=ci; claim(j._iter1==b+p && j._iter2==c+q,"or assigned"); }
void spec_C20_pair_equal() { PAIRS claim(ci.equal(cj)==(p==u && q==v),"pair iterators are equal iff both components are"); PairIterator<E const*,D const*> const k(b+u,c+v); claim(ci.equal(k)==(p==u && q==v),"also of different constness"); claim(k.equal(ci)==(p==u && q==v),"either way round"); }
void spec_C20_pair_distance() { PAIRS assume(static_cast<Z>(u)-static_cast<Z>(p)==static_cast<Z>(v)-static_cast<Z>(q)); claim(ci.distance_to(cj)==static_cast<Z>(u)-static_cast<Z>(p),"the distance is that of the components"); PairIterator<E const*,D const*> const k(b+u,c+v); claim(ci.distance_to(k)==static_cast<Z>(u)-static_cast<Z>(p),"also of different constness"); }
void spec_C20_pair_advance() { PAIRS Z k=any_int(); assume(static_cast<Z>(p)+k>=0 && static_cast<Z>(p)+k<=static_cast<Z>(n) && static_cast<Z>(q)+k>=0 && static_cast<Z>(q)+k<=static_cast<Z>(m)); i.advance(k); claim(i._iter1==b+p+k && i._iter2==c+q+k,"both components are moved alike"); claim(j._iter1==b+u && j._iter2==c+v,"nothing else is moved"); }
void spec_C20_pair_dereference() { PAIRS assume(p<n && q<m); auto r=i.dereference(); static_assert(std::is_same_v<decltype(r),std::pair<E&,D&>>); claim(&r.first==b+p && &r.second==c+q,"dereference refers to both elements"); claim(i._iter1==b+p && i._iter2==c+q,"without moving"); }
void spec_C20_pair_facade() { PAIRS struct F : IteratorFacade<F,std::pair<E&,D&>,RandomAccessTraversalTag,std::pair<E&,D&>> { mutable P it; F(P const& p_) : it(p_) { } bool equal(F const& o) const { return it.equal(o.it); } Z distance_to(F const& o) const { return it.distance_to(o.it); } void advance(Z k) { it.advance(k); } std::pair<E&,D&> dereference() const { return it.dereference(); } };
    assume(p<n && q<m); F f(i); F const g(f); claim(f==g && !(f!=g) && !(f<g) && f<=g,"a facade over pair iterators compares them"); claim(&(*f).first==b+p && &(*f).second==c+q,"dereferences them"); ++f; claim(f!=g && g<f && f-g==1 && g-f==-1,"and moves them"); claim(f.it._iter1==b+p+1 && f.it._iter2==c+q+1,"both components"); }
