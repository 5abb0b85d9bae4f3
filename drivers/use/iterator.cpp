#include "iterator.hpp"
#include "values.hpp"
#include <vector>
#include <list>
#include <algorithm>
using namespace Helper;
using probe::any;
namespace probe {
template<class V, class R=V&> class RandomAccess : public IteratorFacade<RandomAccess<V,R>,V,RandomAccessTraversalTag,R> {
    friend class Helper::IteratorCoreAccess;
    bool equal(RandomAccess const&) const; std::ptrdiff_t distance_to(RandomAccess const&) const; void advance(std::ptrdiff_t); R dereference() const; void increment();
  public: typedef R reference; RandomAccess(); };
template<class V, class R=V&> class Forward : public IteratorFacade<Forward<V,R>,V,ForwardTraversalTag,R> {
    friend class Helper::IteratorCoreAccess;
    bool equal(Forward const&) const; void increment(); R dereference() const;
  public: typedef R reference; Forward(); };
struct Field { int value; };
}
using namespace probe;
template class Helper::IteratorFacade<probe::RandomAccess<int>,int,RandomAccessTraversalTag>;
template class Helper::IteratorFacade<probe::RandomAccess<const probe::Field>,const probe::Field,RandomAccessTraversalTag>;
template class Helper::IteratorFacade<probe::Forward<int>,int,ForwardTraversalTag>;
template class Helper::IteratorFacade<probe::Forward<const probe::Field>,const probe::Field,ForwardTraversalTag>;
template class Helper::PairIterator<int*,double*>;
template class Helper::PairIterator<std::vector<int>::iterator,std::vector<double>::const_iterator>;
template<class I> void forward() {
    I i; I const& k=i; I j(i); bool q=(k==j)&&(k!=j)&&(i==j); ++i; auto&& x=*k; auto&& y=*i; (void)q; (void)x; (void)y; typename I::value_type* p=nullptr; typename I::difference_type d=0; typename I::ValueType* v=p; (void)v; (void)d; (void)sizeof(typename I::Reference);
    typename std::iterator_traits<I>::iterator_category c; (void)c; std::distance(i,j); std::for_each(i,j,[](auto&&) { });
}
template<class I> void random() {
    I i; I const& k=i; I j(i); bool q=(k==j)&&(k!=j)&&(k<j)&&(k<=j)&&(k>j)&&(k>=j); std::ptrdiff_t n=k-j; I m=k+n; m=k-n; i+=n; i-=n; ++i; --i; auto&& x=*k; (void)q; (void)x; I& r=(++i); r=--i; r=(i+=1); typename I::value_type* p=nullptr; (void)p;
}
void uses() {
    forward<Forward<Field const>>; random<RandomAccess<int>>(); random<RandomAccess<int const>>(); random<RandomAccess<double,double>>(); random<RandomAccess<Field>>();
    forward<Forward<int>>(); forward<Forward<int const>>(); std::find(Forward<int>(),Forward<int>(),3); { Forward<double,double> f; ++f; f++; auto x=*f; (void)x; }
    any<Forward<Field>>()->value=1; any<RandomAccess<Field>>()->value=1; int z=any<RandomAccess<Field const> const>()->value+any<Forward<Field const> const>()->value; (void)z; any<Forward<Field>>()++; 
    PairIterator<int*,double*> p(nullptr,nullptr); PairIterator<int const*,double const*> c(p); bool q=p.equal(c)&&c.equal(p); std::ptrdiff_t n=p.distance_to(c)+c.distance_to(p); p.advance(n); (void)q; p.dereference().first=1; p.dereference().second=1.5; c.dereference(); any<std::ostream>() << p;
    PairIterator<std::vector<int>::iterator,std::vector<double>::const_iterator> v(any<std::vector<int>>().begin(),any<std::vector<double> const>().begin()); v.advance(3); v.equal(v); v.distance_to(v); v.dereference().first=2;
    PairIterator<std::list<int>::iterator,std::list<int>::iterator> l(any<std::list<int>>().begin(),any<std::list<int>>().begin()); l.equal(l); l.dereference();
}
