#include "container.hpp"
#include <iterator>
#include <stdexcept>
#include <utility>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::any_elems; using spec::any_size; using spec::same; using spec::assume; using std::size_t;

namespace probe {
struct R { SPECIALS(R) friend bool operator==(R const&, R const&); friend bool operator!=(R const&, R const&); friend bool operator<(R const&, R const&); };
#ifdef KIND_NUMBER
typedef KIND_NUMBER E;
#else
struct E { SPECIALS(E)
    friend bool operator==(E const&, E const&); friend bool operator!=(E const&, E const&); friend bool operator<(E const&, E const&); friend bool operator>(E const&, E const&); };
#endif
struct D { SPECIALS(D) friend bool operator==(D const&, D const&); friend bool operator<(D const&, D const&); };
struct W { SPECIALS(W) operator E() const; };
struct X { SPECIALS(X) explicit operator E() const; };
struct F { F(F const&); ~F(); R operator()(E const&) const; };
struct F2 { F2(F2 const&); ~F2(); R operator()(E const&, D const&) const; };
}
using probe::E; using probe::D; using probe::W; using probe::R; using probe::F; using probe::F2;
using VE=std::vector<E>;
#ifdef KIND_TRIVIAL
#define DEFAULTED(x) (void)k;
#else
#define DEFAULTED(x) if(k<n) { E d{}; claim(same(x,d),"each element is default-initialised"); }
#endif

namespace {
template<class C> bool holds(C const& c, size_t n, E const* s, size_t k) { return k>=n || same(c[k],s[k]); }
template<class T> T const& at(std::list<T> const& l, size_t k) { return *std::next(l.begin(),static_cast<std::ptrdiff_t>(k)); }
}

// ---- C10: lists -----------------------------------------------------------------------------------------
void spec_C10_list_append_element() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const& x=spec::any<E>(); List<E> a(s,s+n); a.append(x); claim(a.size()==n+1,"one element more"); claim(holds(a,n,s,k),"existing elements kept"); claim(same(a[n],x),"the element is added at the end"); }
void spec_C10_list_append_own_element() { size_t n=any_size(), k=any_size(), j=any_size(); assume(j<n); E const* s=any_elems<E>(n); List<E> a(s,s+n); a.append(a[j]); claim(a.size()==n+1,"one element more"); claim(holds(a,n,s,k),"existing elements kept"); claim(same(a[n],s[j]),"an element of the list itself can be appended"); }
void spec_C10_list_append_list() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); List<E> a(s,s+n); VE b(t,t+m); VE const& cb=b; a.append(cb); claim(a.size()==n+m,"all elements added"); claim(holds(a,n,s,k),"existing elements kept"); if(k<m) { claim(same(a[n+k],t[k]),"added in order, after the existing elements"); claim(same(b[k],t[k]),"source untouched"); } claim(b.size()==m,"source untouched"); }
void spec_C10_list_append_self() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); List<E> a(s,s+n); a.append(static_cast<VE const&>(a)); claim(a.size()==2*n,"twice the elements"); claim(holds(a,n,s,k),"existing elements kept"); if(k<n) claim(same(a[n+k],s[k]),"a list can be appended to itself"); }
void spec_C10_list_concatenate() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); List<E> a(s,s+n); List<E> b(t,t+m); List<E> const& cb=b; a.concatenate(cb); claim(a.size()==n+m && b.size()==m,"all elements added"); claim(holds(a,n,s,k),"existing elements kept"); if(k<m) { claim(same(a[n+k],t[k]),"added in order, after the existing elements"); claim(same(b[k],t[k]),"source untouched"); } }
void spec_C10_list_concatenate_self() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); List<E> a(s,s+n); List<E> const& ca=a; a.concatenate(ca); claim(a.size()==2*n,"twice the elements"); claim(holds(a,n,s,k),"existing elements kept"); if(k<n) claim(same(a[n+k],s[k]),"a list can be concatenated with itself"); }
void spec_C10_list_catenate() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); List<E> a(s,s+n); List<E> b(t,t+m); List<E> const& ca=a; List<E> const& cb=b; List<E> c=catenate(ca,cb); claim(c.size()==n+m,"all elements of both"); claim(holds(c,n,s,k),"the first list first"); if(k<m) claim(same(c[n+k],t[k]),"then the second"); claim(a.size()==n && b.size()==m,"operands unchanged"); if(k<n) claim(same(a[k],s[k]),"operands unchanged"); if(k<m) claim(same(b[k],t[k]),"operands unchanged"); }
void spec_C10_list_catenate_self() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); List<E> a(s,s+n); List<E> const& ca=a; List<E> c=catenate(ca,ca); claim(c.size()==2*n && a.size()==n,"all elements twice"); if(k<n) { claim(same(c[k],s[k]) && same(c[n+k],s[k]),"in order, twice"); claim(same(a[k],s[k]),"operand unchanged"); } }
void spec_C10_list_catenate_element() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const& x=spec::any<E>(); List<E> a(s,s+n); List<E> const& ca=a; List<E> c=catenate(ca,x); claim(c.size()==n+1 && a.size()==n,"one element more"); if(k<n) { claim(same(c[k],s[k]),"the list first"); claim(same(a[k],s[k]),"operand unchanged"); } claim(same(c[n],x),"the element last"); }
void spec_C10_list_default() { List<E> a; claim(a.size()==0,"empty"); }
void spec_C10_list_value() { E const& x=spec::any<E>(); List<E> a(x); claim(a.size()==1 && same(a[0],x),"a list of one element"); }
void spec_C10_list_count_value() { size_t n=any_size(), k=any_size(); E const& x=spec::any<E>(); List<E> a(n,x); claim(a.size()==n,"count"); if(k<n) claim(same(a[k],x),"each element is the value"); }
void spec_C10_list_count() { size_t n=any_size(), k=any_size(); List<E> a(n); claim(a.size()==n,"count"); DEFAULTED(a[k]) }
void spec_C10_list_vector() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); VE v(s,s+n); VE const& cv=v; List<E> a(cv); claim(a.size()==n && v.size()==n,"size"); if(k<n) { claim(same(a[k],s[k]),"element k"); claim(same(v[k],s[k]),"source untouched"); } }
void spec_C10_list_copy() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); List<E> v(s,s+n); List<E> const& cv=v; List<E> a(cv); claim(a.size()==n && v.size()==n,"size"); if(k<n) { claim(same(a[k],s[k]),"element k"); claim(same(v[k],s[k]),"source untouched"); } }
void spec_C10_list_init() { E const& x=spec::any<E>(); E const& y=spec::any<E>(); E const& z=spec::any<E>(); List<E> a={x,y,z}; claim(a.size()==3 && same(a[0],x) && same(a[1],y) && same(a[2],z),"elements in order"); }

// ---- C10: linked lists ----------------------------------------------------------------------------------
void spec_C10_linked_default() { LinkedList<E> a; claim(a.size()==0,"empty"); }
void spec_C10_linked_count() { unsigned n=static_cast<unsigned>(any_size()); size_t k=any_size(); LinkedList<E> a(n); claim(a.size()==n,"count"); DEFAULTED(at(a,k)) }
void spec_C10_linked_count_value() { unsigned n=static_cast<unsigned>(any_size()); size_t k=any_size(); E const& x=spec::any<E>(); LinkedList<E> a(n,x); claim(a.size()==n,"count"); if(k<n) claim(same(at(a,k),x),"each element is the value"); }
void spec_C10_linked_copy() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); std::list<E> l(s,s+n); std::list<E> const& cl=l; LinkedList<E> a(cl); LinkedList<E> const& ca=a; LinkedList<E> b(ca); claim(a.size()==n && b.size()==n && l.size()==n,"size"); if(k<n) { claim(same(at(a,k),s[k]) && same(at(b,k),s[k]),"element k"); claim(same(at(l,k),s[k]),"source untouched"); } }
void spec_C10_linked_range() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); LinkedList<E> a(s,s+n); claim(a.size()==n,"size"); if(k<n) claim(same(at(a,k),s[k]),"element k"); }
void spec_C10_linked_list() { size_t n=any_size(), k=any_size(); W const* s=any_elems<W>(n); List<W> l(s,s+n); List<W> const& cl=l; LinkedList<E> a(cl); claim(a.size()==n && l.size()==n,"size"); if(k<n) { claim(same(at(a,k),static_cast<E>(s[k])),"element k converted"); claim(same(l[k],s[k]),"source untouched"); } }
void spec_C10_linked_linked() { size_t n=any_size(), k=any_size(); W const* s=any_elems<W>(n); LinkedList<W> l(s,s+n); LinkedList<W> const& cl=l; LinkedList<E> a(cl); claim(a.size()==n && l.size()==n,"size"); if(k<n) { claim(same(at(a,k),static_cast<E>(s[k])),"element k converted"); claim(same(at(l,k),s[k]),"source untouched"); } }
void spec_C10_linked_append_element() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const& x=spec::any<E>(); LinkedList<E> a(s,s+n); a.append(x); claim(a.size()==n+1,"one element more"); if(k<n) claim(same(at(a,k),s[k]),"existing elements kept"); claim(same(a.back(),x),"the element is added at the end"); claim(same(at(a,n),x),"the element is added at the end"); }
void spec_C10_linked_append() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); LinkedList<E> a(s,s+n); LinkedList<E> b(t,t+m); LinkedList<E> const& cb=b; a.append(cb); claim(a.size()==n+m && b.size()==m,"all elements added"); if(k<n) claim(same(at(a,k),s[k]),"existing elements kept"); if(k<m) { claim(same(at(a,n+k),t[k]),"added in order, after the existing elements"); claim(same(at(b,k),t[k]),"source untouched"); } }
void spec_C10_linked_append_self() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); LinkedList<E> a(s,s+n); LinkedList<E> const& ca=a; a.append(ca); claim(a.size()==2*n,"twice the elements"); if(k<n) claim(same(at(a,k),s[k]) && same(at(a,n+k),s[k]),"a linked list can be appended to itself"); }
void spec_C10_linked_concatenate() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); LinkedList<E> a(s,s+n); LinkedList<E> b(t,t+m); LinkedList<E> const& cb=b; a.concatenate(cb); claim(a.size()==n+m && b.size()==m,"all elements added"); if(k<n) claim(same(at(a,k),s[k]),"existing elements kept"); if(k<m) { claim(same(at(a,n+k),t[k]),"added in order, after the existing elements"); claim(same(at(b,k),t[k]),"source untouched"); } }
void spec_C10_linked_concatenate_self() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); LinkedList<E> a(s,s+n); LinkedList<E> const& ca=a; a.concatenate(ca); claim(a.size()==2*n,"twice the elements"); if(k<n) claim(same(at(a,k),s[k]) && same(at(a,n+k),s[k]),"a linked list can be concatenated with itself"); }

// ---- C11: application and conversions -------------------------------------------------------------------
void spec_C11_apply_list() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); F const& f=spec::any<F>(); List<E> a(s,s+n); List<E> const& ca=a; List<R> r=Helper::apply(f,ca); claim(r.size()==n && a.size()==n,"one result per element"); if(k<n) { claim(same(r[k],f(s[k])),"result k is f of element k"); claim(same(a[k],s[k]),"operand unchanged"); } }
void spec_C11_elementwise() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); F const& f=spec::any<F>(); List<E> a(s,s+n); List<E> const& ca=a; List<R> r=elementwise(f,ca); claim(r.size()==n && a.size()==n,"one result per element"); if(k<n) { claim(same(r[k],f(s[k])),"result k is f of element k"); claim(same(a[k],s[k]),"operand unchanged"); } }
void spec_C11_elementwise2() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); D const* t=any_elems<D>(m); F2 const& f=spec::any<F2>(); List<E> a(s,s+n); List<D> b(t,t+m); List<E> const& ca=a; List<D> const& cb=b; bool threw=false;
    try { List<R> r=elementwise(f,ca,cb); claim(n==m,"lists of different lengths are rejected"); claim(r.size()==n,"one result per pair"); if(k<n) claim(same(r[k],f(s[k],t[k])),"result k is f of the k-th elements"); } catch(std::exception const&) { threw=true; }
    claim(threw==(n!=m),"rejected exactly when the lengths differ"); if(k<n) claim(same(a[k],s[k]),"operand unchanged"); if(k<m) claim(same(b[k],t[k]),"operand unchanged"); }
void spec_C11_list_convert() { size_t n=any_size(), k=any_size(); W const* s=any_elems<W>(n); std::vector<W> v(s,s+n); std::vector<W> const& cv=v; List<E> a(cv); claim(a.size()==n && v.size()==n,"size"); if(k<n) { claim(same(a[k],static_cast<E>(s[k])),"element k converted"); claim(same(v[k],s[k]),"source untouched"); } }
void spec_C11_make_array_value() { E const& x=spec::any<E>(); Array<E> a=make_array(x); claim(a.size()==1 && same(a[0],x),"an array of one element"); }
void spec_C11_make_array_vector() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); VE v(s,s+n); VE const& cv=v; Array<E> a=make_array(cv); claim(a.size()==n && v.size()==n,"size"); if(k<n) { claim(same(a[k],s[k]),"element k"); claim(same(v[k],s[k]),"source untouched"); } }
void spec_C11_make_array_array() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); Array<E> v(s,s+n); Array<E> const& cv=v; Array<E> a=make_array(cv); claim(a.size()==n && v.size()==n,"size"); if(k<n) { claim(same(a[k],s[k]),"element k"); claim(same(v[k],s[k]),"source untouched"); } }
void spec_C11_make_list_value() { E const& x=spec::any<E>(); List<E> a=make_list(x); claim(a.size()==1 && same(a[0],x),"a list of one element"); }
void spec_C11_make_list_vector() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); VE v(s,s+n); VE const& cv=v; List<E> a=make_list(cv); claim(a.size()==n && v.size()==n,"size"); if(k<n) { claim(same(a[k],s[k]),"element k"); claim(same(v[k],s[k]),"source untouched"); } }
void spec_C11_make_list_array() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); Array<E> v(s,s+n); Array<E> const& cv=v; List<E> a=make_list(cv); claim(a.size()==n && v.size()==n,"size"); if(k<n) { claim(same(a[k],s[k]),"element k"); claim(same(v[k],s[k]),"source untouched"); } }
