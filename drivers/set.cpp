#include "container.hpp"
#include <utility>
#include <vector>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::any_elems; using spec::any_size; using spec::same; using spec::assume; using spec::any_bool; using std::size_t;

namespace probe {
struct R { SPECIALS(R) friend bool operator==(R const&, R const&); friend bool operator!=(R const&, R const&); friend bool operator<(R const&, R const&); };
#ifdef KIND_NUMBER
typedef KIND_NUMBER E;
#else
struct E { SPECIALS(E)
    friend bool operator==(E const&, E const&); friend bool operator!=(E const&, E const&); friend bool operator<(E const&, E const&); friend bool operator>(E const&, E const&); friend bool operator<=(E const&, E const&); friend bool operator>=(E const&, E const&); };
#endif
struct F { F(F const&); ~F(); R operator()(E const&) const; };
}
using probe::E; using probe::R; using probe::F;
using S=std::set<E>;
namespace { bool in(S const& s, E const& x) { return s.count(x)!=0; } }

// ---- C12: for an arbitrary element y ---------------------------------------------------------------------
#define SETUP E& y=spec::any<E>(); spec::named(y); Set<E> a; Set<E> b; spec::fill(a); spec::fill(b); bool ia=in(a,y), ib=in(b,y); S const& cb=b; (void)ia; (void)ib; (void)cb;
#define ARGUMENT_UNCHANGED claim(in(b,y)==ib,"only the set it is called on is modified");
void spec_C12_contains() { SETUP; claim(a.contains(y)==ia,"membership"); claim(contains(static_cast<S const&>(a),y)==ia,"membership, free form"); claim(in(a,y)==ia,"a query changes nothing"); }
void spec_C12_adjoin() { SETUP; Set<E>& r=a.adjoin(cb); claim(&r==&a,"returns the set itself"); claim(in(a,y)==(ia||ib),"union"); ARGUMENT_UNCHANGED; }
void spec_C12_adjoin_self() { SETUP; a.adjoin(static_cast<S const&>(a)); claim(in(a,y)==ia,"union with itself changes nothing"); }
void spec_C12_join() { SETUP; Set<E> const& ca=a; Set<E> const& c2=b; Set<E> r=join(ca,c2); claim(in(r,y)==(ia||ib),"union"); claim(in(a,y)==ia,"operands unchanged"); ARGUMENT_UNCHANGED; }
void spec_C12_join_self() { SETUP; Set<E> const& ca=a; Set<E> r=join(ca,ca); claim(in(r,y)==ia,"union with itself"); claim(in(a,y)==ia,"operand unchanged"); }
void spec_C12_remove_element() { SETUP; E& x=spec::any<E>(); spec::named(x); Set<E> c; spec::fill(c); bool ic=in(c,y); Set<E>& r=c.remove(x); claim(&r==&c,"returns the set itself"); claim(in(c,y)==(ic && !(x==y)),"removes exactly the element"); }
void spec_C12_remove() { SETUP; Set<E>& r=a.remove(cb); claim(&r==&a,"returns the set itself"); claim(in(a,y)==(ia&&!ib),"difference"); ARGUMENT_UNCHANGED; }
void spec_C12_remove_self() { SETUP; a.remove(static_cast<S const&>(a)); claim(!in(a,y),"a set minus itself is empty"); }
void spec_C12_remove_free() { SETUP; S& sa=a; S& r=remove(sa,cb); claim(&r==&sa,"returns the set itself"); claim(in(a,y)==(ia&&!ib),"difference"); ARGUMENT_UNCHANGED; }
void spec_C12_remove_free_self() { SETUP; S& sa=a; remove(sa,static_cast<S const&>(sa)); claim(!in(a,y),"a set minus itself is empty"); }
void spec_C12_restrict() { SETUP; Set<E>& r=a.restrict(cb); claim(&r==&a,"returns the set itself"); claim(in(a,y)==(ia&&ib),"intersection"); ARGUMENT_UNCHANGED; }
void spec_C12_restrict_self() { SETUP; a.restrict(static_cast<S const&>(a)); claim(in(a,y)==ia,"a set restricted to itself is unchanged"); }
void spec_C12_restrict_free() { SETUP; S& sa=a; S& r=restrict(sa,cb); claim(&r==&sa,"returns the set itself"); claim(in(a,y)==(ia&&ib),"intersection"); ARGUMENT_UNCHANGED; }
void spec_C12_restrict_free_self() { SETUP; S& sa=a; restrict(sa,static_cast<S const&>(sa)); claim(in(a,y)==ia,"a set restricted to itself is unchanged"); }
void spec_C12_intersection() { SETUP; S const& ca=a; Set<E> r=intersection(ca,cb); claim(in(r,y)==(ia&&ib),"intersection"); claim(in(a,y)==ia,"operands unchanged"); ARGUMENT_UNCHANGED; }
void spec_C12_intersection_self() { SETUP; S const& ca=a; Set<E> r=intersection(ca,ca); claim(in(r,y)==ia,"intersection with itself"); claim(in(a,y)==ia,"operand unchanged"); }
void spec_C12_difference() { SETUP; S const& ca=a; Set<E> r=difference(ca,cb); claim(in(r,y)==(ia&&!ib),"difference"); claim(in(a,y)==ia,"operands unchanged"); ARGUMENT_UNCHANGED; }
void spec_C12_difference_self() { SETUP; S const& ca=a; Set<E> r=difference(ca,ca); claim(!in(r,y),"difference with itself is empty"); claim(in(a,y)==ia,"operand unchanged"); }
void spec_C12_subset() { SETUP; S const& ca=a; bool r=subset(ca,cb); if(r && ia) claim(ib,"subset only if every element of the first is in the second"); claim(in(a,y)==ia,"operands unchanged"); ARGUMENT_UNCHANGED; }
void spec_C12_subset_if() { SETUP; spec::assume_subset(a,b); S const& ca=a; claim(subset(ca,cb),"subset if every element of the first is in the second"); }
void spec_C12_subset_self() { SETUP; S const& ca=a; claim(subset(ca,ca),"a set is a subset of itself"); }
void spec_C12_subset_member() { SETUP; Set<E> const& ca=a; bool r=ca.subset(cb); if(r && ib) claim(ia,"member subset only if every element of the argument is in the receiver"); claim(in(a,y)==ia,"operands unchanged"); ARGUMENT_UNCHANGED; }
void spec_C12_subset_member_if() { SETUP; spec::assume_subset(b,a); Set<E> const& ca=a; claim(ca.subset(cb),"member subset if every element of the argument is in the receiver"); }
void spec_C12_disjoint() { SETUP; S const& ca=a; bool r=disjoint(ca,cb); if(r) claim(!(ia&&ib),"disjoint only if there is no common element"); claim(in(a,y)==ia,"operands unchanged"); ARGUMENT_UNCHANGED; }
void spec_C12_disjoint_if() { SETUP; spec::assume_disjoint(a,b); S const& ca=a; claim(disjoint(ca,cb),"disjoint if there is no common element"); }
void spec_C12_disjoint_member() { SETUP; Set<E> const& ca=a; bool r=ca.disjoint(cb); if(r) claim(!(ia&&ib),"disjoint only if there is no common element"); ARGUMENT_UNCHANGED; }
void spec_C12_disjoint_member_if() { SETUP; spec::assume_disjoint(a,b); Set<E> const& ca=a; claim(ca.disjoint(cb),"disjoint if there is no common element"); }

// with a vector: y occurs at position k, or nowhere
using VE=std::vector<E>;
#define VSETUP E& y=spec::any<E>(); spec::named(y); Set<E> a; spec::fill(a); bool ia=in(a,y); size_t n=any_size(); E const* s=any_elems<E>(n); VE l(s,s+n); VE const& cl=l; size_t k=any_size(); (void)ia; (void)k;
#define PRESENT assume(k<n); assume(s[k]==y);
#define ABSENT spec::assume_absent(s,n,y);
void spec_C12_remove_vector_present() { VSETUP; PRESENT; Set<E>& r=a.remove(cl); claim(&r==&a,"returns the set itself"); claim(!in(a,y),"elements of the vector are removed"); claim(l.size()==n && same(l[k],s[k]),"argument unchanged"); }
void spec_C12_remove_vector_absent() { VSETUP; ABSENT; a.remove(cl); claim(in(a,y)==ia,"no other element is removed"); }
void spec_C12_disjoint_vector_present() { VSETUP; PRESENT; S const& ca=a; bool r=disjoint(ca,cl); if(r) claim(!ia,"disjoint only if there is no common element"); claim(in(a,y)==ia,"operand unchanged"); }
void spec_C12_disjoint_member_vector_present() { VSETUP; PRESENT; Set<E> const& ca=a; bool r=ca.disjoint(cl); if(r) claim(!ia,"disjoint only if there is no common element"); }
void spec_C12x_intersection_vector() { E& x=spec::any<E>(); E& y=spec::any<E>(); E& z=spec::any<E>(); Set<E> a; if(any_bool()) a.insert(x); if(any_bool()) a.insert(y); VE l; if(any_bool()) l.push_back(z); if(any_bool()) { E& w=spec::any<E>(); l.push_back(w); } bool inl=false; E& q=spec::any<E>(); for(size_t i=0;i<l.size();++i) { if(l[i]==q) inl=true; } size_t m=l.size(); S const& ca=a; VE const& cl=l; bool ia=in(a,q); Set<E> r=intersection(ca,cl); claim(in(r,q)==(ia&&inl),"intersection holds exactly the common elements"); claim(in(a,q)==ia && l.size()==m,"operands unchanged"); }
void spec_C12_intersection_vector_absent() { VSETUP; ABSENT; S const& ca=a; Set<E> r=intersection(ca,cl); claim(!in(r,y),"intersection holds only common elements"); claim(in(a,y)==ia,"operand unchanged"); }
void spec_C12x_disjoint_vector() { E& x=spec::any<E>(); E& y=spec::any<E>(); E& z=spec::any<E>(); Set<E> a; if(any_bool()) a.insert(x); if(any_bool()) a.insert(y); VE l; bool common=false; if(any_bool()) { l.push_back(z); if(in(a,z)) common=true; } if(any_bool()) { E& w=spec::any<E>(); l.push_back(w); if(in(a,w)) common=true; } S const& ca=a; Set<E> const& sa=a; VE const& cl=l; claim(disjoint(ca,cl)==!common,"disjoint exactly if there is no common element"); claim(sa.disjoint(cl)==!common,"disjoint exactly if there is no common element"); }

// ---- C11: conversions between sets and sequences -----------------------------------------------------------
void spec_C11_set_vector_absent() { E& y=spec::any<E>(); spec::named(y); size_t n=any_size(); E const* s=any_elems<E>(n); VE l(s,s+n); VE const& cl=l; ABSENT; Set<E> r(cl); claim(!in(r,y),"nothing else is added"); Set<E> q=make_set(cl); claim(!in(q,y),"nothing else is added"); }
void spec_C11_set_copy() { E& y=spec::any<E>(); spec::named(y); Set<E> a; spec::fill(a); bool ia=in(a,y); S const& sa=a; Set<E> r(sa); claim(in(r,y)==ia,"same elements"); claim(in(a,y)==ia,"source untouched"); Set<E> const& ca=a; Set<E> q(ca); claim(in(q,y)==ia,"same elements"); }
void spec_C11x_set_init() { E& x=spec::any<E>(); E& y=spec::any<E>(); E& z=spec::any<E>(); Set<E> r={x,y}; claim(in(r,x)&&in(r,y),"every element is kept"); claim(in(r,z)==(z==x||z==y),"nothing else is added"); claim(r.size()==(x==y?1u:2u),"each element once"); }
void spec_C11_apply_set_image() { E& y=spec::any<E>(); spec::named(y); Set<E> a; spec::fill(a); bool ia=in(a,y); F const& f=spec::any<F>(); R fy=f(y); spec::renamed(fy); Set<E> const& ca=a; Set<R> r=Helper::apply(f,ca); if(ia) claim(r.count(fy)==1,"the result of each element is in the result set"); }
void spec_C11_apply_set_only() { spec::abstract_collections(); Set<E> a; spec::fill(a); R& z=spec::any<R>(); F const& f=spec::any<F>(); spec::renamed(z); spec::assume_no_image(z); Set<E> const& ca=a; Set<R> r=Helper::apply(f,ca); claim(r.count(z)==0,"only results are in the result set"); }
void spec_C11x_set_list() { Set<E> a; spec::fill(a); Set<E> const& ca=a; List<E> l=make_list(ca); claim(l.size()==a.size(),"one list element per set element"); size_t i=0; for(auto it=a.begin(); it!=a.end(); ++it) { claim(same(l[i],*it),"elements in the order of the set"); ++i; } List<E> m=static_cast<List<E>>(ca); claim(m.size()==a.size(),"one list element per set element"); i=0; for(auto it=a.begin(); it!=a.end(); ++it) { claim(same(m[i],*it),"elements in the order of the set"); ++i; } }
void spec_C11x_list_set() { E& x=spec::any<E>(); E& y=spec::any<E>(); E& z=spec::any<E>(); List<E> l; if(any_bool()) l.append(x); if(any_bool()) l.append(y); if(any_bool()) l.append(z); List<E> const& cl=l; E& w=spec::any<E>(); bool ex=false; for(size_t i=0;i<l.size();++i) { if(l[i]==w) ex=true; } Set<E> s(cl); claim(in(s,w)==ex,"exactly the elements of the list"); Set<E> t=make_set(cl); claim(in(t,w)==ex,"exactly the elements of the list"); claim(s.size()==t.size() && s.size()<=l.size(),"no element twice"); }
void spec_C11x_apply_set() { Set<E> a; spec::fill(a); F const& f=spec::any<F>(); Set<E> const& ca=a; Set<R> r=Helper::apply(f,ca); R& z=spec::any<R>(); bool ex=false; for(auto it=a.begin(); it!=a.end(); ++it) { if(f(*it)==z) ex=true; } claim((r.count(z)!=0)==ex,"exactly the results of the elements"); claim(r.size()<=a.size(),"no result twice"); }

// larger collections of numbers
namespace {
struct Half { int operator()(int const& i) const { return i/2; } };
}
void spec_C12x_large() { spec::unroll(60); size_t n=0; while(n!=14 && any_bool()) ++n; int x=spec::any_int(); assume(x<1000000 && x>-1000000); Set<int> a; Set<int> b; std::vector<int> l;
    for(size_t i=0;i<n;++i) { int e=x+static_cast<int>(i); if(i%3!=1) a.insert(e); if(i%4!=2) { b.insert(e); } }
    for(size_t i=0;i<n;++i) { size_t j=n-1-i; if(j%4!=2) l.push_back(x+static_cast<int>(j)); }
    std::set<int> const& sa=a; std::set<int> const& sb=b; std::vector<int> const& cl=l; Set<int> ra=a; Set<int> rb=a; Set<int> rc=a; Set<int> rd=a; rd.remove(sb); rc.restrict(sb); ra.adjoin(sb);
    Set<int> const& wa=a; Set<int> const& wb=b; Set<int> u=join(wa,wb); Set<int> d=difference(sa,sb); Set<int> c=intersection(sa,sb); Set<int> v=intersection(sa,cl); size_t nu=0, nd=0, nc=0;
    for(size_t i=0;i<n;++i) { int e=x+static_cast<int>(i); bool p=i%3!=1, q=i%4!=2; if(p||q) ++nu; if(p&&!q) ++nd; if(p&&q) ++nc;
        claim((u.count(e)!=0)==(p||q) && (ra.count(e)!=0)==(p||q),"the union"); claim((d.count(e)!=0)==(p&&!q) && (rd.count(e)!=0)==(p&&!q),"the difference"); claim((c.count(e)!=0)==(p&&q) && (rc.count(e)!=0)==(p&&q),"the intersection"); claim((v.count(e)!=0)==(p&&q),"the intersection with a list"); }
    claim(u.size()==nu && ra.size()==nu && d.size()==nd && rd.size()==nd && c.size()==nc && rc.size()==nc && v.size()==nc,"nothing else");
    Set<int> const& ca=a; claim(disjoint(sa,cl)==(nc==0) && ca.disjoint(cl)==(nc==0) && disjoint(sa,sb)==(nc==0),"disjoint exactly if there is no common element"); claim(subset(c,a) && subset(d,a) && subset(a,u) && subset(sa,sb)==(nd==0),"subsets"); }
void spec_C11x_large() { spec::unroll(60); size_t n=0; while(n!=14 && any_bool()) ++n; assume(n!=11); int x=spec::any_int(); assume(x<500000 && x>-500000); List<int> l; for(size_t i=0;i<n;++i) { l.append(2*x+static_cast<int>((i*11+5)%n)); }
    List<int> const& cl=l; Set<int> s(cl); Set<int> t=make_set(cl); claim(s.size()==n && t.size()==n,"one element for each"); for(size_t i=0;i<n;++i) { claim(s.count(2*x+static_cast<int>(i))==1 && t.count(2*x+static_cast<int>(i))==1,"exactly the elements of the list"); }
    Set<int> const& cs=s; List<int> m=make_list(cs); List<int> k=static_cast<List<int>>(cs); claim(m.size()==n && k.size()==n,"one list element per set element"); for(size_t i=0;i<n;++i) { claim(m[i]==2*x+static_cast<int>(i) && k[i]==m[i],"elements in the order of the set"); } }
