#include "array.hpp"
#include <utility>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::any_elems; using spec::any_size; using spec::same; using spec::assume; using std::size_t;

namespace probe {
struct P { P(P const&); ~P(); };
#if defined KIND_NUMBER
#define VALUE_KIND 1
typedef KIND_NUMBER E;
#elif defined KIND_TRIVIAL
#define VALUE_KIND 1
struct E { char data[24];
    friend bool operator==(E const&, E const&); friend bool operator!=(E const&, E const&);
};
#endif
#ifdef KIND_NOEXCEPT
#define MOVES noexcept
#else
#define MOVES
#endif
#ifdef VALUE_KIND
struct F { F(F const&); ~F(); explicit operator E() const; };
#else
struct F { F(F const&); ~F(); };
struct E { char data[24];
    E(); E(E const&); E(E&&) MOVES; explicit E(F const&); E(F const&, P const&); E(double,P const&);
    E& operator=(E const&); E& operator=(E&&) MOVES; ~E();
    friend bool operator==(E const&, E const&); friend bool operator!=(E const&, E const&);
};
#endif
struct G { G(G const&); ~G(); E operator()(size_t) const; };
struct W { W(); W(W const&); ~W(); operator E() const; };
}
using probe::E; using probe::F; using probe::P; using probe::G; using probe::W;
using A=Array<E>;
#ifdef VALUE_KIND
#define DEFAULTED(x)
#else
#define DEFAULTED(x) { E d; claim(same(x,d),"new elements are default-initialised"); }
#endif

// ---- C03: contents ------------------------------------------------------------------------------
void spec_C03_default() { A a; claim(a.size()==0 && a.empty(), "a default-constructed array is empty"); claim(a.begin()==a.end(),"no elements"); }
void spec_C03_sized() { size_t n=any_size(), k=any_size(); A a(n); claim(a.size()==n,"size"); if(k<n) { DEFAULTED(a[k]) } }
void spec_C03_sized_value() { size_t n=any_size(), k=any_size(); E const& x=spec::any<E>(); A a(n,x); claim(a.size()==n,"size"); if(k<n) claim(same(a[k],x),"each element is a copy of the value"); claim(spec::untouched_obj(x),"value untouched"); }
void spec_C03_init_list() { E& x=spec::any<E>(); E& y=spec::any<E>(); A a({x,y}); claim(a.size()==2,"size"); claim(same(a[0],x)&&same(a[1],y),"elements in order"); A b{x}; claim(b.size()==1&&same(b[0],x),"one element"); }
void spec_C03_range() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); claim(a.size()==n,"size"); if(k<n) claim(same(a[k],s[k]),"element k is the k-th of the range"); claim(spec::untouched(s),"source untouched"); }
void spec_C03_generate() { size_t n=any_size(), k=any_size(); G const& g=spec::any<G>(); A a(n,g); claim(a.size()==n,"size"); if(k<n) claim(same(a[k],g(k)),"element k is g(k)"); }
void spec_C03_convert() { size_t n=any_size(), k=any_size(); W const* s=any_elems<W>(n); Array<W> w(s,s+n); A a(w); claim(a.size()==n,"size"); if(k<n) { claim(same(a[k],static_cast<E>(w[k])),"element k is the conversion of element k"); claim(same(w[k],s[k]),"source untouched"); } }
void spec_C03_convert_explicit() { size_t n=any_size(), k=any_size(); F const* s=any_elems<F>(n); Array<F> w(s,s+n); A a(w); claim(a.size()==n,"size"); if(k<n) { claim(same(a[k],E(w[k])),"element k is constructed from element k"); claim(same(w[k],s[k]),"source untouched"); } }
#ifndef VALUE_KIND
void spec_C03_convert_param() { size_t n=any_size(), k=any_size(); P const& p=spec::any<P>(); F const* s=any_elems<F>(n); Array<F> w(s,s+n); A a(w,p); claim(a.size()==n,"size"); if(k<n) { claim(same(a[k],E(w[k],p)),"element k is constructed from element k and the parameter"); claim(same(w[k],s[k]),"source untouched"); } }
#endif
#ifndef VALUE_KIND
void spec_C03_init_doubles() { P const& p=spec::any<P>(); A a({1.5,2.5},p); claim(a.size()==2,"size"); claim(same(a[0],E(1.5,p))&&same(a[1],E(2.5,p)),"elements constructed from the numbers and the parameter"); }
#endif
void spec_C03_copy() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); A const& ca=a; A b(ca); claim(b.size()==n && a.size()==n,"size"); if(k<n) { claim(same(b[k],s[k]),"element k copied"); claim(same(a[k],s[k]),"source untouched"); claim(&a[k]!=&b[k],"own buffer"); } }
void spec_C03_move() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); A b(std::move(a)); claim(b.size()==n && a.size()==0,"a move leaves the source empty"); claim(a.begin()==a.end(),"moved-from has no elements"); if(k<n) claim(same(b[k],s[k]),"element k transferred"); }
void spec_C03_copy_assign() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); A a(s,s+n); A b(t,t+m); A& r=(b=a); claim(&r==&b,"returns the array"); claim(b.size()==n && a.size()==n,"size"); if(k<n) { claim(same(b[k],s[k]),"element k copied"); claim(same(a[k],s[k]),"source untouched"); claim(&a[k]!=&b[k],"own buffer"); } }
void spec_C03_self_assign() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); A& r=a; a=r; claim(a.size()==n,"size"); if(k<n) claim(same(a[k],s[k]),"self-assignment changes nothing"); }
void spec_C03_move_assign() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); A a(s,s+n); A b(t,t+m); A& r=(b=std::move(a)); claim(&r==&b,"returns the array"); claim(b.size()==n,"size"); claim(a.size()==0 && a.begin()==a.end(),"source left empty"); if(k<n) { claim(same(b[k],s[k]),"element k transferred"); } }
void spec_C03_move_assign_self() { size_t n=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); A& r=a; a=std::move(r); size_t m=a.size(); claim(m==n||m==0,"a self-moved array is valid"); size_t k=any_size(); if(k<m) { E x(a[k]); } }
void spec_C03_swap() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); A a(s,s+n); A b(t,t+m); a.swap(b); claim(b.size()==n && a.size()==m,"sizes exchanged"); if(k<n) claim(same(b[k],s[k]),"elements exchanged"); if(k<m) claim(same(a[k],t[k]),"elements exchanged"); }
void spec_C03_resize() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); a.resize(m); claim(a.size()==m,"size"); if(k<m) { if(k<n) claim(same(a[k],s[k]),"old elements kept"); else { DEFAULTED(a[k]) } } }
void spec_C03_resize_value() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const& x=spec::any<E>(); A a(s,s+n); a.resize(m,x); claim(a.size()==m,"size"); if(k<m) { if(k<n) claim(same(a[k],s[k]),"old elements kept"); else claim(same(a[k],x),"new elements are copies of the value"); } }
void spec_C03_resize_own_element() { size_t n=any_size(), m=any_size(), k=any_size(), j=any_size(); assume(j<n); E const* s=any_elems<E>(n); A a(s,s+n); a.resize(m,a[j]); claim(a.size()==m,"size"); if(k<m) { if(k<n) claim(same(a[k],s[k]),"old elements kept"); else claim(same(a[k],s[j]),"new elements are copies of the value"); } }
void spec_C03_reallocate() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); a.reallocate(m); claim(a.size()==m,"size"); if(k<m && n!=m) { DEFAULTED(a[k]) } }
void spec_C03_fill() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const& x=spec::any<E>(); A a(s,s+n); a.fill(x); claim(a.size()==n,"size"); if(k<n) claim(same(a[k],x),"each element is the value"); }
void spec_C03_fill_from() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(n); A a(s,s+n); a.fill(t); claim(a.size()==n,"size"); if(k<n) claim(same(a[k],t[k]),"element k is the k-th of the sequence"); claim(spec::untouched(t),"source untouched"); }
void spec_C03_assign() { size_t n=any_size(), m=any_size(), k=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); A a(s,s+n); a.assign(t,t+m); claim(a.size()==m,"size"); if(k<m) claim(same(a[k],t[k]),"element k is the k-th of the sequence"); claim(spec::untouched(t),"source untouched"); }

// ---- C04: access and comparison ------------------------------------------------------------------
void spec_C04_at() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); bool thrown=false;
    try { E& x=a.at(k); claim(&x==&a[k],"checked access refers to element k"); claim(same(x,s[k]),"element k"); } catch(std::out_of_range const&) { thrown=true; }
    claim(thrown==(k>=n),"checked access throws exactly when the index is out of range"); }
void spec_C04_at_const() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); A const a(s,s+n); bool thrown=false;
    try { E const& x=a.at(k); claim(&x==&a[k],"checked access refers to element k"); claim(same(x,s[k]),"element k"); } catch(std::out_of_range const&) { thrown=true; }
    claim(thrown==(k>=n),"checked access throws exactly when the index is out of range"); }
void spec_C04_ends() { size_t n=any_size(), k=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); A const& c=a;
    claim(a.size()==n && c.size()==n,"size"); claim(a.empty()==(n==0),"emptiness"); claim(a.end()-a.begin()==(std::ptrdiff_t)n,"end"); claim(c.begin()==a.begin() && c.end()==a.end(),"const and non-const agree");
    if(n>0) { claim(&a.front()==a.begin() && &c.front()==a.begin(),"front is the first element"); claim(&a.back()==a.begin()+(n-1) && &c.back()==a.begin()+(n-1),"back is the last element"); claim(same(a.front(),s[0]) && same(a.back(),s[n-1]),"values"); }
    if(k<n) { claim(&a[k]==a.begin()+k && &c[k]==a.begin()+k,"element k"); claim(same(c[k],s[k]),"value k"); } }
void spec_C04_equal_sizes_differ() { size_t n=any_size(), m=any_size(); assume(n!=m); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); A const a(s,s+n); A const b(t,t+m); claim(!(a==b),"arrays of different sizes are not equal"); claim(a!=b,"inequality is the negation"); }
void spec_C04_equal_all() { size_t n=any_size(); E const* s=any_elems<E>(n); A const a(s,s+n); A const b(s,s+n); claim(a==b,"arrays with equal elements are equal"); claim(!(a!=b),"inequality is the negation"); }
void spec_C04_equal_one_differs() { size_t n=any_size(), k=any_size(); assume(k<n); E const* s=any_elems<E>(n); E const* t=any_elems<E>(n); assume(s[k]!=t[k]); A const a(s,s+n); A const b(t,t+n); claim(!(a==b),"arrays with a differing element are not equal"); claim(a!=b,"inequality is the negation"); }
void spec_C04x_equal_small() { E const* s=any_elems<E>(3); E const* t=any_elems<E>(3); size_t n=0; while(n!=3 && spec::any_bool()) ++n; bool eq=true; for(size_t i=0;i<n;++i) { if(!(s[i]==t[i])) eq=false; } for(size_t i=0;i<n;++i) { assume((s[i]!=t[i])==!(s[i]==t[i])); } A const a(s,s+n); A const b(t,t+n); claim((a==b)==eq,"arrays are equal exactly if their elements are"); claim((a!=b)==!eq,"inequality is the negation"); }

// ---- C01: lifecycle -------------------------------------------------------------------------------
void spec_C01_default() { A a; A b(a); A c(std::move(a)); b=c; c=std::move(b); c.swap(a); a=a; }
void spec_C01_huge() { size_t n=spec::any_word(); try { A a(n); size_t k=spec::any_word(); if(k<n) { E x(a[k]); } } catch(std::bad_alloc const&) { } }
void spec_C01_huge_value() { size_t n=spec::any_word(); E const& x=spec::any<E>(); try { A a(n,x); size_t k=spec::any_word(); if(k<n) { E y(a[k]); } } catch(std::bad_alloc const&) { } }
void spec_C01_uninitialised() { size_t n=any_size(); { A a(n,Uninitialised()); for(size_t i=0; i!=n; ++i) { new (&a[i]) E(); } claim(a.size()==n,"size"); } }
void spec_C01_moved_from_assign() { size_t n=any_size(), m=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); A a(s,s+n); A b(std::move(a)); A c(t,t+m); a=c; b=std::move(a); a=std::move(c); c=b; }
void spec_C01_moved_from_resize() { size_t n=any_size(), m=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); A b(std::move(a)); a.resize(m); b.reallocate(m); a.swap(b); }
void spec_C01_resize_twice() { size_t n=any_size(), m=any_size(); E const* s=any_elems<E>(n); E const& x=spec::any<E>(); A a(s,s+n); a.resize(m); a.resize(n,x); a.reallocate(m); }
void spec_C01_self_swap() { size_t n=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); A& r=a; a.swap(r); claim(a.size()==n,"size"); }
void spec_C01_copy_chain() { size_t n=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); A b(a); A c; c=b; b=a; a=std::move(c); c=a; }

// ---- C02: throwing elements -------------------------------------------------------------------------
static void usable(A& a) { spec::throwing(""); size_t k=any_size(); if(k<a.size()) { E x(a[k]); a[k]=x; } E const* s=any_elems<E>(2); A t(s,s+2); a=t; claim(a.size()==2 && same(a[1],s[1]),"an array that survived a failure can be assigned"); }
#define ATTEMPT(kinds,op) spec::nothrow("F G P W"); spec::throwing(kinds); try { op; } catch(...) { } spec::throwing("");
void spec_C02_sized() { size_t n=any_size(); ATTEMPT("default copy alloc", A a(n)) }
void spec_C02_sized_value() { size_t n=any_size(); E const& x=spec::any<E>(); ATTEMPT("copy alloc", A a(n,x)) }
void spec_C02_init_list() { E& x=spec::any<E>(); E& y=spec::any<E>(); ATTEMPT("copy alloc", A a({x,y})) }
void spec_C02_range() { size_t n=any_size(); E const* s=any_elems<E>(n); ATTEMPT("copy alloc", A a(s,s+n)) claim(spec::untouched(s),"source untouched"); }
void spec_C02_generate() { size_t n=any_size(); G const& g=spec::any<G>(); ATTEMPT("copy move call alloc", A a(n,g)) }
void spec_C02_convert() { size_t n=any_size(); W const* s=any_elems<W>(n); Array<W> w(s,s+n); ATTEMPT("copy move convert call alloc", A a(w)) }
void spec_C02_convert_explicit() { size_t n=any_size(); F const* s=any_elems<F>(n); Array<F> w(s,s+n); ATTEMPT("convert copy alloc", A a(w)) }
#ifndef VALUE_KIND
void spec_C02_convert_param() { size_t n=any_size(); P const& p=spec::any<P>(); F const* s=any_elems<F>(n); Array<F> w(s,s+n); ATTEMPT("convert copy alloc", A a(w,p)) }
#endif
#ifndef VALUE_KIND
void spec_C02_init_doubles() { P const& p=spec::any<P>(); ATTEMPT("convert copy alloc", A a({1.5,2.5},p)) }
#endif
void spec_C02_copy() { size_t n=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); A const& c=a; ATTEMPT("copy alloc", A b(c)) usable(a); }
void spec_C02_move() { size_t n=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); ATTEMPT("copy move default alloc", A b(std::move(a))) usable(a); }
void spec_C02_copy_assign() { size_t n=any_size(), m=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); A a(s,s+n); A b(t,t+m); A const& c=a; ATTEMPT("copy assign alloc", b=c) usable(b); usable(a); }
void spec_C02_move_assign() { size_t n=any_size(), m=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); A a(s,s+n); A b(t,t+m); ATTEMPT("copy move default assign moveassign alloc", b=std::move(a)) usable(b); usable(a); }
void spec_C02_resize() { size_t n=any_size(), m=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); ATTEMPT("copy move default alloc", a.resize(m)) usable(a); }
void spec_C02_resize_value() { size_t n=any_size(), m=any_size(); E const* s=any_elems<E>(n); E const& x=spec::any<E>(); A a(s,s+n); ATTEMPT("copy move alloc", a.resize(m,x)) usable(a); }
void spec_C02_reallocate() { size_t n=any_size(), m=any_size(); E const* s=any_elems<E>(n); A a(s,s+n); ATTEMPT("copy move default alloc", a.reallocate(m)) usable(a); }
void spec_C02_fill() { size_t n=any_size(); E const* s=any_elems<E>(n); E const& x=spec::any<E>(); A a(s,s+n); ATTEMPT("assign copy", a.fill(x)) usable(a); }
void spec_C02_fill_from() { size_t n=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(n); A a(s,s+n); ATTEMPT("assign copy", a.fill(t)) usable(a); }
void spec_C02_assign() { size_t n=any_size(), m=any_size(); E const* s=any_elems<E>(n); E const* t=any_elems<E>(m); A a(s,s+n); ATTEMPT("copy move default assign alloc", a.assign(t,t+m)) usable(a); }
