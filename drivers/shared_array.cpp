#include "array.hpp"
#include <utility>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::any_elems; using spec::any_size; using spec::same; using spec::assume; using std::size_t;

namespace probe {
#ifdef KIND_NUMBER
typedef KIND_NUMBER E;
#else
struct E { SPECIALS(E)
};
#endif
}
using probe::E;
#if defined KIND_TRIVIAL || defined KIND_NUMBER
#define DEFAULTED (void)k;
#else
#define DEFAULTED if(k<n) { E d; claim(same(a[k],d),"default elements"); }
#endif
using S=SharedArray<E>;

void spec_C05_sized() { size_t n=any_size(), k=any_size(); S a(n); claim(a.size()==n,"size"); claim(a.end()-a.begin()==(std::ptrdiff_t)n,"range"); DEFAULTED }
void spec_C05_sized_value() { size_t n=any_size(), k=any_size(); E const& x=spec::any<E>(); S a(n,x); claim(a.size()==n,"size"); if(k<n) claim(same(a[k],x),"each element is the value"); }
void spec_C05_init_list() { E& x=spec::any<E>(); E& y=spec::any<E>(); S a({x,y}); claim(a.size()==2 && same(a[0],x) && same(a[1],y),"elements in order"); }
void spec_C05_aliases() { size_t n=any_size(), k=any_size(); assume(k<n); E const& x=spec::any<E>(); S a(n); S b(a); S const& c=b; claim(b.size()==n,"size"); claim(&a[k]==&b[k] && &c[k]==&a[k],"a copy refers to the same elements"); a[k]=x; claim(same(b[k],x),"writes through one copy are seen through the other"); claim(b.begin()==a.begin() && b.end()==a.end() && c.begin()==a.begin() && c.end()==a.end(),"same range"); }
void spec_C05_copy_outlives() { size_t n=any_size(), k=any_size(); assume(k<n); E const& x=spec::any<E>(); S* a=new S(n,x); S b(*a); delete a; claim(b.size()==n && same(b[k],x),"the elements live as long as some copy"); S c(b); { S d(c); } claim(same(c[k],x),"still alive"); }
void spec_C05_assign() { size_t n=any_size(), m=any_size(), k=any_size(); E const& x=spec::any<E>(); E const& y=spec::any<E>(); S a(n,x); S b(m,y); S& r=(b=a); claim(&r==&b,"returns the array"); claim(b.size()==n && a.size()==n,"size"); if(k<n) { claim(&a[k]==&b[k],"shares the elements"); claim(same(b[k],x),"value"); } }
void spec_C05_assign_shared() { size_t n=any_size(), m=any_size(), k=any_size(); E const& x=spec::any<E>(); E const& y=spec::any<E>(); S a(n,x); S b(m,y); S c(b); b=a; claim(c.size()==m,"the other copy keeps its elements"); if(k<m) claim(same(c[k],y),"the other copy keeps its elements"); c=b; if(k<n) claim(&c[k]==&a[k],"shared by all"); }
void spec_C05_self_assign() { size_t n=any_size(), k=any_size(); E const& x=spec::any<E>(); S a(n,x); S& r=a; a=r; claim(a.size()==n,"size"); if(k<n) claim(same(a[k],x),"self-assignment changes nothing"); }
void spec_C05_assign_copy_of_self() { size_t n=any_size(), k=any_size(); E const& x=spec::any<E>(); S a(n,x); { S b(a); a=b; b=a; } claim(a.size()==n,"size"); if(k<n) claim(same(a[k],x),"unchanged"); }
void spec_C05_chain() { size_t n=any_size(), m=any_size(), k=any_size(); assume(k<m); E const& x=spec::any<E>(); S* a=new S(n); S* b=new S(m,x); S* c=new S(*a); *c=*b; *a=*c; delete b; delete a; claim(same((*c)[k],x),"alive through the last copy"); delete c; }
void spec_C05_move() { size_t n=any_size(), k=any_size(); E const& x=spec::any<E>(); S a(n,x); S b(std::move(a)); claim(b.size()==n,"size"); if(k<n) claim(same(b[k],x),"value"); S c(any_size()); c=std::move(b); claim(c.size()==n,"size"); if(k<n) claim(same(c[k],x),"value"); }
