#include "handle.hpp"
#include <iostream>
#include <memory>
#include <typeinfo>
#include <utility>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::any_int; using spec::any_bool;

// what each handle type still offers, besides what the entry points use
static_assert(std::is_same_v<decltype(std::declval<Handle<int>&>().reference()),int&>);
static_assert(std::is_same_v<decltype(std::declval<Handle<int> const&>().reference()),int const&>);

namespace {
int copies, live;
// an interface, a class and a derived class, another interface
struct I { virtual ~I() { } virtual I* clone() const=0; virtual I* _copy() const=0; virtual I* _move()=0; virtual int get() const=0; virtual void set(int)=0; };
struct J { virtual ~J() { } virtual int more() const=0; };
struct A : I { int v; A(int x) : v(x) { ++live; } A(A const& a) : v(a.v) { ++live; ++copies; } ~A() { --live; }
    A* clone() const override { return new A(*this); } I* _copy() const override { return new A(*this); } I* _move() override { return new A(*this); } int get() const override { return v; } void set(int x) override { v=x; } };
struct B : A, J { int w; B(int x, int y) : A(x), w(y) { } B(B const& b) : A(b), w(b.w) { } B* clone() const override { return new B(*this); } I* _copy() const override { return new B(*this); } I* _move() override { return new B(*this); } int more() const override { return w; } };
struct C : I { int u; C(int x) : u(x) { } I* clone() const override { return new C(*this); } I* _copy() const override { return new C(*this); } I* _move() override { return new C(*this); } int get() const override { return u; } void set(int x) override { u=x; } };
// a class wrapped to implement an interface
struct T { int t; T(int x) : t(x) { } };
struct W : Wrapper<T,I> { W(T const& t) : Wrapper<T,I>(t) { } I* clone() const override { return new W(*this); } I* _copy() const override { return new W(*this); } I* _move() override { return new W(*this); } int get() const override { return t; } void set(int x) override { t=x; } };
typedef Handle<I> H;
typedef Handle<I const> HC;
}
#define START int x=any_int(), y=any_int(); copies=0; live=0;
#define SHARED START A* a=new A(x); H h(a); H other(h); H const& ch=h; H const& co=other; claim(copies==0,"copying a handle does not copy the object");
// afterwards r refers to what h manages
#define UNSHARED(r) claim(&(r)!=&co.const_reference(),"mutable access is to an object no other handle shares"); claim((r).get()==x,"which equals the shared one"); (r).set(y); claim(co.const_reference().get()==x,"the object of the other handle is not modified"); claim(&co.const_reference()==a,"and still the same"); claim(ch.const_reference().get()==y,"the modification shows in the handle"); claim(&ch.const_reference()==&(r),"the handle manages the object it gave access to");

void spec_C19_reference() { SHARED I& r=h.reference(); UNSHARED(r) }
void spec_C19_pointer() { SHARED I* r=h.pointer(); UNSHARED(*r) }
void spec_C19_raw_pointer() { SHARED I* r=h.raw_pointer(); UNSHARED(*r) }
void spec_C19_ref() { SHARED I& r=h.ref(); UNSHARED(r) }
void spec_C19_ptr() { SHARED I* r=h.ptr(); UNSHARED(*r) }
void spec_C19_managed_pointer() { SHARED std::shared_ptr<I> r=h.managed_pointer(); UNSHARED(*r) }
void spec_C19_extract_mutable() { SHARED A& r=dynamic_handle_extract<A>(h); UNSHARED(r) }
void spec_C19_extract_wrapped_mutable() { START T t(x); W* w=new W(t); H h(w); H other(h); H const& ch=h; H const& co=other; T& r=dynamic_handle_extract<T>(h); claim(r.t==x,"the wrapped value"); r.t=y; claim(co.const_reference().get()==x,"the object of the other handle is not modified"); claim(ch.const_reference().get()==y,"the modification shows in the handle"); }
void spec_C19_twice() { SHARED I& r=h.reference(); r.set(y); I& s=other.reference(); s.set(x); claim(ch.const_reference().get()==y,"each handle has its own object"); I& q=h.reference(); claim(q.get()==y,"modifications are kept by later accesses"); }
void spec_C19_third() { SHARED H third(other); I& r=third.reference(); r.set(y); claim(&ch.const_reference()==a && &co.const_reference()==a,"the other handles still share the object"); claim(ch.const_reference().get()==x,"which is not modified"); }
void spec_C19_derived_kept() { START B* b=new B(x,y); H h(b); H other(h); I& r=h.reference(); J* j=dynamic_cast<J*>(&r); claim(j!=nullptr && j->more()==y,"the clone has the type of the object"); }

void spec_C19_const_access() { SHARED claim(&ch.const_reference()==a && &ch.reference()==a && ch.const_pointer()==a && ch.pointer()==a && ch.raw_const_pointer()==a && ch.raw_pointer()==a && &ch.ref()==a && ch.ptr()==a,"read-only access refers to the managed object"); I const& c=ch; claim(&c==a,"so does the conversion"); claim(ch.managed_const_pointer().get()==a && ch.managed_pointer().get()==a,"so do the managed pointers"); claim(copies==0 && live==1,"read-only access never clones"); claim(&co.const_reference()==a,"the object is still shared"); }
void spec_C19_const_access_of_mutable() { SHARED claim(&h.const_reference()==a && h.const_pointer()==a && h.raw_const_pointer()==a && h.managed_const_pointer().get()==a,"explicitly read-only access refers to the managed object"); claim(copies==0,"and never clones"); }
void spec_C19_const_interface() { START A* a=new A(x); HC h(a); HC other(h); claim(&h.reference()==a && h.pointer()==a && h.raw_pointer()==a && &h.ref()==a && h.ptr()==a && h.managed_pointer().get()==a,"access through a handle to a constant interface refers to the managed object"); claim(copies==0,"and never clones"); claim(&other.const_reference()==a,"copies share it"); }

void spec_C19_from_pointer() { START A* a=new A(x); { H h(a); claim(&h.const_reference()==a,"the object pointed to is managed"); claim(copies==0 && live==1,"not copied"); } claim(live==0,"and destroyed with the handle"); }
void spec_C19_from_shared() { START { std::shared_ptr<I> p(new A(x)); { H h(p); claim(&h.const_reference()==p.get(),"the object pointed to is managed"); claim(copies==0,"not copied"); } claim(live==1 && p->get()==x,"and lives as long as its other owners"); } claim(live==0,"and no longer"); }
void spec_C19_from_object() { START { A const a(x); H h(a); claim(&h.const_reference()!=&a,"an object passed by reference is copied"); claim(h.const_reference().get()==x,"with its value"); claim(copies==1,"once"); h.reference().set(y); claim(a.v==x,"and not modified"); } claim(live==0,"all objects are destroyed"); }
void spec_C19_from_interface() { START { A a(x); I const& i=a; H h(i); claim(&h.const_reference()!=&a,"an object passed by reference is copied"); claim(h.const_reference().get()==x,"with its value"); h.reference().set(y); claim(a.v==x,"and not modified"); } claim(live==0,"all objects are destroyed"); }
void spec_C19_from_rvalue() { START { H h(A{x}); claim(h.const_reference().get()==x,"a temporary object is kept"); A a(y); I& i=a; H g(std::move(i)); claim(g.const_reference().get()==y,"also through its interface"); } claim(live==0,"all objects are destroyed"); }
void spec_C19_make() { START { H h=Handle<I>(make_handle<A>(x)); claim(h.const_reference().get()==x,"a handle to a new object"); } claim(live==0,"which is destroyed with it"); }

void spec_C19_assign() { SHARED A* b=new A(y); { H g(b); h=g; claim(&ch.const_reference()==b && &g.const_reference()==b,"assignment shares the object"); claim(&co.const_reference()==a,"other handles keep theirs"); claim(copies==0,"nothing is copied"); h.reference().set(x); claim(b->v==y,"the source of the assignment is independent"); } claim(live==2,"objects are kept as long as a handle manages them"); }
void spec_C19_assign_last() { START { H h(new A(x)); A* b=new A(y); H g(b); h=g; claim(live==1,"an object whose last handle is assigned to is destroyed"); h=h; claim(&h.const_reference()==b && live==1,"self-assignment changes nothing"); } claim(live==0,"all objects are destroyed"); }
void spec_C19_move() { START { A* a=new A(x); H h(a); H g(std::move(h)); claim(&g.const_reference()==a && copies==0 && live==1,"moving a handle moves the ownership of the object"); H k(new A(y)); k=std::move(g); claim(&k.const_reference()==a && live==1,"also in assignments"); } claim(live==0,"all objects are destroyed"); }
void spec_C19_convert() { START A* a=new A(x); { Handle<A> h(a); H g(h); claim(&g.const_reference()==a,"a handle converted to a base interface shares the object"); claim(copies==0,"without copying"); Handle<A> const& ch=h; g.reference().set(y); claim(ch.const_reference().v==x,"a modification does not show in the converted handle"); } claim(live==0,"all objects are destroyed"); }
void spec_C19_convert_const() { START A* a=new A(x); { H h(a); HC g(h); claim(&g.const_reference()==a && copies==0,"a handle to a constant interface shares the object"); h.reference().set(y); claim(g.const_reference().get()==x,"and never sees modifications"); } claim(live==0,"all objects are destroyed"); }

// casts
void spec_C19_cast() { START B* b=new B(x,y); H h(b); H const& ch=h; Handle<A> g=dynamic_handle_cast<Handle<A>>(ch); Handle<A> const& cg=g; claim(&cg.const_reference()==b,"casting to a type the object has shares the object"); g.reference().set(y); claim(ch.const_reference().get()==x,"a modification does not show in the other handle"); }
void spec_C19_cast_across() { START B* b=new B(x,y); H h(b); H const& ch=h; Handle<J const> g=dynamic_handle_cast<Handle<J const>>(ch); claim(&g.const_reference()==b,"casting to another interface of the object shares the object"); claim(g.const_reference().more()==y,"and gives access to it"); claim(copies==0,"without copying"); }
void spec_C19_cast_const() { START B* b=new B(x,y); HC h(b); Handle<A const> g=dynamic_handle_cast<Handle<A const>>(h); claim(&g.const_reference()==b,"casting between handles to constant interfaces shares the object"); claim(copies==0,"without copying"); }
void spec_C19_cast_wrong() { START H h(new C(x)); H const& ch=h; bool bad=false; try { dynamic_handle_cast<Handle<A>>(ch); } catch(std::bad_cast const&) { bad=true; } claim(bad,"casting to a type the object does not have throws bad_cast"); bad=false; try { dynamic_handle_cast<Handle<J const>>(ch); } catch(std::bad_cast const&) { bad=true; } claim(bad,"to another interface too"); claim(ch.const_reference().get()==x,"the handle is as before"); }
void spec_C19_cast_wrong_const() { START HC h(new C(x)); bool bad=false; try { dynamic_handle_cast<Handle<A const>>(h); } catch(std::bad_cast const&) { bad=true; } claim(bad,"casting to a type the object does not have throws bad_cast"); }
void spec_C19_cast_up_wrong() { START H h(new A(x)); H const& ch=h; bool bad=false; try { dynamic_handle_cast<Handle<B>>(ch); } catch(std::bad_cast const&) { bad=true; } claim(bad,"casting to a derived type the object does not have throws bad_cast"); }

// extraction
void spec_C19_extract() { START A* a=new A(x); H h(a); H const& ch=h; A const& r=dynamic_handle_extract<A>(ch); claim(&r==a,"extraction refers to the managed object"); claim(copies==0,"without copying"); }
void spec_C19_extract_derived() { START B* b=new B(x,y); H h(b); H const& ch=h; A const& r=dynamic_handle_extract<A>(ch); claim(&r==b,"extraction of a base class refers to the managed object"); J const& j=dynamic_handle_extract<J>(ch); claim(&j==b && j.more()==y,"of any base class"); }
void spec_C19_extract_const() { START A* a=new A(x); HC h(a); A const& r=dynamic_handle_extract<A>(h); claim(&r==a,"extraction refers to the managed object"); claim(copies==0,"without copying"); }
void spec_C19_extract_wrapped() { START T t(x); W* w=new W(t); H h(w); H const& ch=h; T const& r=dynamic_handle_extract<T>(ch); claim(&r==static_cast<T*>(w),"extraction of a wrapped object refers to it"); claim(r.t==x,"with its value"); }
void spec_C19_extract_wrong() { START H h(new C(x)); H const& ch=h; bool bad=false; try { dynamic_handle_extract<A>(ch); } catch(std::bad_cast const&) { bad=true; } claim(bad,"extracting a type the object does not have throws bad_cast"); bad=false; try { dynamic_handle_extract<T>(ch); } catch(std::bad_cast const&) { bad=true; } claim(bad,"also a type that could be wrapped"); claim(ch.const_reference().get()==x,"the handle is as before"); }
void spec_C19_extract_wrong_mutable() { START H h(new C(x)); H const& ch=h; bool bad=false; try { dynamic_handle_extract<A>(h); } catch(std::bad_cast const&) { bad=true; } claim(bad,"extracting a type the object does not have throws bad_cast"); claim(ch.const_reference().get()==x,"the handle has the same value"); }
void spec_C19_extract_wrong_const() { START HC h(new A(x)); bool bad=false; try { dynamic_handle_extract<B>(h); } catch(std::bad_cast const&) { bad=true; } claim(bad,"extracting a type the object does not have throws bad_cast"); }
void spec_C19_pointer_extract() { START std::shared_ptr<I const> p(new A(x)); std::shared_ptr<A const> q=dynamic_pointer_extract<A>(p); claim(q.get()==p.get(),"extraction from a pointer shares the object"); claim(copies==0,"without copying"); std::shared_ptr<B const> n=dynamic_pointer_extract<B>(p); claim(n.get()==nullptr,"and gives null for a type the object does not have"); }
