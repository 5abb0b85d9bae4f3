#include "lazy.hpp"
#include <stdexcept>
#include <functional>
#include <utility>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::any_bool; using spec::any_int;

namespace probe {
struct O { O(int); O(O const&); ~O(); };
struct Bang { };
}
namespace {
using probe::O;
struct Gen { int* calls; bool* fail; O** made; O* operator()() const { ++*calls; if(*fail) throw probe::Bang(); O* p=new O(*calls); *made=p; return p; } };
}

void spec_C09_construct() { int calls=0; bool fail=any_bool(); O* made=nullptr; { Lazy<O> l(std::function<O*()>(Gen{&calls,&fail,&made})); claim(calls==0,"constructing a lazy object does not call its generator"); Lazy<O> m(l); claim(calls==0,"copying a lazy object does not call its generator"); Lazy<O> n(std::move(m)); claim(calls==0,"moving a lazy object does not call its generator"); l=n; claim(calls==0,"assigning a lazy object does not call its generator"); } claim(calls==0,"destroying an unused lazy object does not call its generator"); }
void spec_C09_once() { int calls=0; bool fail=false; O* made=nullptr; Lazy<O> l(std::function<O*()>(Gen{&calls,&fail,&made})); O const& a=l(); claim(calls==1,"the first access calls the generator once"); claim(&a==made,"the result is the generated object"); O const& b=l(); claim(calls==1,"a later access does not call the generator"); claim(&a==&b,"later accesses return the same object"); O const& c=l(); claim(calls==1 && &c==&a,"every later access returns the same object"); }
void spec_C09_many() { int calls=0; bool fail=false; O* made=nullptr; Lazy<O> l(std::function<O*()>(Gen{&calls,&fail,&made})); std::size_t n=spec::any_size(); O const* first=&l(); for(std::size_t i=0;i<n;++i) { O const* p=&l(); claim(p==first,"every access returns the same object"); claim(calls==1,"the generator is called once however often the object is used"); } }
void spec_C09_const() { int calls=0; bool fail=false; O* made=nullptr; Lazy<O> const l(std::function<O*()>(Gen{&calls,&fail,&made})); O const& a=l(); O const& b=l(); claim(calls==1 && &a==&b && &a==made,"also through a const lazy object"); }
void spec_C09_throw() { int calls=0; bool fail=true; O* made=nullptr; Lazy<O> l(std::function<O*()>(Gen{&calls,&fail,&made}));
    bool threw=false; try { l(); } catch(probe::Bang const&) { threw=true; } claim(threw,"the generator's exception reaches the caller"); claim(calls==1,"called once");
    if(any_bool()) { threw=false; try { l(); } catch(probe::Bang const&) { threw=true; } claim(threw && calls==2,"nothing is stored by a failed access, so the next one calls the generator again"); }
    int k=calls; fail=false; O const& a=l(); claim(calls==k+1,"after a failure the next access calls the generator"); claim(&a==made,"and returns what it made"); O const& b=l(); claim(calls==k+1 && &b==&a,"and that result is then reused"); }
void spec_C09_copy_used() { int calls=0; bool fail=false; O* made=nullptr; Lazy<O> l(std::function<O*()>(Gen{&calls,&fail,&made})); O const& a=l(); { Lazy<O> m(l); claim(calls==1,"copying a used lazy object does not call its generator"); O const& b=m(); int k=calls; claim(k<=2,"an access calls the generator at most once"); O const& c=m(); claim(calls==k && &b==&c,"the copy reuses its result"); } O const& d=l(); claim(&d==&a,"the original keeps its object while copies come and go"); }
void spec_C09_copy_unused() { int calls=0; bool fail=false; O* made=nullptr; Lazy<O> l(std::function<O*()>(Gen{&calls,&fail,&made})); Lazy<O> m(l); O const& a=m(); claim(calls==1,"first access through the copy calls the generator once"); O const& b=m(); claim(&a==&b && calls==1,"reused"); O const& c=l(); int k=calls; claim(k<=2,"at most once per object"); O const& d=l(); claim(&c==&d && calls==k,"reused by the original too"); }
void spec_C09_reentrant_type() { int calls=0; Lazy<O> l([&calls](){ ++calls; return new O(7); }); O const& a=l(); O const& b=l(); claim(calls==1 && &a==&b,"a lambda generator is called once"); }
void spec_C09_assign_used() { int calls=0; bool fail=false; O* made=nullptr; int calls2=0; O* made2=nullptr; Lazy<O> l(std::function<O*()>(Gen{&calls,&fail,&made})); Lazy<O> m(std::function<O*()>(Gen{&calls2,&fail,&made2})); l(); m(); l=m; O const& x=l(); claim(calls==1,"the replaced generator is not called again"); O const& y=l(); claim(&x==&y,"reused"); }
