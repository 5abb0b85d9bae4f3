#include "writable.hpp"
#include "string.hpp"
#include "handle.hpp"
#include <memory>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::same; using spec::expect; using spec::then; using spec::expected; using std::ostream;

namespace probe {
struct E { E(); E(E const&); E(E&&); E& operator=(E const&); E& operator=(E&&); ~E(); friend std::ostream& operator<<(std::ostream&, E const&); };
struct D { D(); D(D const&); D(D&&); D& operator=(D const&); D& operator=(D&&); ~D(); friend std::ostream& operator<<(std::ostream&, D const&); };
}
using probe::E; using probe::D;

/* Objects that write themselves: through the interface, through a class derived from it, and without it. */
int calls=0;
struct Object : WritableInterface { E const& x; Object(E const& y) : x(y) { } ostream& _write(ostream& os) const override { ++calls; return os << x; } };
struct Special : Object { D const& y; Special(E const& e, D const& d) : Object(e), y(d) { } ostream& _write(ostream& os) const override { ++calls; return os << y; } };
struct Silent : WritableInterface { ostream& _write(ostream& os) const override { ++calls; return os; } };
struct Plain { E const& x; Plain(E const& y) : x(y) { } ostream& _write(ostream& os) const { ++calls; return os << x; } };
struct PlainVoidless { E const& x; ostream& _write(ostream& os) const { ++calls; os << '<' << x; os << '>'; return os; } };
template<class T> struct Bracketed { T const& x; Bracketed(T const& y) : x(y) { } ostream& _write(ostream& os) const { ++calls; return os << '(' << x << ')'; } };
struct Elsewhere : WritableInterface { ostream& other; E const& x; Elsewhere(ostream& o, E const& y) : other(o), x(y) { } ostream& _write(ostream& os) const override { ++calls; os << x; return other; } };
struct Both : virtual WritableInterface { virtual ~Both() = default; E const& x; Both(E const& y) : x(y) { } ostream& _write(ostream& os) const override { ++calls; return os << x; } };
struct Unwritable { };
struct Recorder : WritableInterface { mutable ostream* seen=nullptr; mutable Recorder const* self=nullptr; ostream& _write(ostream& os) const override { ++calls; seen=&os; self=this; return os; } };
struct PlainRecorder { mutable ostream* seen=nullptr; mutable PlainRecorder const* self=nullptr; ostream& _write(ostream& os) const { ++calls; seen=&os; self=this; return os; } };

#define START ostream& os=spec::stream(); calls=0;
#define OBJECT(expr,k) ostream& r=(expr); claim(&r==&os,"streaming an object returns the stream it was given"); claim(calls==k,"the write operation is called once"); expected(os);

void spec_C30_interface() { START E const& x=spec::any<E>(); Object const o(x); WritableInterface const& w=o; expect(os); then(os,x); OBJECT(os << w,1) }
void spec_C30_interface_pointer() { START E const& x=spec::any<E>(); std::unique_ptr<WritableInterface> p(new Object(x)); expect(os); then(os,x); OBJECT(os << *p,1) }
void spec_C30_object() { START E const& x=spec::any<E>(); Object o(x); expect(os); then(os,x); OBJECT(os << o,1) }
void spec_C30_derived() { START E const& x=spec::any<E>(); D const& y=spec::any<D>(); Special o(x,y); expect(os); then(os,y); OBJECT(os << o,1) }
void spec_C30_derived_as_base() { START E const& x=spec::any<E>(); D const& y=spec::any<D>(); Special o(x,y); Object const& b=o; expect(os); then(os,y); OBJECT(os << b,1) }
void spec_C30_derived_as_interface() { START E const& x=spec::any<E>(); D const& y=spec::any<D>(); Special o(x,y); WritableInterface const& b=o; expect(os); then(os,y); OBJECT(os << b,1) }
void spec_C30_silent() { START Silent o; expect(os); OBJECT(os << o,1) }
void spec_C30_virtual_base() { START E const& x=spec::any<E>(); Both o(x); expect(os); then(os,x); OBJECT(os << o,1) }
void spec_C30_virtual_base_interface() { START E const& x=spec::any<E>(); Both o(x); WritableInterface& w=o; expect(os); then(os,x); OBJECT(os << w,1) }
void spec_C30_plain() { START E const& x=spec::any<E>(); Plain o(x); expect(os); then(os,x); OBJECT(os << o,1) }
void spec_C30_plain_temporary() { START E const& x=spec::any<E>(); expect(os); then(os,x); OBJECT(os << Plain(x),1) }
void spec_C30_plain_parts() { START E const& x=spec::any<E>(); PlainVoidless o{x}; expect(os); then(os,'<'); then(os,x); then(os,'>'); OBJECT(os << o,1) }
void spec_C30_nested() { START E const& x=spec::any<E>(); Plain p(x); Bracketed<Plain> o(p); expect(os); then(os,'('); then(os,x); then(os,')'); OBJECT(os << o,2) }
void spec_C30_nested_interface() { START E const& x=spec::any<E>(); Object p(x); Bracketed<WritableInterface> o(p); expect(os); then(os,'('); then(os,x); then(os,')'); OBJECT(os << o,2) }
void spec_C30_chain() { START E const& x=spec::any<E>(); D const& y=spec::any<D>(); Special o(x,y); Plain p(x); expect(os); then(os,y); then(os,','); then(os,x); then(os,';'); OBJECT(os << o << ',' << p << ';',2) }
void spec_C30_write() { START E const& x=spec::any<E>(); D const& y=spec::any<D>(); Special o(x,y); WritableInterface const& w=o; expect(os); then(os,y); OBJECT(w.write(os),1) }
void spec_C30_interface_returns_given() { START ostream& other=spec::stream(); E const& x=spec::any<E>(); Elsewhere o(other,x); WritableInterface const& w=o; expect(os); then(os,x); OBJECT(os << w,1) }

void spec_C30_interface_argument() { START Recorder o; WritableInterface const& w=o; ostream& r=(os << w); claim(&r==&os && o.seen==&os && o.self==&o && calls==1,"the object itself writes to the stream itself"); }
void spec_C30_plain_argument() { START PlainRecorder o; ostream& r=(os << o); claim(&r==&os && o.seen==&os && o.self==&o && calls==1,"the object itself writes to the stream itself"); }

/* Writers. */
struct FancyWriter : WriterInterface<E> { D const& d; FancyWriter(D const& y) : d(y) { } private: ostream& _write(ostream& os, E const& x) const override { ++calls; return os << d << x; } };
struct BareWriter : WriterInterface<E> { private: ostream& _write(ostream& os, E const& x) const override { ++calls; return os << x; } };
struct ObjectWriter : WriterInterface<Object> { private: ostream& _write(ostream& os, Object const& o) const override { ++calls; return os << '[' << o << ']'; } };
void spec_C30_writer_interface() { START E const& x=spec::any<E>(); D const& d=spec::any<D>(); FancyWriter f(d); WriterInterface<E> const& w=f; expect(os); then(os,d); then(os,x); OBJECT(os << w(x),1) }
void spec_C30_writer_derived() { START E const& x=spec::any<E>(); D const& d=spec::any<D>(); FancyWriter f(d); expect(os); then(os,d); then(os,x); OBJECT(os << f(x),1) }
void spec_C30_writer_kept() { START E const& x=spec::any<E>(); D const& d=spec::any<D>(); FancyWriter f(d); auto t=f(x); claim(calls==0,"nothing is written before streaming"); expect(os); then(os,d); then(os,x); then(os,d); then(os,x); OBJECT(os << t << t,2) }
void spec_C30_writers_differ() { START E const& x=spec::any<E>(); E const& y=spec::any<E>(); D const& d=spec::any<D>(); FancyWriter f(d); BareWriter b; WriterInterface<E> const& v=f; WriterInterface<E> const& w=b; expect(os); then(os,d); then(os,x); then(os,y); OBJECT(os << v(x) << w(y),2) }
void spec_C30_writer_object() { START E const& x=spec::any<E>(); Object o(x); ObjectWriter w; expect(os); then(os,'['); then(os,x); then(os,']'); OBJECT(os << w(o),2) }
void spec_C30_writer() { START E const& x=spec::any<E>(); D const& d=spec::any<D>(); Writer<E> w(std::make_shared<FancyWriter>(d)); expect(os); then(os,d); then(os,x); OBJECT(os << w(x),1) }
void spec_C30_writer_from_pointer() { START E const& x=spec::any<E>(); D const& d=spec::any<D>(); Writer<E> w(new FancyWriter(d)); expect(os); then(os,d); then(os,x); OBJECT(os << w(x),1) }
void spec_C30_writer_from_handle() { START E const& x=spec::any<E>(); D const& d=spec::any<D>(); Handle<WriterInterface<E>> h(std::make_shared<FancyWriter>(d)); Writer<E> w(h); expect(os); then(os,d); then(os,x); OBJECT(os << w(x),1) }
void spec_C30_writer_copy() { START E const& x=spec::any<E>(); D const& d=spec::any<D>(); Writer<E> w(std::make_shared<FancyWriter>(d)); Writer<E> const v(w); expect(os); then(os,d); then(os,x); OBJECT(os << v(x),1) }
void spec_C30_writer_assign() { START E const& x=spec::any<E>(); D const& d=spec::any<D>(); Writer<E> w(std::make_shared<BareWriter>()); w=Writer<E>(std::make_shared<FancyWriter>(d)); expect(os); then(os,d); then(os,x); OBJECT(os << w(x),1) }

struct RecordingWriter : WriterInterface<Object> { mutable ostream* seen=nullptr; mutable Object const* self=nullptr; private: ostream& _write(ostream& os, Object const& o) const override { ++calls; seen=&os; self=&o; return os; } };
void spec_C30_writer_argument() { START E const& x=spec::any<E>(); D const& d=spec::any<D>(); Special o(x,d); RecordingWriter w; ostream& r=(os << w(o)); claim(&r==&os && w.seen==&os && w.self==&o && calls==1,"the writer is given the object and the stream themselves"); }
void spec_C30_writer_derived_object() { START E const& x=spec::any<E>(); D const& d=spec::any<D>(); Special o(x,d); Writer<Object> w(std::make_shared<ObjectWriter>()); expect(os); then(os,'['); then(os,d); then(os,']'); OBJECT(os << w(o),2) }

/* Strings. */
#define TEXT(str) spec::nuls(); String s(str); expect(os); then(os,x); os << s; expected(os);
void spec_C30_to_string() { START E const& x=spec::any<E>(); TEXT(to_string(x)) }
void spec_C30_to_str() { START E const& x=spec::any<E>(); TEXT(to_str(x)) }
void spec_C30_to_string_c_str() { START E const& x=spec::any<E>(); String const t=to_string(x); expect(os); then(os,x); os << c_str(t); expected(os); claim(c_str(t)==t.c_str(),"the characters of the string itself"); }
void spec_C30_to_string_object() { START E const& x=spec::any<E>(); Plain o(x); String s(to_string(o)); claim(calls==1,"the write operation is called once"); expect(os); then(os,x); os << s; expected(os); }
void spec_C30_to_string_interface() { START E const& x=spec::any<E>(); Object o(x); WritableInterface const& w=o; String s(to_str(w)); claim(calls==1,"the write operation is called once"); expect(os); then(os,x); os << s; expected(os); }
void spec_C30_to_string_writer() { START E const& x=spec::any<E>(); D const& d=spec::any<D>(); FancyWriter f(d); String s(to_string(f(x))); expect(os); then(os,d); then(os,x); os << s; expected(os); }
void spec_C30_to_string_int() { START int x=spec::any_int(); TEXT(to_string(x)) }
void spec_C30_to_string_size() { START std::size_t x=spec::any_size(); TEXT(to_string(x)) }
void spec_C30_to_string_double() { START double x=spec::any_double(); TEXT(to_string(x)) }
void spec_C30_to_string_char() { START char x=spec::any_char(); TEXT(to_string(x)) }
void spec_C30_to_string_string() { START E const& x=spec::any<E>(); String const t=to_string(x); String s=to_string(t); expect(os); then(os,x); os << s; expected(os); }
void spec_C30_to_string_literal() { START String s=to_str("text"); expect(os); then(os,"text"); os << s; expected(os); claim(s=="text","the characters"); claim(s.size()==4u,"the length"); }
void spec_C30_to_string_twice() { START E const& x=spec::any<E>(); E const& y=spec::any<E>(); String s=to_string(x); String t=to_string(y); expect(os); then(os,x); then(os,y); then(os,x); os << s << t << s; expected(os); }
void spec_C30_class_name() { claim(class_name<String>()=="String","the name of the string class"); }

static_assert(IsWritable<Object>::value && IsWritable<Special>::value && IsWritable<Plain>::value && IsWritable<WritableInterface>::value && IsWritable<Bracketed<int>>::value && IsWritable<Plain const>::value);
static_assert(!IsWritable<Unwritable>::value && !IsWritable<int>::value && !IsWritable<std::string>::value && !IsWritable<Plain*>::value && !IsWritable<E>::value);
