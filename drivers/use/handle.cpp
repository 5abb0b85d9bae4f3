#include "handle.hpp"
#include "values.hpp"
using namespace Helper;
using probe::any;
namespace probe {
class ShapeInterface { public: virtual ~ShapeInterface(); virtual double area() const=0; virtual ShapeInterface* clone() const=0; virtual ShapeInterface* _copy() const=0; virtual ShapeInterface* _move()=0; };
class ColouredInterface : public virtual ShapeInterface { public: ColouredInterface* clone() const override=0; virtual int colour() const=0; ColouredInterface* _copy() const override=0; ColouredInterface* _move() override=0; };
class Circle : public virtual ShapeInterface { public: Circle(); explicit Circle(double); double area() const override; Circle* clone() const override; Circle* _copy() const override; Circle* _move() override; };
class Disc : public virtual ColouredInterface { public: Disc(); double area() const override; int colour() const override; Disc* clone() const override; Disc* _copy() const override; Disc* _move() override; };
class Box { public: Box(); };
class WrappedBox : public Wrapper<Box,ShapeInterface> { public: WrappedBox(Box const& b) : Wrapper<Box,ShapeInterface>(b) { } WrappedBox(Box&& b) : Wrapper<Box,ShapeInterface>(static_cast<Box&&>(b)) { } double area() const override; ShapeInterface* clone() const override; ShapeInterface* _copy() const override; ShapeInterface* _move() override; };
class WrittenInterface : public virtual WritableInterface { public: virtual WrittenInterface* clone() const=0; virtual WrittenInterface* _copy() const=0; virtual WrittenInterface* _move()=0; };
class Shape : public Handle<ShapeInterface> { public: using Handle<ShapeInterface>::Handle; Shape(Handle<ShapeInterface> h) : Handle<ShapeInterface>(h) { } };
class Coloured : public Handle<ColouredInterface> { public: using Handle<ColouredInterface>::Handle; Coloured(Handle<ColouredInterface> h) : Handle<ColouredInterface>(h) { } };
class ConstColoured : public Handle<ColouredInterface const> { public: using Handle<ColouredInterface const>::Handle; ConstColoured(Handle<ColouredInterface const> h) : Handle<ColouredInterface const>(h) { } };
}
using namespace probe;
template class Helper::Handle<probe::ShapeInterface>;
template class Helper::Handle<probe::ColouredInterface>;
template class Helper::Handle<probe::WrittenInterface>;
void uses() {
    Handle<ShapeInterface> a(new Circle()); Handle<ShapeInterface> b(std::make_shared<Circle>()); Handle<ShapeInterface> c=Circle(1.5); Handle<ShapeInterface> d(any<Circle const>()); Handle<ShapeInterface> e(any<ShapeInterface const>()); Handle<ShapeInterface> f(static_cast<ShapeInterface&&>(any<ShapeInterface>()));
    Handle<ShapeInterface> g(a); Handle<ShapeInterface> h(static_cast<Handle<ShapeInterface>&&>(a)); a=b; a=static_cast<Handle<ShapeInterface>&&>(b); Handle<ShapeInterface> i(any<Handle<ColouredInterface> const>()); Handle<ShapeInterface const> j(any<Handle<ShapeInterface>>()); Handle<ShapeInterface const> k(std::make_shared<Circle>()); Handle<ShapeInterface const> l(any<Circle const>());
    Handle<ShapeInterface> const& ka=a; ShapeInterface const& r=ka; double x=ka.reference().area()+ka.const_reference().area()+ka.pointer()->area()+ka.const_pointer()->area()+ka.raw_pointer()->area()+ka.raw_const_pointer()->area()+ka.ref().area()+ka.ptr()->area()+ka.managed_pointer()->area()+ka.managed_const_pointer()->area()+r.area(); (void)x;
    ShapeInterface& m=a.reference(); ShapeInterface* p=a.pointer(); p=a.raw_pointer(); m=a.ref(); p=a.ptr(); std::shared_ptr<ShapeInterface> sp=a.managed_pointer();
    Handle<ShapeInterface const> const& kj=j; kj.reference().area(); j.reference().area(); j.pointer()->area(); j.managed_pointer()->area(); kj.managed_pointer()->area();
    Handle<Circle> mk=make_handle<Circle>(1.5); mk=make_handle<Circle>();
    Shape s(new Circle()); Shape s2=dynamic_handle_cast<Shape>(any<Coloured const>()); Coloured cl=dynamic_handle_cast<Coloured>(any<Shape const>()); ConstColoured kc=dynamic_handle_cast<ConstColoured>(any<Handle<ShapeInterface const> const>()); kc=dynamic_handle_cast<ConstColoured>(any<Handle<ShapeInterface const>>()); cl=dynamic_handle_cast<Coloured>(any<Handle<ShapeInterface>>());
    Circle const& ec=dynamic_handle_extract<Circle>(any<Handle<ShapeInterface const> const>()); Circle const& ed=dynamic_handle_extract<Circle>(any<Handle<ShapeInterface> const>()); Circle& ee=dynamic_handle_extract<Circle>(any<Handle<ShapeInterface>>()); Box& eb=dynamic_handle_extract<Box>(any<Handle<ShapeInterface>>()); Box const& ef=dynamic_handle_extract<Box>(any<Handle<ShapeInterface> const>()); (void)ec; (void)ed; (void)ee; (void)eb; (void)ef; Disc const& dd=dynamic_handle_extract<Disc>(any<Shape>()); (void)dd;
    std::shared_ptr<Circle const> pe=dynamic_pointer_extract<Circle>(any<std::shared_ptr<ShapeInterface const> const>()); std::shared_ptr<Box const> pb=dynamic_pointer_extract<Box>(any<std::shared_ptr<ShapeInterface const> const>());
    WrappedBox w{Box()}; WrappedBox v(any<Box const>()); write_error(any<std::ostream>(),"f",any<WritableInterface const*>(),"i","c","t");
    any<std::ostream>() << any<WrittenInterface const>() << a.reference().area();
}
