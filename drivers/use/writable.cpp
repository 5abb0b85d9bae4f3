#include "writable.hpp"
#include "values.hpp"
#include <sstream>
using namespace Helper;
using probe::any;
namespace probe { struct Own { std::ostream& _write(std::ostream&) const; }; struct Derived : Own { }; class Virtual : public WritableInterface { public: std::ostream& _write(std::ostream&) const override; }; class Further : public Virtual { }; struct Not { }; 
class IntWriter : public WriterInterface<int> { std::ostream& _write(std::ostream&,int const&) const override; }; class NotWriter : public WriterInterface<Not> { std::ostream& _write(std::ostream&,Not const&) const override; }; }
using namespace probe;
template class Helper::WriterInterface<int>;
template class Helper::WriterInterface<std::string>;
template class Helper::WriterInterface<probe::Not>;
static_assert(IsWritable<Own>::value); static_assert(IsWritable<Virtual>::value); static_assert(not IsWritable<Not>::value); static_assert(not IsWritable<int>::value);
void uses() {
    std::ostream& os=any<std::ostream>(); os << any<Own>() << any<Derived const>() << any<Virtual>() << any<Further const>() << any<WritableInterface const>() << 1 << "x" << std::string(); any<std::ostringstream>() << any<Own>(); any<WritableInterface>().write(os) << 1; any<Further>().write(os); os << Own();
    os << any<IntWriter const>()(3) << any<WriterInterface<int> const>()(any<int>()) << any<NotWriter>()(any<Not>()) << 1;
}
