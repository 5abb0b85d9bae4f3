#include "handle.hpp"
#include "writable.hpp"
#include "values.hpp"
using namespace Helper;
using probe::any;
namespace probe { struct Not { }; class NotWriter : public WriterInterface<Not> { std::ostream& _write(std::ostream&,Not const&) const override; };  class IntWriter : public WriterInterface<int> { std::ostream& _write(std::ostream&,int const&) const override; }; }
using namespace probe;
template class Helper::Writer<int>;
void uses() {
    Writer<int> w(new IntWriter()); Writer<int> v(std::make_shared<IntWriter>()); Writer<int> c(w); w=c; any<std::ostream>() << w(3) << any<Writer<Not> const>()(any<Not>()) << 1; Writer<Not> n(any<Handle<WriterInterface<Not>>>()); Writer<Not> m=NotWriter(); Writer<Not> o(any<NotWriter const>());
}
