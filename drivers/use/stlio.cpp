#include "stlio.hpp"
#include "values.hpp"
#include <sstream>
using namespace Helper;
using probe::any;
namespace probe { struct Term { int index() const; double coefficient() const; }; }
template<class C> void write() {
    std::ostream& os=any<std::ostream>(); C& c=any<C>(); C const& k=c;
    write_sequence(os,c.begin(),c.end()); write_sequence(os,k.begin(),k.end(),'(',')',';') << 1; write_sequence(any<std::ostringstream>(),k.begin(),k.end(),'<');
}
template<class C> void pointers() {
    std::ostream& os=any<std::ostream>(); C& c=any<C>(); C const& k=c;
    write_pointer_sequence(os,c.begin(),c.end()); write_pointer_sequence(os,k.begin(),k.end(),'(',')',';') << 1;
}
template<class C> void map() {
    std::ostream& os=any<std::ostream>(); C& c=any<C>(); C const& k=c;
    write_map_sequence(os,c.begin(),c.end()); write_map_sequence(os,k.begin(),k.end(),'(',')',';','=') << 1;
}
template<class C> void mappointers() {
    std::ostream& os=any<std::ostream>(); C& c=any<C>(); C const& k=c;
    write_map_pointer_sequence(os,c.begin(),c.end()); write_map_pointer_sequence(os,k.begin(),k.end(),'(',')',';','=') << 1;
}
template<class C> void coefficients() {
    std::ostream& os=any<std::ostream>(); C& c=any<C>(); C const& k=c;
    write_coefficient_map_sequence(os,c.begin(),c.end()); write_coefficient_map_sequence(os,k.begin(),k.end(),'(',')',';','=') << 1;
}
template<class C> void read() {
    std::istream& is=any<std::istream>(); C& c=any<C>();
    read_sequence(is,c); read_sequence(is,c,'(',')',';') >> any<int>(); read_sequence(any<std::istringstream>(),c);
}
void uses() {
    write<std::vector<int>>(); write<std::list<double>>(); write<std::set<std::string>>(); write<std::deque<char>>(); write<Array<int>>(); write_sequence(any<std::ostream>(),any<int*>(),any<int*>());
    pointers<std::vector<int*>>(); pointers<std::list<double const*>>(); pointers<std::vector<std::shared_ptr<std::string>>>(); pointers<std::set<std::unique_ptr<int>>>();
    map<std::map<int,double>>(); map<std::map<std::string,int>>(); map<std::vector<std::pair<int,std::string>>>(); map<std::multimap<char,bool>>();
    mappointers<std::map<int,double*>>(); mappointers<std::map<std::string,std::shared_ptr<int>>>(); mappointers<std::vector<std::pair<int,std::unique_ptr<int>>>>();
    coefficients<std::vector<probe::Term>>(); coefficients<std::list<probe::Term>>();
    read<std::vector<int>>(); read<std::list<double>>(); read<std::deque<char>>(); read<std::vector<std::string>>(); read<std::vector<bool>>();
    any<std::ostream>() << any<std::pair<int,double>>() << any<std::pair<std::string,char> const>() << any<std::tuple<int>>() << any<std::tuple<int,std::string,double,bool> const>() << any<std::pair<std::pair<int,int>,std::tuple<int,int>>>();
    write_tuple(any<std::ostream>(),any<std::tuple<int,double>>(),std::integral_constant<std::size_t,2>());
    any<std::istream>() >> any<std::vector<int>>() >> any<std::vector<std::string>>() >> any<std::vector<bool>>();
}
