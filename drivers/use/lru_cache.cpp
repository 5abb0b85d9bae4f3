#include "lru_cache.hpp"
#include "values.hpp"
#include <string>
#include <vector>
using namespace Helper;
using probe::any;
template class Helper::LRUCache<int,double>;
template class Helper::LRUCache<std::string,std::string>;
template class Helper::LRUCache<std::string,std::vector<int>>;
namespace probe { struct Key { bool operator<(Key const&) const; friend std::ostream& operator<<(std::ostream&,Key const&); }; }
template class Helper::LRUCache<probe::Key,probe::Plain>;
template class Helper::LRUCache<char,int*>;
void uses() {
    LRUCache<std::string,int> c(4); c.put("a",1); bool q=c.has_label("a"); int x=c.get("a"); size_t n=c.age("a")+c.current_size()+c.maximum_size(); (void)q; (void)x; (void)n; LRUCache<std::string,int> d(c); c=d; LRUCache<std::string,int> const& k=c; n=k.current_size()+k.maximum_size();
    LRUCache<probe::Key,probe::Plain> p(2u); p.put(any<probe::Key>(),any<probe::Plain>()); probe::Plain const& r=p.get(any<probe::Key const>()); (void)r;
}
