#include "binary_word.hpp"
#include "values.hpp"
using namespace Helper;
using probe::any;
void uses() {
    BinaryWord a; BinaryWord b("0110"); BinaryWord c(StringType("[0,1]")); BinaryWord d(a); BinaryWord e(static_cast<BinaryWord&&>(a)); a=b; BinaryWord const& k=a; BinaryWord f("e");
    bool q=(k<b)&&(k==b)&&(k!=b)&&k.is_prefix(b)&&k.is_subword(b)&&k.empty()&&k[0]; (void)q; size_t n=k.bytes()+k.size(); (void)n;
    a.set_back(true); a.erase_prefix(2); a.append(true); a.append(b); a.append(k); a[0]=1; a.push_back(0); a.pop_back();
    any<std::ostream>() << a << k; any<std::istream>() >> a; a=make_binary_word("010"); a=make_binary_word(StringType("[0,1]"));
    for(BinaryWord::ConstIterator i=k.begin(); i!=k.end(); ++i) { q=*i; }
    for(bool x : k) { q=x; } std::set<BinaryWord> s; s.insert(a); std::map<BinaryWord,int> m; m[a]=1; std::vector<BinaryWord> v; v.push_back(a); StringType t=to_string(a);
}
