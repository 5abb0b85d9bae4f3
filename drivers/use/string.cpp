#include "string.hpp"
#include "values.hpp"
#include <iostream>
#include <map>
using namespace Helper;
using probe::any;
namespace probe { struct Shown { friend std::ostream& operator<<(std::ostream&,Shown const&); }; }
void uses() {
    String a; String b("x"); String c=std::string("y"); String d(3u,'z'); String e(a); a=b; a=String("w"); a+="x"; std::string s=a; std::string const& r=b; (void)r; const char* p=c_str(a); (void)p; bool q=(a==b)&&(a=="x")&&(a<b)&&(a!=s); (void)q; std::map<String,int> m; m[a]=1;
    a=to_string(1); a=to_string(1.5); a=to_string('c'); a=to_string("text"); a=to_string(b); a=to_string(s); a=to_string(any<probe::Shown const>()); a=to_str(1); a=to_str("text"); a=to_str(any<probe::Shown const>()); a=to_str(true);
    a=class_name<String>(); std::cout << a; std::cin >> a; StringType t; StringStream ss(t); ss << t; ss >> t;
}
