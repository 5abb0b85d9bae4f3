#include "macros.hpp"
#include "values.hpp"
using probe::any;
namespace other { struct Shown { bool operator==(Shown const&) const; bool operator<(Shown const&) const; explicit operator bool() const; friend std::ostream& operator<<(std::ostream&,Shown const&); }; }
template<class T> T generic(T const& t) { HELPER_ASSERT(t==t); HELPER_ASSERT_MSG(t==t,"value " << t); HELPER_PRECONDITION(t==t); HELPER_PRECONDITION_MSG(t==t,t); HELPER_ASSERT_EQUAL(t,t); HELPER_THROW(std::runtime_error,"generic","value " << t); }
int plain(int x) {
    HELPER_ASSERT(x>0); HELPER_ASSERT_MSG(x>0,"x=" << x); HELPER_PRECONDITION(x>0); HELPER_PRECONDITION_MSG(x>0,"x=" << x); HELPER_DEBUG_ASSERT(x>0); HELPER_DEBUG_ASSERT_MSG(x>0,"x=" << x); HELPER_DEBUG_PRECONDITION(x>0); HELPER_ASSERT_EQUAL(x,1); HELPER_NOTIFY("note " << x); HELPER_WARN("warn " << x); HELPER_WARN_ONCE("once " << x); HELPER_ERROR("error " << x); HELPER_DEPRECATED("plain","use generic " << x);
    if(x) { HELPER_ASSERT(x); } else { HELPER_WARN("none"); } for(int i=0; i!=x; ++i) HELPER_NOTIFY("n"); if(x) HELPER_ASSERT(x);
    HELPER_THROW(std::invalid_argument,"plain","bad " << x); }
[[noreturn]] void failing() { HELPER_FAIL_MSG("failed " << 1); }
[[noreturn]] void absent() { HELPER_NOT_IMPLEMENTED; }
void uses() { generic(1); generic(1.5); generic(std::string("x")); generic(any<other::Shown const>()); HELPER_ASSERT(any<other::Shown>()); }
