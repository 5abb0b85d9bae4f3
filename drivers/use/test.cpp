#include "test.hpp"
#include "string.hpp"
#include "metaprogramming.hpp"
using namespace Helper;
namespace other { struct Shown { int n; bool operator==(Shown const&) const; bool operator<(Shown const&) const; friend std::ostream& operator<<(std::ostream&,Shown const&); }; }
bool positive(int); bool related(int,double); int raise();
template<class T> void compare(T const& a, T const& b) {
    HELPER_TEST_CHECK_WARN(a,b); HELPER_TEST_CHECK(a,b); HELPER_TEST_EQUAL(a,b); HELPER_TEST_EQUALS(a,b); HELPER_TEST_LESS(a,b); HELPER_TEST_COMPARE(a,<,b); HELPER_TEST_PRINT(a); HELPER_TEST_EVALUATE(a); HELPER_TEST_SAME_TYPE(T,T);
}
namespace Helper { template<> inline String class_name<int>() { return "int"; } template<> inline String class_name<double>() { return "double"; } template<> inline String class_name<std::string>() { return "std::string"; } template<> inline String class_name<other::Shown>() { return "other::Shown"; } }
class TestOf {
  public:
    TestOf(); explicit TestOf(int);
    void test() { HELPER_TEST_CALL(test_one()); HELPER_TEST_CALL(test_two(3)); HELPER_TEST_SKIP(test_one()); }
    void test_one() {
        int x=1; double d=2; HELPER_TEST_WARN("w"); HELPER_TEST_NOTIFY("n"); HELPER_TEST_EXECUTE(x=2); HELPER_TEST_TRY(x=raise()); HELPER_TEST_PRINT(x); HELPER_TEST_EVALUATE(x+1); HELPER_TEST_ASSERT(x>0); HELPER_TEST_NOT_EQUAL(x,2); HELPER_TEST_WITHIN(d,2.0,1e-3); HELPER_TEST_UNARY_PREDICATE(positive,x); HELPER_TEST_BINARY_PREDICATE(related,x,d);
        HELPER_TEST_RESULT_COMPARE(int,x,<,3); HELPER_TEST_CONSTRUCT(std::string,s,("x")); HELPER_TEST_DECLARE(std::string,e); HELPER_TEST_DEFAULT_CONSTRUCT(std::string,f); HELPER_TEST_ASSIGN_CONSTRUCT(std::string,g,"x"); HELPER_TEST_ASSIGN(x,3); HELPER_TEST_ASSIGN(s,"y"); HELPER_TEST_THROWS(raise(),std::runtime_error); HELPER_TEST_FAIL(raise()); HELPER_TEST_STATIC_ASSERT(std::is_same<int,int>); HELPER_TEST_CONCEPT(Same<int,int>); HELPER_TEST_SAME_TYPE(int,int);
    }
    void test_two(int k) { compare(k,2); compare(std::string("x"),std::string("y")); compare(other::Shown{1},other::Shown{2}); compare(1.5,2.5); }
};
int main() { HELPER_TEST_CLASS(TestOf,TestOf()); HELPER_TEST_CLASS(TestOf,TestOf(3)); TestOf().test(); return HELPER_TEST_FAILURES; }
