/* C26: the macros of test.hpp */
#include "metaprogramming.hpp"
#include "string.hpp"
#include "test.hpp"
#include <iostream>
#include <stdexcept>
#include "spec.hpp"

namespace probe {
struct X { };
bool operator==(X const&, X const&);
bool operator<(X const&, X const&);
bool operator>(X const&, X const&);
X operator-(X const&, X const&);
X abs(X const&);
bool operator<=(X const&, X const&);
bool same(X const&, X const&);
std::ostream& operator<<(std::ostream&, X const&);
bool holds(X const&);
bool related(X const&, X const&);
struct Y { };
bool operator==(X const&, Y const&);                    // of another type than X
bool operator<(X const&, Y const&);
std::ostream& operator<<(std::ostream&, Y const&);
X value(int);                                           // what an expression of the test computes
}
using spec::claim; using spec::any_bool; using spec::any_int; using spec::times;
using probe::X; using probe::Y;

namespace {
int before;
/* Starts a check: any number of failures so far, nothing yet on the error stream. */
void start() { HELPER_TEST_FAILURES=any_int(); spec::assume(HELPER_TEST_FAILURES>=0 && HELPER_TEST_FAILURES<1000000); before=HELPER_TEST_FAILURES; spec::listen(std::cerr); }
void passed() { claim(HELPER_TEST_FAILURES==before,"a check that succeeds is not counted"); claim(spec::silent(std::cerr),"nor reported"); }
void failed() { claim(HELPER_TEST_FAILURES==before+1,"a check that fails is counted once"); claim(spec::lines_with(std::cerr,"ERROR")==1 && spec::whole_lines(std::cerr),"and reported on the error stream"); }
void judged(bool ok) { if(ok) { passed(); } else { failed(); } }
void uncounted() { claim(HELPER_TEST_FAILURES==before,"it is not counted as a failure"); claim(times(std::cerr,"ERROR")==0,"nor reported as one"); }

struct Other { };
int act(int k) { switch(k) {
    case 0: return 0;
    case 1: throw std::runtime_error("r");
    case 2: throw std::overflow_error("o");             // derived from runtime_error
    case 3: throw std::logic_error("l");
    case 4: throw 5;
    default: throw Other(); } }
int pick() { int k=any_int(); spec::assume(k>=0 && k<=5); return k; }
int kind=0;
struct Built { int v; Built() : v(act(kind)) { } Built(int k) : v(act(k)) { } static Built named(int k) { return Built(k); } Built& operator=(int k) { v=act(k); return *this; } };
std::ostream& operator<<(std::ostream& os, Built const&) { return os << "built"; }
}

void spec_C26_assert() { bool c=any_bool(); int n=0; start(); HELPER_TEST_ASSERT((++n,c)); judged(c); claim(n==1,"the condition is evaluated once"); }
void spec_C26_assert_number() { int i=any_int(), j=any_int(); start(); HELPER_TEST_ASSERT(i); judged(i!=0); start(); HELPER_TEST_ASSERT(i<j); judged(i<j); }
void spec_C26_assert_compound() { bool a=any_bool(), b=any_bool(); start(); HELPER_TEST_ASSERT(a||b); judged(a||b); start(); HELPER_TEST_ASSERT(a?b:!b); judged(a?b:!b); }
void spec_C26_equal() { X& x=spec::any<X>(); X& y=spec::any<X>(); bool e=(x==y); start(); HELPER_TEST_EQUAL(x,y); judged(e); }
void spec_C26_equal_types() { X& x=spec::any<X>(); Y& y=spec::any<Y>(); bool e=(x==y); start(); HELPER_TEST_EQUAL(x,y); judged(e); start(); HELPER_TEST_EQUALS(x,y); judged(e); start(); HELPER_TEST_CHECK(x,y); judged(e); }
void spec_C26_equals() { X& x=spec::any<X>(); X& y=spec::any<X>(); bool e=(x==y); start(); HELPER_TEST_EQUALS(x,y); judged(e); }
void spec_C26_not_equal() { X& x=spec::any<X>(); X& y=spec::any<X>(); bool e=(x==y); start(); HELPER_TEST_NOT_EQUAL(x,y); judged(!e); }
void spec_C26_check() { X& x=spec::any<X>(); X& y=spec::any<X>(); bool e=(x==y); start(); HELPER_TEST_CHECK(x,y); judged(e); }
void spec_C26_check_warn() { X& x=spec::any<X>(); X& y=spec::any<X>(); bool e=(x==y); start(); HELPER_TEST_CHECK_WARN(x,y); uncounted(); claim(spec::lines_with(std::cerr,"WARNING")==(e?0:1),"it is reported as a warning when the values differ"); }
void spec_C26_same() { X& x=spec::any<X>(); X& y=spec::any<X>(); bool e=same(x,y); start(); HELPER_TEST_SAME(x,y); judged(e); }
void spec_C26_same_as() { X& x=spec::any<X>(); X& y=spec::any<X>(); bool e=same(x,y); start(); HELPER_TEST_SAME_AS(x,y); judged(e); }
void spec_C26_less() { X& x=spec::any<X>(); X& y=spec::any<X>(); bool e=(x<y); start(); HELPER_TEST_LESS(x,y); judged(e); }
void spec_C26_within() { X& x=spec::any<X>(); X& y=spec::any<X>(); X& t=spec::any<X>(); bool e=(abs(x-y)<=t); start(); HELPER_TEST_WITHIN(x,y,t); judged(e); }
void spec_C26_within_real() { start(); HELPER_TEST_WITHIN(1.0,1.75,0.5); failed(); start(); HELPER_TEST_WITHIN(1.75,1.0,0.5); failed(); start(); HELPER_TEST_WITHIN(1.0,1.75,0.75); passed(); start(); HELPER_TEST_WITHIN(-1.0f,1.0f,1.5f); failed(); start(); HELPER_TEST_WITHIN(1.25L,1.0L,0.0L); failed(); }
void spec_C26_within_integer() { int i=any_int(), j=any_int(), t=any_int(); spec::assume(i>-1000 && i<1000 && j>-1000 && j<1000 && t>-1000 && t<1000); int d = i<j ? j-i : i-j; start(); HELPER_TEST_WITHIN(i,j,t); judged(d<=t); }
void spec_C26_unary() { X& x=spec::any<X>(); bool e=holds(x); start(); HELPER_TEST_UNARY_PREDICATE(holds,x); judged(e); }
void spec_C26_binary() { X& x=spec::any<X>(); X& y=spec::any<X>(); bool e=related(x,y); start(); HELPER_TEST_BINARY_PREDICATE(related,x,y); judged(e); }
void spec_C26_compare() { X& x=spec::any<X>(); X& y=spec::any<X>(); bool e=(x<y), g=(x>y); start(); HELPER_TEST_COMPARE(x,<,y); judged(e); start(); HELPER_TEST_COMPARE(x,>,y); judged(g); }
void spec_C26_result_compare() { X& x=spec::any<X>(); X& y=spec::any<X>(); bool e=(x==y); start(); HELPER_TEST_RESULT_COMPARE(X,x,==,y); judged(e); }

/* whatever operators the arguments contain */
void spec_C26_compound_or() {
    bool a=any_bool(), b=any_bool(), c=any_bool(), d=any_bool(); bool e = (a||b)==(c||d);
    start(); HELPER_TEST_EQUAL(a||b,c||d); judged(e);
    start(); HELPER_TEST_EQUALS(a||b,c||d); judged(e);
    start(); HELPER_TEST_NOT_EQUAL(a||b,c||d); judged(!e);
    start(); HELPER_TEST_CHECK(a||b,c||d); judged(e); }
void spec_C26_compound_or_compare() {
    bool a=any_bool(), b=any_bool(), c=any_bool(), d=any_bool();
    start(); HELPER_TEST_COMPARE(a||b,!=,c||d); judged((a||b)!=(c||d));
    start(); HELPER_TEST_LESS(a||b,c||d); judged((a||b)<(c||d));
    start(); HELPER_TEST_RESULT_COMPARE(bool,a||b,==,c||d); judged((a||b)==(c||d)); }
void spec_C26_compound_condition() {
    bool a=any_bool(), b=any_bool(), c=any_bool();
    start(); HELPER_TEST_EQUAL(a?b:c,c?a:b); judged((a?b:c)==(c?a:b));
    start(); HELPER_TEST_EQUALS(a?b:c,c?a:b); judged((a?b:c)==(c?a:b));
    start(); HELPER_TEST_NOT_EQUAL(a?b:c,c?a:b); judged((a?b:c)!=(c?a:b));
    start(); HELPER_TEST_CHECK(a?b:c,c?a:b); judged((a?b:c)==(c?a:b));
    start(); HELPER_TEST_LESS(a?b:c,c?a:b); judged((a?b:c)<(c?a:b));
    start(); HELPER_TEST_COMPARE(a?b:c,==,c?a:b); judged((a?b:c)==(c?a:b));
    start(); HELPER_TEST_RESULT_COMPARE(bool,a?b:c,==,c?a:b); judged((a?b:c)==(c?a:b)); }
void spec_C26_compound_within() {
    int i=any_int(), j=any_int(); bool c=any_bool(); spec::assume(i>-1000 && i<1000 && j>-1000 && j<1000);
    int s=i-j+1; start(); HELPER_TEST_WITHIN(i,j-1,2); judged((s<0?-s:s)<=2);
    int l=c?i:j, r=c?j:i, d=l-r; start(); HELPER_TEST_WITHIN(c?i:j,c?j:i,c?4:5); judged((d<0?-d:d)<=(c?4:5)); }
void spec_C26_compound_predicates() {
    bool c=any_bool(); X& x=spec::any<X>(); X& y=spec::any<X>(); bool h=holds(c?x:y), r=related(c?x:y,c?y:x), s=same(c?x:y,c?y:x);
    start(); HELPER_TEST_UNARY_PREDICATE(holds,c?x:y); judged(h);
    start(); HELPER_TEST_BINARY_PREDICATE(related,c?x:y,c?y:x); judged(r);
    start(); HELPER_TEST_SAME(c?x:y,c?y:x); judged(s);
    start(); HELPER_TEST_SAME_AS(c?x:y,c?y:x); judged(s); }

/* exceptions */
void spec_C26_throws() { int k=pick(); start(); HELPER_TEST_THROWS(act(k),std::runtime_error); judged(k==1||k==2); }
void spec_C26_throws_derived() { int k=pick(); start(); HELPER_TEST_THROWS(act(k),std::overflow_error); judged(k==2); }
void spec_C26_throws_other() { int k=pick(); start(); HELPER_TEST_THROWS(act(k),Other); judged(k==5); }
void spec_C26_throws_number() { int k=pick(); start(); HELPER_TEST_THROWS(act(k),int); judged(k==4); }
void spec_C26_fail() { int k=pick(); start(); HELPER_TEST_FAIL(act(k)); judged(k!=0); }
void spec_C26_try() { int k=pick(); start(); HELPER_TEST_TRY(act(k)); judged(k==0); }
void spec_C26_evaluate() { int k=pick(); start(); HELPER_TEST_EVALUATE(act(k)); judged(k==0); }
void spec_C26_call() { int k=pick(); start(); HELPER_TEST_CALL(act(k)); judged(k==0); }
void spec_C26_assign() { int k=pick(); Built b(0); start(); HELPER_TEST_ASSIGN(b,k); judged(k==0); }
#define CONSTRUCTED(NAME,...) \
    void spec_C26_##NAME() { int k=pick(); kind=k; start(); bool left=false; \
        try { __VA_ARGS__; } catch(...) { left=true; } \
        judged(k==0); claim(left==(k!=0),"the object is there afterwards, or its exception is passed on"); }
CONSTRUCTED(declare,HELPER_TEST_DECLARE(Built,b) (void)b.v)
CONSTRUCTED(named_construct,HELPER_TEST_NAMED_CONSTRUCT(Built,b,named(k)) (void)b.v)
CONSTRUCTED(assign_construct,HELPER_TEST_ASSIGN_CONSTRUCT(Built,b,k) (void)b.v)

/* never counted */
void spec_C26_construct() { start(); HELPER_TEST_CONSTRUCT(Built,b,(0)); HELPER_TEST_DEFAULT_CONSTRUCT(Built,c); (void)b.v; (void)c.v; passed(); }
void spec_C26_execute() { int n=0; start(); HELPER_TEST_EXECUTE(++n); claim(n==1,"the statement is executed once"); HELPER_TEST_PRINT(n); passed(); }
void spec_C26_warn() { X& x=spec::any<X>(); start(); HELPER_TEST_WARN("w "<<x); uncounted(); claim(spec::lines_with(std::cerr,"WARNING")==1 && spec::shows(std::cerr,x),"a warning is reported"); HELPER_TEST_NOTIFY("n "<<x); uncounted(); }
void spec_C26_skip() { int n=0, s=HELPER_TEST_SKIPPED; start(); HELPER_TEST_SKIP((++n)); uncounted(); claim(n==0,"what is skipped is not done"); claim(HELPER_TEST_SKIPPED==s+1,"skips are counted apart"); }
void spec_C26_titles() { start(); HELPER_PRINT_TEST_CASE_TITLE("t"); HELPER_PRINT_TEST_COMMENT("c"); passed(); }
namespace { int tested=0; struct Suite { void test() { ++tested; } }; }
void spec_C26_class() { start(); HELPER_TEST_CLASS(Suite,Suite()); passed(); claim(tested==1,"the tests are run once"); }

/* types */
namespace Helper {
template<class T> String class_name();
template<class S, class T> struct IsEquivalent { static const bool value = false; };
template<class T> struct IsEquivalent<T,T> { static const bool value = true; };
}
namespace Helper {
void spec_C26_types() {
    start(); HELPER_TEST_STATIC_ASSERT(std::is_same<int,int>); passed();
    start(); HELPER_TEST_STATIC_ASSERT(std::is_same<int,char>); failed();
    start(); HELPER_TEST_CONCEPT(Convertible<int,double>); passed();
    start(); HELPER_TEST_CONCEPT(Convertible<int,Other>); failed();
    start(); HELPER_TEST_SAME_TYPE(int,int); passed();
    start(); HELPER_TEST_SAME_TYPE(int,long); failed();
    start(); HELPER_TEST_EQUIVALENT_TYPE(int,int); passed();
    start(); HELPER_TEST_EQUIVALENT_TYPE(int,long); failed(); }
}
