/* C25, C32: the macros of macros.hpp */
#include "macros.hpp"
#include <iostream>
#include <stdexcept>
#include "spec.hpp"

namespace probe {
struct Text { };                                        // an error text
std::ostream& operator<<(std::ostream&, Text const&);
struct X { };
bool operator==(X const&, X const&);
std::ostream& operator<<(std::ostream&, X const&);
}
using spec::claim; using spec::any_bool; using spec::any_int; using spec::times; using spec::shows;
using probe::Text; using probe::X;

namespace {
struct Cond { bool v; int* n; explicit operator bool() const { ++*n; return v; } };   // counts its conversions
struct Odd { bool v; explicit operator bool() const { return v; } bool operator!() const { spec::never("operator! of a condition is used"); return false; } };
template<class T> T const& counted(T const& t, int& n) { ++n; return t; }
struct Derived : std::runtime_error { using std::runtime_error::runtime_error; };
}

/* BODY(m): what the macro does with a condition, in every form it can take. */
#define CHECKED(NAME,MACRO) \
    void spec_C25_##NAME##_condition() { \
        bool c=any_bool(); int n=0; bool thrown=false; \
        try { MACRO((++n,c)); } \
        catch(const std::runtime_error& e) { thrown=true; claim(times(e.what(),"(++n,c)")>=1,"the message names the condition"); } \
        claim(n==1,"the condition is evaluated once"); claim(thrown==!c,"throws exactly when the condition is false"); } \
    void spec_C25_##NAME##_converted() { \
        bool c=any_bool(); int n=0; bool thrown=false; Cond cond{c,&n}; \
        try { MACRO(cond); } catch(const std::runtime_error&) { thrown=true; } \
        claim(n==1,"the condition is converted once"); claim(thrown==!c,"throws exactly when the condition is false"); } \
    void spec_C25_##NAME##_odd() { \
        bool c=any_bool(); bool thrown=false; Odd cond{c}; \
        try { MACRO(cond); } catch(const std::runtime_error&) { thrown=true; } \
        claim(thrown==!c,"throws exactly when the condition is false"); } \
    void spec_C25_##NAME##_number() { \
        int c=any_int(); bool thrown=false; \
        try { MACRO(c); } catch(const std::runtime_error&) { thrown=true; } \
        claim(thrown==(c==0),"throws exactly when the condition is false"); } \
    void spec_C25_##NAME##_pointer() { \
        int i=0; int* p=any_bool()?&i:nullptr; bool thrown=false; \
        try { MACRO(p); } catch(const std::runtime_error&) { thrown=true; } \
        claim(thrown==(p==nullptr),"throws exactly when the condition is false"); } \
    void spec_C25_##NAME##_compound() { \
        bool a=any_bool(), b=any_bool(); int thrown=0, due=0; \
        try { MACRO(a||b); } catch(const std::runtime_error&) { ++thrown; } if(!(a||b)) { ++due; } \
        try { MACRO(a&&b); } catch(const std::runtime_error&) { ++thrown; } if(!(a&&b)) { ++due; } \
        try { MACRO(a?b:!b); } catch(const std::runtime_error&) { ++thrown; } if(!(a?b:!b)) { ++due; } \
        try { MACRO(a==b); } catch(const std::runtime_error&) { ++thrown; } if(!(a==b)) { ++due; } \
        int i=any_int(), j=any_int(); \
        try { MACRO(i==j); } catch(const std::runtime_error&) { ++thrown; } if(!(i==j)) { ++due; } \
        try { MACRO(i<j); } catch(const std::runtime_error&) { ++thrown; } if(!(i<j)) { ++due; } \
        claim(thrown==due,"the condition is taken as written"); } \
    void spec_C25_##NAME##_nested() { \
        bool a=any_bool(), b=any_bool(); bool thrown=false; \
        try { if(a) MACRO(b); } catch(const std::runtime_error&) { thrown=true; } \
        claim(thrown==(a && !b),"the macro is one statement"); } \
    void spec_C25_##NAME##_caught() { \
        int thrown=0; bool c=any_bool(); \
        try { MACRO(c); } catch(const std::logic_error&) { thrown=1; } catch(const std::exception&) { thrown=2; } catch(...) { thrown=3; } \
        claim(thrown==(c?0:2),"the exception is a runtime_error"); }

#define WITH_TEXT(NAME,MACRO) \
    void spec_C25_##NAME##_text() { \
        bool c=any_bool(); int n=0; bool thrown=false; Text& t=spec::any<Text>(); int k=any_int(); \
        try { MACRO(c,"at "<<counted(t,n)<<" of "<<k); } \
        catch(const std::runtime_error& e) { thrown=true; \
            claim(shows(e.what(),t) && shows(e.what(),k) && times(e.what()," of ")==1,"the message contains the error text"); } \
        claim(thrown==!c,"throws exactly when the condition is false"); \
        claim((n>0)==!c,"the error text is evaluated only when the condition is false"); }

#define PLAIN(m) m
#define MSG_ASSERT(x) HELPER_ASSERT_MSG(x,"text")
#define MSG_PRECONDITION(x) HELPER_PRECONDITION_MSG(x,"text")
#define MSG_DEBUG(x) HELPER_DEBUG_ASSERT_MSG(x,"text")

CHECKED(assert,HELPER_ASSERT)
CHECKED(assert_msg,MSG_ASSERT)
WITH_TEXT(assert_msg,HELPER_ASSERT_MSG)
CHECKED(precondition,HELPER_PRECONDITION)
CHECKED(precondition_msg,MSG_PRECONDITION)
WITH_TEXT(precondition_msg,HELPER_PRECONDITION_MSG)

#ifndef NDEBUG
CHECKED(debug_assert,HELPER_DEBUG_ASSERT)
CHECKED(debug_assert_msg,MSG_DEBUG)
WITH_TEXT(debug_assert_msg,HELPER_DEBUG_ASSERT_MSG)
CHECKED(debug_precondition,HELPER_DEBUG_PRECONDITION)
#else
#define DISABLED(NAME,MACRO) \
    void spec_C25_##NAME##_disabled() { bool c=any_bool(); int n=0; MACRO((++n,c)); claim(n==0,"the condition is not evaluated in a release build"); } \
    void spec_C25_##NAME##_nested() { bool a=any_bool(), b=a; if(a) MACRO(b=false); claim(b==a,"the macro is one statement"); }
DISABLED(debug_assert,HELPER_DEBUG_ASSERT)
DISABLED(debug_assert_msg,MSG_DEBUG)
DISABLED(debug_precondition,HELPER_DEBUG_PRECONDITION)
void spec_C25_debug_assert_msg_text() { int n=0; Text& t=spec::any<Text>(); HELPER_DEBUG_ASSERT_MSG(any_bool(),counted(t,n)); claim(n==0,"the error text is not evaluated in a release build"); }
#endif

void spec_C25_equal() {
    X& x=spec::any<X>(); X& y=spec::any<X>(); int n=0, m=0; bool e=(x==y), thrown=false;
    try { HELPER_ASSERT_EQUAL(counted(x,n),counted(y,m)); }
    catch(const std::runtime_error& err) { thrown=true;
        claim(shows(err.what(),x) && shows(err.what(),y),"the message shows both values");
        claim(times(err.what(),"counted(x,n)")>=1 && times(err.what(),"counted(y,m)")>=1,"the message names both expressions"); }
    claim(thrown==!e,"throws exactly when the values differ");
    if(e) { claim(n==1 && m==1,"the arguments are evaluated once"); } }
void spec_C25_equal_numbers() {
    int i=any_int(), j=any_int(); bool thrown=false;
    try { HELPER_ASSERT_EQUAL(i,j); } catch(const std::runtime_error& err) { thrown=true; claim(shows(err.what(),i) && shows(err.what(),j),"the message shows both values"); }
    claim(thrown==(i!=j),"throws exactly when the values differ"); }
void spec_C25_equal_compound() {
    bool a=any_bool(), b=any_bool(), c=any_bool(), d=any_bool(); int thrown=0, due=0;
    try { HELPER_ASSERT_EQUAL(a||b,c||d); } catch(const std::runtime_error&) { ++thrown; } if((a||b)!=(c||d)) { ++due; }
    try { HELPER_ASSERT_EQUAL(a?b:c,d?a:b); } catch(const std::runtime_error&) { ++thrown; } if((a?b:c)!=(d?a:b)) { ++due; }
    claim(thrown==due,"the arguments are compared as written"); }

void spec_C25_fail() {
    int n=0; Text& t=spec::any<Text>(); bool thrown=false;
    try { HELPER_FAIL_MSG("because "<<counted(t,n)); spec::never("execution continues after a failure"); }
    catch(const std::runtime_error& e) { thrown=true; claim(shows(e.what(),t) && times(e.what(),"because ")==1,"the message contains the error text"); }
    claim(thrown,"a failure always throws"); }
void spec_C25_not_implemented() {
    bool thrown=false;
    try { HELPER_NOT_IMPLEMENTED; spec::never("execution continues where nothing is implemented"); }
    catch(const std::runtime_error& e) { thrown=true; claim(times(e.what(),"spec_C25_not_implemented")>=1,"the message names the function"); }
    claim(thrown,"always throws"); }
void spec_C25_throw() {
    int n=0; Text& t=spec::any<Text>(); int kind=0;
    try { HELPER_THROW(Derived,"where","why "<<counted(t,n)); spec::never("execution continues after a throw"); }
    catch(const Derived&) { kind=1; }
    catch(...) { kind=2; }
    claim(kind==1,"throws the exception asked for");
    try { HELPER_THROW(std::domain_error,"where","why "<<t); }
    catch(const std::domain_error& e) { kind=3; claim(shows(e.what(),t) && times(e.what(),"where")==1 && times(e.what(),"why ")==1 && times(e.what(),"std::domain_error")==1,"the message names the exception, the function and the reason"); }
    claim(kind==3,"throws the exception asked for"); }

/* C32 */
namespace {
void warn_site(Text const& t) { HELPER_WARN_ONCE("first "<<t); }
void other_site(Text const& t) { HELPER_WARN_ONCE("other "<<t); }
void old_site() { HELPER_DEPRECATED(old_site,"use something else"); }
void maybe_site(bool b, Text const& t) { if(b) HELPER_WARN_ONCE("maybe "<<t); }
void old_maybe_site(bool b) { if(b) HELPER_DEPRECATED(old_maybe_site,"gone"); }
void double_site(Text const& t) { HELPER_WARN_ONCE("one "<<t); HELPER_WARN_ONCE("two "<<t); HELPER_DEPRECATED(double_site,"three"); }
}
void spec_C32_once() {
    Text& t=spec::any<Text>(); spec::listen(std::cerr);
    warn_site(t);
    claim(spec::lines_with(std::cerr,"WARNING")==1 && times(std::cerr,"first ")==1 && shows(std::cerr,t) && times(std::cerr,"\n")==1 && spec::whole_lines(std::cerr),"the first time it is reached it is reported");
    spec::listen(std::cerr); warn_site(t); spec::other_thread(); warn_site(t);
    claim(spec::silent(std::cerr),"and never again");
    other_site(t);
    claim(spec::lines_with(std::cerr,"WARNING")==1 && times(std::cerr,"other ")==1 && times(std::cerr,"\n")==1,"another site is reported by itself");
    spec::listen(std::cerr); other_site(t); warn_site(t);
    claim(spec::silent(std::cerr),"and never again"); }
void spec_C32_evaluated_once() {
    Text& t=spec::any<Text>(); int n=0;
    std::size_t k=spec::any_size();
    for(std::size_t i=0; i!=k; ++i) { HELPER_WARN_ONCE(counted(t,n)); }
    claim(n==(k==0?0:1),"the message is evaluated only when it is reported"); }
void spec_C32_deprecated() {
    spec::listen(std::cerr);
    old_site();
    claim(spec::lines_with(std::cerr,"DEPRECATED")==1 && times(std::cerr,"old_site")>=1 && times(std::cerr,"use something else")==1 && times(std::cerr,"\n")==1 && spec::whole_lines(std::cerr),"the first time it is reached it is reported");
    spec::listen(std::cerr); old_site(); spec::other_thread(); old_site();
    claim(spec::silent(std::cerr),"and never again"); }
void spec_C32_conditional() {
    Text& t=spec::any<Text>(); spec::listen(std::cerr); bool reached=false;
    for(int i=0; i!=3; ++i) { bool b=any_bool(); maybe_site(b,t); reached = reached || b;
        claim(spec::lines_with(std::cerr,"WARNING")==(reached?1:0) && times(std::cerr,"maybe ")==(reached?1:0) && times(std::cerr,"\n")==(reached?1:0),"it is reported once the site is reached, not before"); } }
void spec_C32_conditional_deprecated() {
    spec::listen(std::cerr); bool reached=false;
    for(int i=0; i!=3; ++i) { bool b=any_bool(); old_maybe_site(b); reached = reached || b;
        claim(spec::lines_with(std::cerr,"DEPRECATED")==(reached?1:0) && times(std::cerr,"\n")==(reached?1:0),"it is reported once the site is reached, not before"); } }
void spec_C32_same_scope() {
    Text& t=spec::any<Text>(); spec::listen(std::cerr);
    double_site(t); double_site(t);
    claim(spec::lines_with(std::cerr,"WARNING")==2 && times(std::cerr,"one ")==1 && times(std::cerr,"two ")==1 && spec::lines_with(std::cerr,"DEPRECATED")==1 && times(std::cerr,"\n")==3,"each site is reported by itself"); }
#define EACH(NAME,MACRO,LABEL) \
    void spec_C32_##NAME() { \
        Text& t=spec::any<Text>(); spec::listen(std::cerr); spec::listen(std::cout); \
        for(int i=0; i!=3; ++i) { MACRO("at "<<i<<" is "<<t); \
            claim(spec::lines_with(std::cerr,LABEL)==i+1 && times(std::cerr,"at ")==i+1 && times(std::cerr,"\n")==i+1 && shows(std::cerr,i) && shows(std::cerr,t) && spec::whole_lines(std::cerr),"it is reported each time, with its label"); } \
        bool b=any_bool(); spec::listen(std::cerr); if(b) MACRO("x"); \
        claim(spec::silent(std::cerr)==!b,"the macro is one statement"); \
        claim(spec::silent(std::cout),"nothing is written to standard output"); }
EACH(notify,HELPER_NOTIFY,"NOTIFICATION")
EACH(warn,HELPER_WARN,"WARNING")
EACH(error,HELPER_ERROR,"ERROR")
