/* Intrinsics of the analysis entry points.  They have no definition: the analyser gives them their
   abstract meaning (engine/speclib.py).  Nothing in these files is ever run. */
#ifndef VERIF_SPEC_HPP
#define VERIF_SPEC_HPP
#include <cstddef>
#include <exception>
#include <iosfwd>

// The special members of an element type: by default each may throw; -DKIND_NOEXCEPT: moves cannot; -DKIND_TRIVIAL:
// none is user-provided, so the type is trivially copyable. With -DKIND_NUMBER=T the main element type is the number T.
#if defined KIND_TRIVIAL
#define SPECIALS(T) char data[24];
#elif defined KIND_NOEXCEPT
#define SPECIALS(T) T(); T(T const&); T(T&&) noexcept; T& operator=(T const&); T& operator=(T&&) noexcept; ~T();
#else
#define SPECIALS(T) T(); T(T const&); T(T&&); T& operator=(T const&); T& operator=(T&&); ~T();
#endif

namespace spec {
void claim(bool c, const char* what);                   // must hold on every path reaching it
void assume(bool c);
void aborts(int const& calls);                          // from here on the program must end by aborting, with calls unchanged
void reach(const char* what);                           // must be reachable (vacuity guard)
void never(const char* what);                           // must be unreachable
bool any_bool();
int any_int();
std::size_t any_size();                                 // 0 .. 2^31-1
std::size_t any_word();                                 // any std::size_t
double any_double();
template<class T> T* any_elems(std::size_t n);          // n arbitrary live objects
template<class T> T* any_elems_named(const char* name, std::size_t n);
template<class T> T& any();                             // an arbitrary live object
template<class T> bool same(T const& x, T const& y);    // identical abstract values
template<class T> bool untouched(T const* p);           // an any_elems block still has its first contents
template<class T> bool untouched_obj(T const& p);
template<class T> T* none();                            // null
void throwing(const char* kinds);                       // which opaque operations may throw from here on
void nothrow(const char* types);                       // opaque types whose construction and assignment never throw
template<class T> void named(T const& x);                // a key on which abstract collections are described exactly
template<class C> void fill(C& c);                      // an arbitrary set or map
template<class A, class B> void assume_subset(A const& a, B const& b);
template<class A, class B> void assume_disjoint(A const& a, B const& b);
void abstract_collections();
template<class T> void renamed(T const& x);
template<class T> void assume_absent(T const* block, std::size_t n, T const& y);
template<class T> void assume_no_image(T const& y);
std::ostream& stream();                                 // an arbitrary output stream
char any_char();
void nuls();                                             // the text of an object may contain null characters
void expect(std::ostream& os);                          // what os receives from here on is checked against:
template<class T> void then(std::ostream& os, T const& x);  //   the text of x, or
std::size_t each(std::ostream& os, std::size_t n);      //   n>=1 repetitions of the text given next for an arbitrary index,
void separator(std::ostream& os);                       //   with the text given next between them
void each_end(std::ostream& os);
void expected(std::ostream& os);                        // all of it, and nothing else, was received
std::istream& sequence_input(char o, char c, char p);   // arbitrary input, to be read as a sequence with these delimiters
bool complete();                                        // what was read of it is a complete sequence, and no more
bool broken();                                          // what was read of it cannot be continued to a sequence
std::size_t items();                                    // the items read of it
template<class T> T const& item(std::size_t k);
std::istream& text_input(int n);                        // input of up to n digits or items, or anything else
std::istream& digits_input(int n);                      // input that starts with exactly n digits
template<class S> S digits_text(int n);                 // a string that does
template<class S> S text(int n);                        // a string with such contents
bool bracketed();                                       // it starts with a bracket
int digits();                                           // the digits read from it so far, and not put back
int digit(int k);
bool unread();                                          // nothing after the digits has been read
bool empty_input();                                     // there was nothing to read
void then_digit(std::ostream& os, bool b);
void unroll(int n);                                     // bound on undetermined iterations of one loop in exact mode
void trace(std::ostream& os);                            // what os receives is a stack trace: one line per frame, in order
int lines();                                             // its lines so far
int frames();                                            // the frames captured, -1 if none have been
bool trace_intact();                                     // the last line is complete and the stream formats as before
void listen(std::ostream& os);                           // from here on what os receives is kept
bool silent(std::ostream& os);                           // it has received nothing
int times(std::ostream& os, const char* s);              // how often the text occurs in it
int times(const char* text, const char* s);
int lines_with(std::ostream& os, const char* s);         // its lines that start so
bool whole_lines(std::ostream& os);                      // it ends with a line end
template<class T> bool shows(std::ostream& os, T const& x);  // it contains the text of x
template<class T> bool shows(const char* text, T const& x);
void other_thread();                                      // the rest runs in another thread, after all before
int readings();                                          // clock readings so far
long reading(int k);                                     // the k-th, in nanoseconds
bool steady();                                           // all of them are of a clock that is never adjusted
bool exact_seconds(double x, long ns);                   // x is ns nanoseconds, in seconds, not rounded
int draws();                                             // random draws so far
template<class T> bool uniform(T const& x, T const& lo, T const& hi); // the last one gave x, uniform from lo to hi
bool shared_source();                                    // all came in turn from one object of static storage, seeded once
bool seeded_from_entropy();
template<class A, class B> bool apart(A const& a, B const& b); // different objects
}

namespace probe {
struct Error { };
}
#endif
