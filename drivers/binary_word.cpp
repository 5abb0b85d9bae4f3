#include "binary_word.hpp"
#include <algorithm>
#include <ios>
#include <istream>
#include <ostream>
#include <string>
#include <vector>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::assume; using spec::any_elems; using spec::any_size; using spec::any_bool; using spec::same; using std::size_t;

namespace {
// appends n arbitrary bits
void bits(BinaryWord& w, bool const* s, size_t n) { w.insert(w.end(),s,s+n); }
}
#define BITS(s,n) size_t n=any_size(); bool const* s=any_elems<bool>(n);
// two words that first differ at some position
#define DIFFER(a,b) BITS(p,n) BITS(u,k) BITS(v,m) bool x=any_bool(); BinaryWord a, b; bits(a,p,n); bits(b,p,n); a.push_back(x); b.push_back(!x); bits(a,u,k); bits(b,v,m); BinaryWord const& ca=a; BinaryWord const& cb=b;
// the second extends the first
#define EXTENDS(a,b) BITS(p,n) BITS(u,k) BinaryWord a, b; bits(a,p,n); bits(b,p,n); bits(b,u,k); BinaryWord const& ca=a; BinaryWord const& cb=b;

void spec_C17_less_differing() { DIFFER(a,b) claim((ca<cb)==!x,"words are ordered by the first bit in which they differ"); }
void spec_C17_less_prefix() { EXTENDS(a,b) claim((ca<cb)==(k!=0),"a word is before its proper extensions, and not before itself"); claim(!(cb<ca),"a word is not before its prefixes"); }
void spec_C17_less_self() { EXTENDS(a,b) claim(!(ca<ca),"no word is before itself"); }
void spec_C17_prefix_differing() { DIFFER(a,b) claim(!ca.is_prefix(cb),"a word that differs in a bit is not a prefix"); }
void spec_C17_prefix_extension() { EXTENDS(a,b) claim(ca.is_prefix(cb),"a word is a prefix of its extensions"); claim(cb.is_prefix(ca)==(k==0),"no word is a prefix of a shorter one"); }
void spec_C17_prefix_self() { EXTENDS(a,b) claim(ca.is_prefix(ca),"a word is a prefix of itself"); }
void spec_C17_subword_inside() { BITS(s,n) size_t i=any_size(), k=any_size(); assume(i<=n && k<=n-i); BinaryWord a, b; bits(a,s+i,k); bits(b,s,n); BinaryWord const& ca=a; BinaryWord const& cb=b; claim(ca.is_subword(cb),"a word is a subword of any word that contains it"); }
void spec_C17_subword_longer() { BITS(p,n) BITS(u,k) assume(k<n); BinaryWord a, b; bits(a,p,n); bits(b,u,k); BinaryWord const& ca=a; BinaryWord const& cb=b; claim(!ca.is_subword(cb),"no word is a subword of a shorter one"); }
void spec_C17_append_bit() { BITS(p,n) BinaryWord a; bits(a,p,n); bool x=any_bool(); a.append(x); claim(a.size()==n+1,"one bit is added"); claim(a[n]==x,"the bit is added at the end"); size_t i=any_size(); if(i<n) claim(a[i]==p[i],"the other bits are kept"); }
void spec_C17_append_word() { BITS(p,n) BITS(u,k) BinaryWord a, b; bits(a,p,n); bits(b,u,k); BinaryWord const& cb=b; a.append(cb); claim(a.size()==n+k,"as many bits are added as the word has"); size_t i=any_size(); if(i<n) claim(a[i]==p[i],"the bits there were are kept"); if(i<k) claim(a[n+i]==u[i],"bit i of the word is added at its place"); claim(b.size()==k,"the appended word is unchanged"); if(i<k) claim(b[i]==u[i],"the appended word is unchanged"); }
void spec_C17_append_self() { BITS(p,n) BinaryWord a; bits(a,p,n); a.append(a); claim(a.size()==n+n,"the word is doubled"); size_t i=any_size(); if(i<n) { claim(a[i]==p[i],"the bits there were are kept"); claim(a[n+i]==p[i],"bit i of the word is added at its place"); } }
void spec_C17_erase_prefix() { BITS(p,n) BinaryWord a; bits(a,p,n); size_t k=any_size(); a.erase_prefix(static_cast<int>(k)); claim(a.size()==(k<n?n-k:0),"as many bits are removed as asked, or all"); size_t i=any_size(); if(i<n && k<=i) claim(a[i-k]==p[i],"the first bits are removed and the others kept"); }
void spec_C17_erase_negative() { BITS(p,n) BinaryWord a; bits(a,p,n); int k=spec::any_int(); assume(k<=0); a.erase_prefix(k); claim(a.size()==n,"nothing is removed"); size_t i=any_size(); if(i<n) claim(a[i]==p[i],"nothing is removed"); }
void spec_C17_set_back() { BITS(p,n) BinaryWord a; bits(a,p,n); a.push_back(any_bool()); bool x=any_bool(); a.set_back(x); claim(a.size()==n+1,"no bit is added"); claim(a[n]==x,"the last bit is set"); size_t i=any_size(); if(i<n) claim(a[i]==p[i],"the other bits are kept"); }
void spec_C17_bytes() { BITS(p,n) BinaryWord a; bits(a,p,n); BinaryWord const& ca=a; size_t b=ca.bytes(); claim(8*b>=n,"the bytes hold all the bits"); claim(8*b<n+8,"no byte is superfluous"); }
void spec_C17_default() { BinaryWord a; claim(a.size()==0 && a.empty(),"a new word is empty"); }

// all short words
namespace {
void small(BinaryWord& w) { unsigned n=0; while(n!=3 && any_bool()) { w.push_back(any_bool()); ++n; } }
bool at(BinaryWord const& a, BinaryWord const& b, size_t i) { for(size_t j=0; j!=a.size(); ++j) { if(a[j]!=b[i+j]) return false; } return true; }
bool inside(BinaryWord const& a, BinaryWord const& b) { for(size_t i=0; i+a.size()<=b.size(); ++i) { if(at(a,b,i)) return true; } return false; }
bool before(BinaryWord const& a, BinaryWord const& b) { size_t i=0; while(i!=a.size() && i!=b.size() && a[i]==b[i]) ++i; if(i==b.size()) return false; if(i==a.size()) return true; return b[i]; }
}
void spec_C17x_subword() { BinaryWord a, b; small(a); small(b); claim(a.is_subword(b)==inside(a,b),"subwords are exactly the words that occur at some position"); }
// any short word in longer words that repeat themselves
void spec_C17x_subword_longer() { spec::unroll(30); BinaryWord a, b; unsigned n=0; while(n!=5 && any_bool()) { a.push_back(any_bool()); ++n; } unsigned t = any_bool() ? 0xA5A5u : any_bool() ? 0x1B6Du : any_bool() ? 0x0010u : 0xDB5Bu; unsigned len = any_bool() ? 8 : 16; for(unsigned i=0;i<len;++i) b.push_back(((t>>i)&1u)!=0u); claim(a.is_subword(b)==inside(a,b),"subwords are exactly the words that occur at some position"); claim(a.is_prefix(b)==(a.size()<=b.size() && at(a,b,0)),"prefixes are exactly the words that occur at the start"); claim((a<b)==before(a,b) && (b<a)==before(b,a),"the order is lexicographic"); }
void spec_C17x_less() { BinaryWord a, b; small(a); small(b); claim((a<b)==before(a,b),"the order is lexicographic"); }
void spec_C17x_prefix() { BinaryWord a, b; small(a); small(b); claim(a.is_prefix(b)==(a.size()<=b.size() && at(a,b,0)),"prefixes are exactly the words that occur at the start"); }

// text output
void spec_C18_print() { std::ostream& os=spec::stream(); BITS(s,n) BinaryWord a; bits(a,s,n); spec::expect(os); if(n==0) { spec::then(os,'e'); } else { size_t i=spec::each(os,n); spec::then_digit(os,s[i]); spec::each_end(os); } BinaryWord const& ca=a; std::ostream& r=(os << ca); claim(&r==&os,"returns the stream"); spec::expected(os); claim(a.size()==n,"the word is not modified"); }
void spec_C18_print_format() { std::ostream& os=spec::stream(); BITS(s,n) BinaryWord a; bits(a,s,n); auto f=os.flags(); os << a; claim(same(os.flags(),f),"the format flags of the stream are what they were"); }

// text input, from all texts of up to a few digits or items
#define READ(N) spec::unroll(8); BinaryWord w; small(w); std::istream& is=spec::text_input(N);
namespace {
void check_read(BinaryWord const& w) {
    if(spec::bracketed()) { claim(spec::complete(),"a bracketed word is read to its end"); claim(w.size()==spec::items(),"the word has as many bits as the sequence items"); for(size_t k=0; k!=w.size(); ++k) { claim(w[k]==spec::item<bool>(k),"bit k is item k"); } }
    else { claim(w.size()==static_cast<size_t>(spec::digits()),"the word has as many bits as the text leading digits"); for(size_t k=0; k!=w.size(); ++k) { claim(w[k]==(spec::digit(static_cast<int>(k))==1),"bit k is digit k"); } }
}
}
void spec_C18x_read() { READ(2) try { std::istream& r=(is >> w); claim(&r==&is,"returns the stream"); check_read(w);
        if(!spec::bracketed()) { claim(spec::unread(),"nothing after the digits is consumed"); claim(spec::digits()==0 || !is.fail() || is.bad(),"reading digits succeeds"); claim(!spec::empty_input() || is.fail(),"reading from empty input fails"); } }
    catch(std::ios_base::failure const&) { claim(spec::bracketed() && spec::broken(),"only a bracketed text that is not a sequence is rejected"); } }
void spec_C18x_read_long() { spec::unroll(14); BinaryWord w; std::istream& is=spec::text_input(5); try { is >> w; check_read(w); } catch(std::ios_base::failure const&) { claim(spec::bracketed() && spec::broken(),"only a bracketed text that is not a sequence is rejected"); } }
void spec_C18x_many_digits() { spec::unroll(220); BinaryWord w; small(w); int len = spec::any_bool() ? 9 : spec::any_bool() ? 33 : spec::any_bool() ? 65 : 200; std::istream& is=spec::digits_input(len); is >> w; check_read(w); claim(spec::digits()==len && spec::unread(),"nothing after the digits is consumed"); }
void spec_C18x_many_digits_string() { spec::unroll(220); int len = spec::any_bool() ? 9 : spec::any_bool() ? 33 : spec::any_bool() ? 65 : 200; std::string const& t=spec::digits_text<std::string const&>(len); if(spec::any_bool()) { BinaryWord const w(t); check_read(w); claim(spec::digits()==len,"all digits are read"); } else { BinaryWord const w=make_binary_word(t); check_read(w); claim(spec::digits()==len,"all digits are read"); } }
void spec_C18x_string() { spec::unroll(8); std::string const& t=spec::text<std::string const&>(3); try { BinaryWord const w(t); check_read(w); } catch(std::ios_base::failure const&) { claim(spec::bracketed() && spec::broken(),"only a bracketed text that is not a sequence is rejected"); } }
void spec_C18x_make() { spec::unroll(8); std::string const& t=spec::text<std::string const&>(3); try { BinaryWord const w=make_binary_word(t); check_read(w); } catch(std::ios_base::failure const&) { claim(spec::bracketed() && spec::broken(),"only a bracketed text that is not a sequence is rejected"); } }
