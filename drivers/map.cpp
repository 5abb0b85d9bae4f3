#include "container.hpp"
#include <stdexcept>
#include <utility>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::any_size; using spec::any_bool; using spec::same; using spec::assume; using std::size_t;

namespace probe {
#ifdef KIND_NUMBER
typedef KIND_NUMBER K;
#else
struct K { SPECIALS(K)
    friend bool operator==(K const&, K const&); friend bool operator!=(K const&, K const&); friend bool operator<(K const&, K const&); friend bool operator>(K const&, K const&); };
#endif
struct V { SPECIALS(V) friend bool operator==(V const&, V const&); friend bool operator!=(V const&, V const&); };
struct W { SPECIALS(W) operator V() const; };
}
using probe::K; using probe::V; using probe::W;
using M=std::map<K,V>;
using P=std::pair<K,V>;

namespace {
// what a map says about one key: absent, or its value
struct Entry { bool present; V const* value; };
template<class MM> bool has(MM const& m, K const& y) { return m.count(y)!=0; }
template<class MM> auto const& at(MM const& m, K const& y) { return m.find(y)->second; }
bool is(M const& m, K const& y, bool present, V const& value) { bool h=has(m,y); if(h!=present) return false; return !h || same(at(m,y),value); }
}
// an arbitrary map a and an arbitrary key y, with its value kept in v
#define SETUP K& y=spec::any<K>(); spec::named(y); Map<K,V> a; spec::fill(a); bool ia=has(a,y); V va(ia ? at(a,y) : V()); Map<K,V> const& ca=a; (void)ca; (void)va;
#define UNCHANGED claim(is(a,y,ia,va),"the map is unchanged")

void spec_C13_get() { SETUP; bool threw=false; try { V const& r=ca.get(y); claim(ia,"an absent key is refused"); claim(same(r,va),"the stored value"); claim(&r==&at(a,y),"the stored value itself"); } catch(std::exception const&) { threw=true; } claim(threw==!ia,"throws exactly for an absent key"); UNCHANGED; }
void spec_C13_value_const() { SETUP; bool threw=false; try { V const& r=ca.value(y); claim(ia,"an absent key is refused"); claim(same(r,va),"the stored value"); claim(&r==&at(a,y),"the stored value itself"); } catch(std::exception const&) { threw=true; } claim(threw==!ia,"throws exactly for an absent key"); UNCHANGED; }
void spec_C13_value() { SETUP; bool threw=false; try { V& r=a.value(y); claim(ia,"an absent key is refused"); claim(same(r,va),"the stored value"); claim(&r==&at(a,y),"the stored value itself"); } catch(std::exception const&) { threw=true; } claim(threw==!ia,"throws exactly for an absent key"); UNCHANGED; }
void spec_C13_index_const() { SETUP; bool threw=false; try { V const& r=ca[y]; claim(ia,"an absent key is refused"); claim(same(r,va),"the stored value"); claim(&r==&at(a,y),"the stored value itself"); } catch(std::exception const&) { threw=true; } claim(threw==!ia,"throws exactly for an absent key"); UNCHANGED; }
void spec_C13_index() { SETUP; K& x=spec::any<K>(); spec::named(x); Map<K,V> b; spec::fill(b); bool ix=has(b,x), iy=has(b,y); V vx(ix ? at(b,x) : V()); V vy(iy ? at(b,y) : V()); V& r=b[x]; if(ix) claim(same(r,vx),"the stored value"); claim(has(b,x) && &r==&at(b,x),"refers to the entry"); if(!(x==y)) claim(is(b,y,iy,vy),"no other entry changes"); }
void spec_C13_has_key() { SETUP; claim(ca.has_key(y)==ia,"exactly the keys present"); UNCHANGED; }
void spec_C13_size_empty() { SETUP; Map<K,V> e; claim(e.size()==0 && !e.has_key(y),"a new map is empty"); }

#define TWO K& x=spec::any<K>(); spec::named(x); K& y=spec::any<K>(); spec::named(y); V& w=spec::any<V>(); Map<K,V> a; spec::fill(a); bool ia=has(a,y), ix=has(a,x); V va(ia ? at(a,y) : V()); V vx(ix ? at(a,x) : V()); (void)ix; (void)vx;
// after inserting (x,w) into a map where y had value va
#define INSERTED(m,what) if(x==y && !ia) { claim(has(m,y) && same(at(m,y),w),what ": an absent key is added with the value"); } else { claim(is(m,y,ia,va),what ": present entries keep their value and nothing else is added"); }
void spec_C13_insert_pair() { TWO; P const kv(x,w); a.insert(kv); INSERTED(a,"insert of a pair"); }
void spec_C13_insert_key_value() { TWO; K const& cx=x; V const& cw=w; a.insert(cx,cw); INSERTED(a,"insert of key and value"); }
void spec_C13_insert_free() { TWO; K const& cx=x; V const& cw=w; V& r=Helper::insert(a,cx,cw); INSERTED(a,"free insert"); claim(&r==&at(a,x),"returns the stored value itself"); if(ix) claim(same(r,vx),"the existing value is kept"); else claim(same(r,w),"the new value is stored"); }

#define PAIR K& y=spec::any<K>(); spec::named(y); Map<K,V> a; Map<K,V> b; spec::fill(a); spec::fill(b); bool ia=has(a,y), ib=has(b,y); V va(ia ? at(a,y) : V()); V vb(ib ? at(b,y) : V()); Map<K,V> const& ca=a; Map<K,V> const& cb=b; M const& mb=b; (void)ca; (void)cb; (void)mb;
#define JOINED(m) claim(has(m,y)==(ia||ib),"exactly the keys of either"); if(ia) claim(same(at(m,y),va),"existing value kept"); else if(ib) claim(same(at(m,y),vb),"absent key added with its value");
void spec_C13_adjoin() { PAIR; a.adjoin(mb); JOINED(a); claim(is(b,y,ib,vb),"argument unchanged"); }
void spec_C13_adjoin_self() { PAIR; a.adjoin(static_cast<M const&>(a)); claim(is(a,y,ia,va),"joining a map with itself changes nothing"); }
void spec_C13_join() { PAIR; Map<K,V> r=join(ca,cb); JOINED(r); claim(is(a,y,ia,va) && is(b,y,ib,vb),"operands unchanged"); }
void spec_C13_join_self() { PAIR; Map<K,V> r=join(ca,ca); claim(is(r,y,ia,va),"joining a map with itself changes nothing"); claim(is(a,y,ia,va),"operands unchanged"); }

#define KEYS K& y=spec::any<K>(); spec::named(y); Map<K,V> a; spec::fill(a); Set<K> s; spec::fill(s); bool ia=has(a,y), is_=s.count(y)!=0; V va(ia ? at(a,y) : V()); Map<K,V> const& ca=a; Set<K> const& cs=s; (void)ca; (void)cs; (void)is_;
void spec_C13_remove_keys() { KEYS; a.remove_keys(cs); claim(is(a,y,ia&&!is_,va),"exactly the entries whose key is named are removed"); claim((s.count(y)!=0)==is_,"argument unchanged"); }
void spec_C13_restrict_keys() { KEYS; M const& m=a; std::set<K> const& ss=s; Map<K,V> r=restrict_keys(m,ss); claim(is(r,y,ia&&is_,va),"exactly the entries whose key is named are kept"); claim(is(a,y,ia,va) && (s.count(y)!=0)==is_,"arguments unchanged"); }
void spec_C13_keys() { SETUP; Set<K> r=ca.keys(); claim((r.count(y)!=0)==ia,"exactly the keys present"); UNCHANGED; }
void spec_C13_copy() { SETUP; M const& m=a; Map<K,V> r(m); claim(is(r,y,ia,va),"same entries"); UNCHANGED; Map<K,V> q(ca); claim(is(q,y,ia,va),"same entries"); }
void spec_C13_convert() { K& y=spec::any<K>(); spec::named(y); std::map<K,W> m; spec::fill(m); bool im=has(m,y); Map<K,V> r(m); claim(has(r,y)==im && has(m,y)==im,"same keys"); if(im) claim(same(at(r,y),static_cast<V>(at(m,y))),"converted value"); }

// order, on all small maps
void spec_C13x_keys() { Map<K,V> a; spec::fill(a); Map<K,V> const& ca=a; Set<K> r=ca.keys(); claim(r.size()==a.size(),"one key per entry"); auto i=r.begin(); for(auto it=a.begin(); it!=a.end(); ++it) { claim(i!=r.end() && same(*i,it->first),"keys in order"); ++i; } claim(i==r.end(),"no further key"); }
void spec_C13x_values() { Map<K,V> a; spec::fill(a); Map<K,V> const& ca=a; List<V> r=ca.values(); claim(r.size()==a.size(),"one value per entry"); size_t i=0; for(auto it=a.begin(); it!=a.end(); ++it) { claim(same(r[i],it->second),"values in the order of the keys"); ++i; } }

// larger maps
void spec_C13x_large_maps() { spec::unroll(40); int x=spec::any_int(); assume(x<1000000 && x>-1000000); size_t n=any_size(); assume(n<=17); Map<int,V> a; V const& v=spec::any<V>(); V const& w=spec::any<V>(); for(size_t i=0;i<n;++i) { a.std::map<int,V>::insert(std::pair<int const,V>(x+static_cast<int>(i), i%2==0 ? v : w)); } Map<int,V> const& ca=a; Set<int> r=ca.keys(); claim(r.size()==n,"one key per entry"); List<V> l=ca.values(); claim(l.size()==n,"one value per entry"); auto i=r.begin(); for(size_t k=0;k<n;++k) { claim(*i==x+static_cast<int>(k),"keys in order"); ++i; claim(same(l[k],k%2==0 ? v : w),"values in the order of the keys"); claim(ca.has_key(x+static_cast<int>(k)) && same(ca.get(x+static_cast<int>(k)),k%2==0 ? v : w),"each entry is found"); } claim(!ca.has_key(x-1) && !ca.has_key(x+static_cast<int>(n)),"no other key is present"); }
