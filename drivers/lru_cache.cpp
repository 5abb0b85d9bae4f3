#include "lru_cache.hpp"
#include <iostream>
#include <stdexcept>
#include "spec.hpp"
using namespace Helper;
using spec::claim; using spec::never; using spec::any_bool; using spec::any_int; using spec::any_size; using spec::same; using spec::assume; using std::size_t;

namespace probe {
struct V { SPECIALS(V) friend bool operator==(V const&, V const&); friend std::ostream& operator<<(std::ostream&, V const&); };
#ifdef KIND_NUMBER
typedef KIND_NUMBER K;
#else
struct K { SPECIALS(K) friend bool operator<(K const&, K const&); friend bool operator>(K const&, K const&); friend bool operator==(K const&, K const&); friend bool operator!=(K const&, K const&); friend std::ostream& operator<<(std::ostream&, K const&); };
#endif
}

namespace {
using probe::V; using probe::K;

// What a cache of at most M entries must hold: labels and values, most recently used first.
template<size_t M> struct Model {
    size_t n=0, cap=0; int label[M]; V const* value[M];
    size_t find(int x) const { for(size_t i=0;i<M;++i) { if(i<n && label[i]==x) return i; } return M; }
    void front(size_t i) { int l=label[i]; V const* v=value[i]; for(size_t j=i;j>0;--j) { label[j]=label[j-1]; value[j]=value[j-1]; } label[0]=l; value[0]=v; }
    void insert(int x, V const& v) { size_t i = (n==cap) ? cap-1 : n++; label[i]=x; value[i]=&v; front(i); }
};

template<size_t M> void check_ages(LRUCache<int,V>& c, Model<M> const& m) {
    claim(c.current_size()==m.n,"the size is the number of entries");
    claim(c.current_size()<=c.maximum_size(),"never more than the maximum number of entries");
    claim(c.maximum_size()==m.cap,"the maximum size is the one given");
    for(size_t i=0;i<m.n;++i) { claim(c.has_label(m.label[i]),"a label is present until its eviction"); claim(c.age(m.label[i])==i,"ages follow the order of use, most recent first"); }
}
template<size_t M> void check_absent(LRUCache<int,V>& c, Model<M> const& m, int x) { if(m.find(x)==M) claim(!c.has_label(x),"a label that is not held is not present"); }

template<size_t M> void step(LRUCache<int,V>& c, Model<M>& m) {
    if(any_bool()) {
        int x=any_int(); assume(m.find(x)==M); V const& v=spec::any<V>();
        int old = m.n==m.cap ? m.label[m.cap-1] : x;
        c.put(x,v); m.insert(x,v);
        if(old!=x) claim(!c.has_label(old),"the least recently used entry is evicted");
    } else {
        for(size_t i=0;i<M;++i) { if(i<m.n && any_bool()) { V const& v=c.get(m.label[i]); claim(same(v,*m.value[i]),"a lookup returns the value inserted with the label"); m.front(i); return; } }
        assume(false);
    }
}
template<size_t M> void history(size_t steps) {
    spec::unroll(12);
    LRUCache<int,V> c(M); Model<M> m; m.cap=M;
    for(size_t s=0;s<steps;++s) { step(c,m); }
    check_ages(c,m);
}
template<size_t M> void fill(LRUCache<int,V>& c, Model<M>& m, size_t n) {
    m.cap=M;
    for(size_t i=0;i<n;++i) { int x=any_int(); assume(m.find(x)==M); V const& v=spec::any<V>(); c.put(x,v); m.insert(x,v); }
}
}

// ---- C06: membership, lookups, capacity ------------------------------------------------------------
void spec_C06_zero() { bool threw=false; size_t n=any_size(); try { LRUCache<int,V> c(n); claim(c.current_size()==0,"a new cache is empty"); claim(c.maximum_size()==n,"maximum size as given"); claim(!c.has_label(any_int()),"a new cache holds no label"); } catch(std::exception const&) { threw=true; } claim(threw==(n==0),"a maximum size of zero is refused, any other accepted"); }
template<size_t M> void duplicate(size_t n) {
    LRUCache<int,V> c(M); Model<M> m; fill(c,m,n);
    int x=any_int(); assume(m.find(x)<M); bool threw=false; V const& w=spec::any<V>();
    try { c.put(x,w); } catch(std::exception const&) { threw=true; }
    claim(threw,"inserting a label already present throws"); check_ages(c,m);
    for(size_t i=0;i<M;++i) { if(i<m.n) { V const& v=c.get(m.label[i]); claim(same(v,*m.value[i]),"values unchanged by the refused insertion"); } }
}
void spec_C06_duplicate_1_1() { duplicate<1>(1); }
void spec_C06_duplicate_2_2() { duplicate<2>(2); }
void spec_C06_duplicate_3_2() { duplicate<3>(2); }
void spec_C06_duplicate_3_3() { duplicate<3>(3); }
template<size_t M> void absent(size_t n) {
    LRUCache<int,V> c(M); Model<M> m; fill(c,m,n);
    int x=any_int(); assume(m.find(x)==M);
    claim(!c.has_label(x),"a label never inserted or evicted is not present");
    bool threw=false; try { c.get(x); } catch(std::exception const&) { threw=true; } claim(threw,"looking up an absent label throws");
    threw=false; try { c.age(x); } catch(std::exception const&) { threw=true; } claim(threw,"asking the age of an absent label throws");
    claim(!c.has_label(x),"a failed lookup inserts nothing"); check_ages(c,m);
    for(size_t i=0;i<M;++i) { if(i<m.n) { V const& v=c.get(m.label[i]); claim(same(v,*m.value[i]),"values unchanged by the failed lookup"); } }
}
void spec_C06_absent_1_0() { absent<1>(0); }
void spec_C06_absent_1_1() { absent<1>(1); }
void spec_C06_absent_2_3() { absent<2>(3); }
void spec_C06_absent_3_2() { absent<3>(2); }
void spec_C06_absent_3_3() { absent<3>(3); }
template<size_t M> void content(size_t n) {
    LRUCache<int,V> c(M); Model<M> m; fill(c,m,n);
    claim(c.current_size()==m.n && c.current_size()<=M,"the size is the number of entries, at most the maximum");
    int x=any_int(); claim(c.has_label(x)==(m.find(x)<M),"exactly the labels inserted and not evicted are present");
    for(size_t i=0;i<M;++i) { if(i<m.n) { V const& v=c.get(m.label[i]); claim(same(v,*m.value[i]),"a lookup returns the value inserted with the label"); } }
    claim(c.current_size()==m.n,"lookups change no size");
}
void spec_C06_content_1_2() { content<1>(2); }
void spec_C06_content_2_2() { content<2>(2); }
void spec_C06_content_2_3() { content<2>(3); }
void spec_C06_content_3_3() { content<3>(3); }
void spec_C06_content_3_4() { content<3>(4); }
void spec_C06_content_big() { size_t cap=any_size(); assume(cap>=3); LRUCache<int,V> c(cap); int x=any_int(), y=any_int(); assume(x!=y); V const& v=spec::any<V>(); V const& w=spec::any<V>(); c.put(x,v); c.put(y,w); claim(c.current_size()==2,"inserting below the maximum evicts nothing"); claim(same(c.get(x),v)&&same(c.get(y),w),"values kept"); claim(c.maximum_size()==cap,"maximum size kept"); }

// ---- C07: ages and eviction --------------------------------------------------------------------------
void spec_C07_history_1() { history<1>(3); }
void spec_C07_history_2a() { history<2>(3); }
void spec_C07_history_2b() { history<2>(4); }
void spec_C07_history_3a() { history<3>(4); }
void spec_C07_history_3b() { history<3>(5); }
void spec_C07_deep_2() { history<2>(6); }
void spec_C07_deep_3() { history<3>(6); }
void spec_C07_deep_4() { history<4>(6); }
template<size_t M> void queries(size_t n) {
    LRUCache<int,V> c(M); Model<M> m; fill(c,m,n);
    if(n>1) { c.get(m.label[1]); m.front(1); }
    for(size_t i=0;i<m.n;++i) { c.age(m.label[i]); c.has_label(m.label[i]); c.current_size(); c.maximum_size(); }
    int x=any_int(); c.has_label(x); try { c.age(x); } catch(std::exception const&) { } if(m.find(x)==M) { try { c.get(x); } catch(std::exception const&) { } }
    check_ages(c,m);
}
void spec_C07_queries_1() { queries<1>(1); }
void spec_C07_queries_2() { queries<2>(3); }
void spec_C07_queries_3() { queries<3>(3); }
void spec_C07_queries_3_open() { queries<3>(2); }
// filling a larger cache and using each of its entries in turn, then evicting
template<size_t M> void rotation() {
    spec::unroll(12);
    LRUCache<int,V> c(M); Model<M> m; m.cap=M; int x=any_int();
    for(size_t i=0;i<M;++i) { assume(x<1000000); V const& v=spec::any<V>(); c.put(x+int(i),v); m.insert(x+int(i),v); }
    for(size_t i=0;i<M;++i) { if(any_bool()) { int l=x+int(i); V const& v=c.get(l); size_t j=m.find(l); claim(same(v,*m.value[j]),"a lookup returns the value inserted with the label"); m.front(j); check_ages(c,m); } }
    int y=any_int(); assume(y<x); V const& v=spec::any<V>(); int old=m.label[M-1]; c.put(y,v); m.insert(y,v); claim(!c.has_label(old),"the least recently used entry is evicted"); check_ages(c,m);
    V const& w=spec::any<V>(); old=m.label[M-1]; c.put(x+int(M),w); m.insert(x+int(M),w); claim(!c.has_label(old),"the least recently used entry is evicted"); check_ages(c,m);
}
void spec_C07_rotation_4() { rotation<4>(); }
void spec_C07_rotation_5() { rotation<5>(); }

// ---- C08: aliased values, failing copies ---------------------------------------------------------------
template<size_t M> void aliased(size_t n) {
    LRUCache<int,V> c(M); Model<M> m; fill(c,m,n);
    for(size_t i=0;i<M;++i) { if(i<m.n && any_bool()) {
        V const* was=m.value[i]; V const& r=c.get(m.label[i]); m.front(i);
        for(size_t k=1;k<M;++k) { if(any_bool()) { if(m.n>1) { c.get(m.label[m.n-1]); m.front(m.n-1); } } }
        int x=any_int(); assume(m.find(x)==M); c.put(x,r); m.insert(x,*was);
        claim(same(c.get(x),*was),"the stored value is the one passed in, also when it refers to a value held by the cache"); check_ages(c,m); return; } }
    assume(false);
}
void spec_C08_aliased_1() { aliased<1>(1); }
void spec_C08_aliased_2_open() { aliased<2>(1); }
void spec_C08_aliased_2() { aliased<2>(2); }
void spec_C08_aliased_3() { aliased<3>(3); }
template<size_t M> void throwing(size_t n) {
    LRUCache<K,V> c(M); K* k=spec::any_elems<K>(n+1); V const* v=spec::any_elems<V>(n+1);
    for(size_t i=0;i<=n;++i) { for(size_t j=0;j<i;++j) assume(!(k[i]==k[j])); }
    for(size_t i=0;i<n;++i) { c.put(k[i],v[i]); }
    size_t held = n<M ? n : M;
    spec::throwing("copy move"); bool threw=false;
    try { c.put(k[n],v[n]); } catch(...) { threw=true; }
    spec::throwing("");
    if(threw) {
        claim(c.current_size()==held,"a failed insertion changes no size"); claim(!c.has_label(k[n]),"a failed insertion inserts nothing");
        for(size_t i=0;i<held;++i) { K const& l=k[n-1-i]; claim(c.has_label(l),"a failed insertion evicts nothing"); claim(c.age(l)==i,"a failed insertion changes no age"); }
        for(size_t i=0;i<held;++i) { claim(same(c.get(k[n-1-i]),v[n-1-i]),"a failed insertion changes no value"); }
    } else { claim(c.has_label(k[n]) && c.age(k[n])==0,"inserted"); claim(same(c.get(k[n]),v[n]),"the value passed in is stored"); }
}
void spec_C08_throwing_1_0() { throwing<1>(0); }
void spec_C08_throwing_1_1() { throwing<1>(1); }
void spec_C08_throwing_2_1() { throwing<2>(1); }
void spec_C08_throwing_2_2() { throwing<2>(2); }
void spec_C08_throwing_3_3() { throwing<3>(3); }

// larger caches: labels inserted out of order, one of the entries used, then evictions
namespace {
template<size_t M> void large() {
    spec::unroll(4*M);
    LRUCache<int,V> c(M); Model<M> m; m.cap=M; int x=any_int(); assume(x<1000000 && x>-1000000);
    for(size_t i=0;i<M;++i) { int l=x+static_cast<int>((i*5+3)%M); V const& v=spec::any<V>(); c.put(l,v); m.insert(l,v); }
    claim(c.current_size()==M,"no entry is evicted before the cache is full");
    for(size_t i=0;i<M;++i) { if(any_bool()) { int l=m.label[i]; V const& v=c.get(l); claim(same(v,*m.value[i]),"a lookup returns the value inserted with the label"); m.front(i); break; } }
    for(int k=0;k<3;++k) { int y = k==1 ? x-1 : x+static_cast<int>(M)+k; V const& v=spec::any<V>(); int old=m.label[M-1]; c.put(y,v); m.insert(y,v); claim(!c.has_label(old),"the least recently used entry is evicted"); }
    check_ages(c,m);
}
}
void spec_C07_large_8() { large<8>(); }
void spec_C07_large_9() { large<9>(); }
void spec_C07_large_16() { large<16>(); }
void spec_C07_large_33() { large<33>(); }
// many operations on a small cache
void spec_C07_large_history() {
    spec::unroll(320);
    LRUCache<int,V> c(3); Model<3> m; m.cap=3; int x=any_int(); assume(x<1000000 && x>-1000000); V const& v=spec::any<V>();
    for(int i=0;i<300;++i) { if(i%3==2) { size_t j=m.n-1; V const& w=c.get(m.label[j]); claim(same(w,*m.value[j]),"a lookup returns the value inserted with the label"); m.front(j); } else { int l = i%2==0 ? x+i : x-i; int old = m.n==3 ? m.label[2] : l; c.put(l,v); m.insert(l,v); if(old!=l) claim(!c.has_label(old),"the least recently used entry is evicted"); } }
    check_ages(c,m);
    for(size_t i=0;i<3;++i) { if(any_bool()) { c.get(m.label[i]); m.front(i); } check_ages(c,m); }
}
namespace {
template<size_t M> void aliased_large() {
    spec::unroll(4*M);
    LRUCache<int,V> c(M); Model<M> m; m.cap=M; int x=any_int(); assume(x<1000000 && x>-1000000);
    for(size_t i=0;i<M;++i) { int l=x+static_cast<int>((i*5+3)%M); V const& v=spec::any<V>(); c.put(l,v); m.insert(l,v); }
    size_t i=0; while(i+1!=M && any_bool()) ++i;
    V const* was=m.value[i]; V const& r=c.get(m.label[i]); m.front(i);
    if(any_bool()) { for(size_t k=1;k<M;++k) { c.get(m.label[m.n-1]); m.front(m.n-1); } }
    int y=x-7; c.put(y,r); m.insert(y,*was);
    claim(same(c.get(y),*was),"the stored value is the one passed in, also when it refers to a value held by the cache"); check_ages(c,m);
}
template<size_t M> void throwing_large() {
    spec::unroll(4*M);
    LRUCache<int,V> c(M); Model<M> m; m.cap=M; int x=any_int(); assume(x<1000000 && x>-1000000); bool full=any_bool();
    for(size_t i=0;i<(full?M:M-2);++i) { int l=x+static_cast<int>((i*5+3)%M); V const& v=spec::any<V>(); c.put(l,v); m.insert(l,v); }
    V const& v=spec::any<V>(); int y=x-3;
    spec::throwing("copy move"); bool threw=false;
    try { c.put(y,v); } catch(...) { threw=true; }
    spec::throwing("");
    if(threw) { claim(!c.has_label(y),"a failed insertion inserts nothing"); check_ages(c,m); for(size_t i=0;i<m.n;++i) { V const& w=c.get(m.label[i]); claim(same(w,*m.value[i]),"a failed insertion changes no value"); m.front(i); } }
    else { m.insert(y,v); check_ages(c,m); claim(same(c.get(y),v),"the value passed in is stored"); }
}
template<size_t M> void refused_large() {
    spec::unroll(4*M);
    LRUCache<int,V> c(M); Model<M> m; m.cap=M; int x=any_int(); assume(x<1000000 && x>-1000000); size_t n = any_bool() ? M : any_bool() ? M+1 : M-1;
    for(size_t i=0;i<n;++i) { int l=x+static_cast<int>(i); V const& v=spec::any<V>(); c.put(l,v); m.insert(l,v); claim(c.current_size()<=M,"never more than the maximum number of entries"); }
    size_t i=0; while(i+1<m.n && any_bool()) ++i;
    bool threw=false; try { c.put(m.label[i],spec::any<V>()); } catch(std::exception const&) { threw=true; } claim(threw,"inserting a label already present throws"); check_ages(c,m);
    int y = n>M ? x : x+static_cast<int>(n); threw=false; try { c.get(y); } catch(std::exception const&) { threw=true; } claim(threw,"looking up an absent label throws"); threw=false; try { c.age(y); } catch(std::exception const&) { threw=true; } claim(threw,"asking the age of an absent label throws"); claim(!c.has_label(y),"an absent label is not present"); check_ages(c,m);
    for(size_t k=0;k<m.n;++k) { V const& w=c.get(m.label[k]); claim(same(w,*m.value[k]),"a lookup returns the value inserted with the label"); m.front(k); }
}
}
void spec_C08_aliased_9() { aliased_large<9>(); }
void spec_C08_aliased_16() { aliased_large<16>(); }
void spec_C08_throwing_9() { throwing_large<9>(); }
void spec_C08_throwing_16() { throwing_large<16>(); }
void spec_C06_large_9() { refused_large<9>(); }
void spec_C06_large_17() { refused_large<17>(); }
// ages beyond what a byte can hold
void spec_C07_large_ages() {
    spec::unroll(600);
    LRUCache<int,V> c(258); int x=any_int(); assume(x<1000000 && x>-1000000); V const& v=spec::any<V>();
    for(int i=0;i<258;++i) c.put(x+i,v);
    claim(c.age(x)==257 && c.age(x+1)==256 && c.age(x+129)==128 && c.age(x+257)==0,"ages follow the order of use, most recent first");
    c.get(x+1); claim(c.age(x)==257 && c.age(x+1)==0 && c.age(x+2)==256,"ages follow the order of use, most recent first");
    c.put(x-1,v); claim(!c.has_label(x) && c.age(x+2)==257 && c.current_size()==258,"the least recently used entry is evicted");
}
