// Value types that have nothing but what an operation asks for. No definition is needed: these files are only compiled.
#pragma once
namespace probe {
struct Plain { explicit Plain(int); Plain(Plain const&); Plain& operator=(Plain const&); ~Plain(); };          // no default constructor, no comparison
struct Ordered { explicit Ordered(int); Ordered(Ordered const&); Ordered& operator=(Ordered const&); ~Ordered(); bool operator<(Ordered const&) const; };
struct Comparable { explicit Comparable(int); Comparable(Comparable const&); bool operator!=(Comparable const&) const; bool operator==(Comparable const&) const; Comparable& operator=(Comparable const&); };
struct Defaulted { Defaulted(); Defaulted(Defaulted const&); Defaulted& operator=(Defaulted const&); };
struct FromInt { FromInt(int); };
struct FromPlain { explicit FromPlain(Plain const&); FromPlain(double,int); FromPlain(Plain const&,int); };
template<class T> T& any();
}
