/* C27: type traits and concepts.  Only compiled. */
#include "metaprogramming.hpp"
#include <cstddef>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>
using namespace Helper;

template<class T> struct Ty { using type = T; };
template<class... TS> struct Types { };

/* --- all equality patterns of up to five types ------------------------------------------------------------ */
template<int I> struct Tag;                             // never defined: only identity matters
template<int I> struct Kind { using type = Tag<I>; };   // the same with cv and reference variants of one type
template<> struct Kind<0> { using type = int; };
template<> struct Kind<1> { using type = const int; };
template<> struct Kind<2> { using type = int&; };
template<> struct Kind<3> { using type = Tag<3>; };
template<int I> using K = typename Kind<I>::type;
constexpr bool eq(int a, int b) { return a==b; }
template<std::size_t N> constexpr int dig(int k) { return (N>>(2*k))&3; }

template<std::size_t N> constexpr bool same5() {
    constexpr int a=dig<N>(0), b=dig<N>(1), c=dig<N>(2), d=dig<N>(3), e=dig<N>(4);
    static_assert(AreAllSame<K<a>,K<b>>::value==eq(a,b), "all-same of two types");
    static_assert(AreAllSame<K<a>,K<b>,K<c>>::value==(eq(a,b)&&eq(b,c)), "all-same of three types");
    static_assert(AreAllSame<K<a>,K<b>,K<c>,K<d>>::value==(eq(a,b)&&eq(b,c)&&eq(c,d)), "all-same of four types");
    static_assert(AreAllSame<K<a>,K<b>,K<c>,K<d>,K<e>>::value==(eq(a,b)&&eq(b,c)&&eq(c,d)&&eq(d,e)), "all-same of five types");
    static_assert(AllSame<K<a>,K<b>,K<c>,K<d>> ==(eq(a,b)&&eq(b,c)&&eq(c,d)), "all-same concept");
    static_assert(IsOneOf<K<a>,K<b>>::value==eq(a,b), "one of one type");
    static_assert(IsOneOf<K<a>,K<b>,K<c>>::value==(eq(a,b)||eq(a,c)), "one of two types");
    static_assert(IsOneOf<K<a>,K<b>,K<c>,K<d>>::value==(eq(a,b)||eq(a,c)||eq(a,d)), "one of three types");
    static_assert(IsOneOf<K<a>,K<b>,K<c>,K<d>,K<e>>::value==(eq(a,b)||eq(a,c)||eq(a,d)||eq(a,e)), "one of four types");
    static_assert(OneOf<K<a>,K<b>,K<c>,K<d>> ==(eq(a,b)||eq(a,c)||eq(a,d)), "one-of concept");
    static_assert(SameAs<K<a>,K<b>> ==eq(a,b) && Same<K<a>,K<b>> ==eq(a,b), "same type");
    if constexpr(a==b || a==c || a==d || a==e) {
        static_assert(IndexOf<K<a>,K<b>,K<c>,K<d>,K<e>>::N==(a==b?0u:a==c?1u:a==d?2u:3u), "index of the first occurrence"); }
    static_assert(std::is_same<typename First<K<a>,K<b>,K<c>>::Type,K<a>>::value && std::is_same<FirstType<K<a>,K<b>,K<c>,K<d>>,K<a>>::value && std::is_same<FirstType<K<a>>,K<a>>::value, "first type");
    static_assert(std::is_same<typename Second<K<a>,K<b>,K<c>>::Type,K<b>>::value && std::is_same<SecondType<K<a>,K<b>,K<c>,K<d>>,K<b>>::value && std::is_same<SecondType<K<a>,K<b>>,K<b>>::value, "second type");
    return true; }
template<std::size_t M, std::size_t... NS> constexpr bool row_same5(std::index_sequence<NS...>) { return (same5<32*M+NS>() && ...); }
template<std::size_t... MS> constexpr bool all_same5(std::index_sequence<MS...>) { return (row_same5<MS>(std::make_index_sequence<32>()) && ...); }
static_assert(all_same5(std::make_index_sequence<32>()));
static_assert(AreAllSame<>::value && AreAllSame<int>::value && AreAllSame<Tag<3>>::value && AllSame<> && AllSame<int>);
static_assert(!IsOneOf<int>::value && !IsOneOf<Tag<3>>::value && !OneOf<int>);
static_assert(IndexOf<int,int>::N==0u && IndexOf<Tag<5>,int,const int,int&,Tag<1>,Tag<2>,Tag<3>,Tag<4>,Tag<5>,Tag<5>>::N==7u);
static_assert(std::is_same<True,std::true_type>::value && std::is_same<False,std::false_type>::value && IntegralConstant<int,7>::value==7 && std::is_same<IntegralConstant<bool,true>,True>::value);

template<class X> concept HasPosition = requires { X::N; };
static_assert(!HasPosition<IndexOf<int>> && HasPosition<IndexOf<int,int>>, "a type that is not listed has no index");

/* --- relations between two types, over all pairs ------------------------------------------------------------ */
struct Base { Base(); }; struct Derived : Base { Derived(); }; struct Hidden : private Base { Hidden(); }; struct Multi : Derived { Multi(); };
struct Other : Base { Other(); }; struct Twice : Derived, Other { Twice(); };             // an ambiguous base
struct Implicit { Implicit(int); }; struct Explicit { explicit Explicit(int); };
struct ToInt { ToInt(); operator int() const; }; struct ExplicitToInt { ExplicitToInt(); explicit operator int() const; }; struct MutableToInt { MutableToInt(); operator int(); };
struct NoDefault { NoDefault(Base const&, int); }; struct NoCopy { NoCopy(); NoCopy(NoCopy const&) = delete; NoCopy& operator=(NoCopy const&) = delete; };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); MoveOnly& operator=(MoveOnly&&); };
struct Abstract { virtual void f() = 0; }; struct Concrete : Abstract { Concrete(); void f() override; };
struct LvalueOnly { LvalueOnly(); LvalueOnly& operator=(int) &; LvalueOnly& operator=(LvalueOnly const&) & = default; LvalueOnly(LvalueOnly const&) = default; };
struct ConstAssign { ConstAssign(); ConstAssign const& operator=(int) const; };
struct NoDestroy { NoDestroy(); ~NoDestroy() = delete; };
struct PrivateDefault { PrivateDefault(PrivateDefault const&) = default; private: PrivateDefault(); };
enum Plain { plain }; enum class Scoped { one };
union Either { Either(); int i; double d; };
using Everything = Types<bool,char,unsigned char,int,unsigned,long long,float,double,long double,const int,volatile int,int&,const int&,int&&,const int&&,
    int*,const int*,void*,std::nullptr_t,int[3],int(*)(int),int Base::*,Plain,Scoped,Base,const Base,Base&,Base const&,Base&&,Base*,Derived*,Derived const*,Derived,Derived&,Derived const&,Hidden,Hidden*,Multi,Twice,Twice*,
    Implicit,Explicit,ToInt,ToInt const,ToInt&,ToInt const&,ExplicitToInt,MutableToInt,MutableToInt const,NoDefault,NoCopy,NoCopy&,MoveOnly,MoveOnly&,MoveOnly const,Concrete,Concrete&,Abstract&,
    LvalueOnly,LvalueOnly&,ConstAssign,ConstAssign const&,NoDestroy,PrivateDefault,Either,std::string,const char*,std::unique_ptr<int>,std::shared_ptr<Derived>,std::shared_ptr<Base>,std::function<int(int)>,void,Abstract>;

template<class T, class U> struct Pairwise {
    static_assert(SameAs<T,U> ==std::is_same<T,U>::value && Same<T,U> ==std::is_same<T,U>::value, "same type");
    static_assert(Convertible<T,U> ==std::is_convertible<T,U>::value && ConvertibleTo<T,U> ==std::is_convertible<T,U>::value, "convertible from the first to the second");
    static_assert(ConstructibleFrom<T,U> ==std::is_constructible<T,U>::value && Constructible<T,U> ==std::is_constructible<T,U>::value, "the first is constructible from the second");
    static_assert(ExplicitlyConvertibleTo<T,U> ==(std::is_constructible<U,T>::value && !std::is_convertible<T,U>::value), "the first is only explicitly convertible to the second");
    static_assert(ExplicitlyConvertible<T,U> ==(std::is_constructible<U,T>::value && !std::is_convertible<T,U>::value), "the first is only explicitly convertible to the second");
    static_assert(Assignable<T,U> ==std::is_assignable<T,U>::value && AssignableFrom<T,U> ==std::is_assignable<T,U>::value, "the first is assignable from the second");
    static_assert(AssignableTo<T,U> ==std::is_assignable<U,T>::value, "the first is assignable to the second");
    static_assert(DerivedFrom<T,U> ==(std::is_base_of<U,T>::value && std::is_convertible<const volatile T*,const volatile U*>::value), "the first is derived publicly from the second");
    static_assert(SameAsOrConvertibleTo<T,U> ==(std::is_same<T,U>::value || std::is_convertible<T,U>::value), "the first is the second or converts to it");
    static constexpr bool ok=true; };
template<class T, class U> requires (std::is_reference<T>::value || std::is_reference<U>::value) struct Pairwise<T,U> {      // there are no pointers to these
    static_assert(SameAs<T,U> ==std::is_same<T,U>::value && Same<T,U> ==std::is_same<T,U>::value, "same type");
    static_assert(Convertible<T,U> ==std::is_convertible<T,U>::value && ConvertibleTo<T,U> ==std::is_convertible<T,U>::value, "convertible from the first to the second");
    static_assert(ConstructibleFrom<T,U> ==std::is_constructible<T,U>::value && Constructible<T,U> ==std::is_constructible<T,U>::value, "the first is constructible from the second");
    static_assert(ExplicitlyConvertibleTo<T,U> ==(std::is_constructible<U,T>::value && !std::is_convertible<T,U>::value), "the first is only explicitly convertible to the second");
    static_assert(ExplicitlyConvertible<T,U> ==(std::is_constructible<U,T>::value && !std::is_convertible<T,U>::value), "the first is only explicitly convertible to the second");
    static_assert(Assignable<T,U> ==std::is_assignable<T,U>::value && AssignableFrom<T,U> ==std::is_assignable<T,U>::value, "the first is assignable from the second");
    static_assert(AssignableTo<T,U> ==std::is_assignable<U,T>::value, "the first is assignable to the second");
    static_assert(!DerivedFrom<T,U>, "a reference is not derived from anything");
    static_assert(SameAsOrConvertibleTo<T,U> ==(std::is_same<T,U>::value || std::is_convertible<T,U>::value), "the first is the second or converts to it");
    static constexpr bool ok=true; };
template<class T, class U> struct Basis { static_assert(BaseOf<T,U> ==DerivedFrom<U,T>, "the first is a public base of the second"); static constexpr bool ok=true; };
template<class T, class U, class V> struct Triple { static_assert(ConstructibleFrom<T,U,V> ==std::is_constructible<T,U,V>::value && Constructible<T,U,V> ==std::is_constructible<T,U,V>::value, "constructible from two arguments"); static constexpr bool ok=true; };
template<class T> struct Single {
    static_assert(BuiltinArithmetic<T> ==std::is_arithmetic<T>::value, "builtin arithmetic");
    static_assert(BuiltinIntegral<T> ==std::is_integral<T>::value, "builtin integral");
    static_assert(BuiltinFloatingPoint<T> ==std::is_floating_point<T>::value, "builtin floating-point");
    static_assert(BuiltinUnsignedIntegral<T> ==(std::is_integral<T>::value && std::is_unsigned<T>::value), "builtin unsigned");
    static_assert(BuiltinSignedIntegral<T> ==(std::is_integral<T>::value && std::is_signed<T>::value), "builtin signed");
    static_assert(DefaultInitializable<T> ==std::is_default_constructible<T>::value && DefaultConstructible<T> ==std::is_default_constructible<T>::value, "default constructible");
    static_assert(CopyConstructible<T> ==std::is_copy_constructible<T>::value, "copy constructible");
    static_assert(Constructible<T> ==std::is_default_constructible<T>::value && ConstructibleFrom<T> ==std::is_default_constructible<T>::value, "constructible from nothing");
    static_assert(std::is_same<RemoveConst<T>,typename std::remove_const<T>::type>::value, "without const");
    static_assert(std::is_same<RemoveReference<T>,typename std::remove_reference<T>::type>::value, "without reference");
    static_assert(std::is_same<SelfType<T>,T>::value && std::is_same<typename Self<T>::Type,T>::value, "itself");
    static_assert(std::is_same<ReturnType<Return<T>>,T>::value, "return type");
    static constexpr bool ok=true; };
template<class T, class... US> constexpr bool row(Types<US...>) { return (Pairwise<T,US>::ok && ...) && (Basis<T,US>::ok && ...) && Single<T>::ok; }
template<class... TS> constexpr bool table(Types<TS...> all) { return (row<TS>(all) && ...); }
static_assert(table(Everything()));
using Few = Types<int,double,Base,Derived,Base&,std::string,const char*,NoDefault,Implicit,std::pair<int,double>,std::size_t,char>;
template<class T, class U, class... VS> constexpr bool row3(Types<VS...>) { return (Triple<T,U,VS>::ok && ...); }
template<class T, class... US> constexpr bool row2(Types<US...> all) { return (row3<T,US>(all) && ...); }
template<class... TS> constexpr bool table3(Types<TS...> all) { return (row2<TS>(all) && ...); }
static_assert(table3(Few()));
/* and a few by hand, so that nothing depends on what std says */
static_assert(Convertible<int,double> && Convertible<Derived*,Base*> && !Convertible<Base*,Derived*> && !Convertible<int,Explicit> && Convertible<int,Implicit> && !Convertible<Hidden*,Base*>);
static_assert(ExplicitlyConvertible<int,Explicit> && !ExplicitlyConvertible<int,Implicit> && !ExplicitlyConvertible<int,Base> && ExplicitlyConvertible<ExplicitToInt,int> && !ExplicitlyConvertible<Explicit,int>);
static_assert(Constructible<Explicit,int> && !Constructible<int,Explicit> && Constructible<NoDefault,Base,int> && !Constructible<NoDefault,int,Base>);
static_assert(Assignable<int&,double> && !Assignable<int,double> && !Assignable<const int&,double> && AssignableTo<double,int&> && !AssignableTo<int&,const double&>);
static_assert(DerivedFrom<Derived,Base> && !DerivedFrom<Base,Derived> && !DerivedFrom<Hidden,Base> && !DerivedFrom<Twice,Base> && DerivedFrom<Multi,Base> && BaseOf<Base,Derived> && !BaseOf<Derived,Base> && !BaseOf<Base,Hidden>);
static_assert(!CopyConstructible<NoCopy> && !CopyConstructible<MoveOnly> && CopyConstructible<int> && !DefaultConstructible<NoDefault> && DefaultConstructible<Base> && !DefaultConstructible<PrivateDefault>);
static_assert(BuiltinArithmetic<int> && BuiltinArithmetic<double> && !BuiltinArithmetic<std::string> && !BuiltinArithmetic<int*> && !BuiltinArithmetic<int&> && BuiltinIntegral<char> && !BuiltinIntegral<double> && !BuiltinIntegral<Plain> && BuiltinFloatingPoint<float> && !BuiltinFloatingPoint<int> && BuiltinUnsignedIntegral<unsigned> && !BuiltinUnsignedIntegral<int> && BuiltinSignedIntegral<int> && !BuiltinSignedIntegral<unsigned> && !BuiltinSignedIntegral<double>);

/* --- calls -------------------------------------------------------------------------------------------------------- */
struct Fn1 { double operator()(int) const; }; struct FnM { int operator()(int); }; struct FnL { Base operator()(Base&) const; }; struct Fn2 { Derived operator()(int, Base const&); int operator()() const; };
struct FnV { void operator()(int) const; }; struct FnO { int operator()(int) const; Base operator()(Base) const; }; struct FnE { Explicit operator()(int); }; struct FnRef { int& operator()(int); }; struct FnImpl { Implicit operator()(int); };
struct FnRv { int operator()(int) &&; }; struct FnLv { int operator()(int) &; }; struct FnSplit { int operator()(int) &&; Base operator()(int) &; std::string operator()(int) const &; };
using Callees = Types<Fn1,Fn1 const,Fn1&,FnM,FnM const,FnM const&,FnM&,FnL,Fn2,Fn2&,Fn2 const,FnV,FnO,FnE,FnRef,FnImpl,FnRv,FnRv&,FnLv,FnLv&,FnLv&&,FnSplit,FnSplit&,FnSplit const,FnSplit const&,double(*)(int),Base(*)(Derived const&),int(&)(double),void(*)(),std::function<int(int)>,int,Base,int*>;
using Arguments = Types<int,double,int&,const int&,Base,Base&,Base const&,Derived,Derived&,Implicit,std::string,int*>;
using Results = Types<int,double,bool,Base,Derived,Base const&,Implicit,void,std::string,int&>;
template<class F, class A> struct Call {
    static_assert(IsInvocable<F,A>::value==std::is_invocable<F,A>::value, "invocable with one argument");
    static_assert(Invocable<F,A> ==std::is_invocable<F,A>::value && Invocable<F> ==std::is_invocable<F>::value && Invocable<F,A,A> ==std::is_invocable<F,A,A>::value && Invocable<F,int,A> ==std::is_invocable<F,int,A>::value, "invocable concept");
    static constexpr bool ok=true; };
template<class R, class F, class A> constexpr bool returns() {
    if constexpr(std::is_invocable<F,A>::value) { return std::is_convertible<typename std::invoke_result<F,A>::type,R>::value; } else { return false; } }
template<class R, class F, class A> struct CallReturning {
    static_assert(InvocableReturning<R,F,A> ==returns<R,F,A>(), "invocable with a result that converts");
    static constexpr bool ok=true; };
template<class F, class A> struct CallResult {
    static_assert(std::is_same<InvokeResult<F,A>,typename std::invoke_result<F,A>::type>::value, "result of a call");
    static constexpr bool ok=true; };
template<class F, class A, class... RS> constexpr bool call(Types<RS...>) { 
    if constexpr(std::is_invocable<F,A>::value) { static_assert(CallResult<F,A>::ok); }
    return Call<F,A>::ok && (CallReturning<RS,F,A>::ok && ...); }
template<class F, class... AS> constexpr bool calls(Types<AS...>) { return (call<F,AS>(Results()) && ...); }
template<class... FS> constexpr bool all_calls(Types<FS...>) { return (calls<FS>(Arguments()) && ...); }
static_assert(all_calls(Callees()));
static_assert(std::is_same<InvokeResult<Fn2>,int>::value && std::is_same<InvokeResult<Fn2&,int,Base>,Derived>::value && std::is_same<InvokeResult<int Base::*,Base&>,int&>::value && !Invocable<Fn2 const,int,Base>);
static_assert(std::is_same<ResultOf<Fn1(int)>,double>::value && std::is_same<ResultOf<Fn2(int,Base)>,Derived>::value && std::is_same<ResultOf<Fn2()>,int>::value && std::is_same<ResultOf<FnO(Base)>,Base>::value && std::is_same<typename ResultOfTrait<FnL(Base&)>::Type,Base>::value);
/* IsInvocableReturning asks for a result that can be assigned to a variable of the type asked for. */
static_assert(IsInvocableReturning<double,Fn1,int>::value && IsInvocableReturning<int,Fn1,int>::value && IsInvocableReturning<Base,FnL,Base&>::value && !IsInvocableReturning<Derived,FnL,Base&>::value);
static_assert(!IsInvocableReturning<int,FnL,Base&>::value && !IsInvocableReturning<int,Fn1,Base>::value && !IsInvocableReturning<int,FnV,int>::value && !IsInvocableReturning<int,FnM const,int>::value && IsInvocableReturning<int,FnM,int>::value);
static_assert(IsInvocableReturning<Base,FnO,Base>::value && IsInvocableReturning<int,FnO,int>::value && !IsInvocableReturning<std::string,FnO,Base>::value && IsInvocableReturning<Implicit,Fn1,int>::value && !IsInvocableReturning<Explicit,Fn1,int>::value && IsInvocableReturning<Base,Base(*)(Derived const&),Derived>::value && IsInvocableReturning<int,FnRef,int>::value && IsInvocableReturning<bool,FnRef,int>::value);
static_assert(InvocableReturning<int,Fn2> && InvocableReturning<Base,Fn2,int,Base> && !InvocableReturning<std::string,Fn2,int,Base> && !InvocableReturning<int,Fn1> && InvocableReturning<void,FnV,int> && !InvocableReturning<int,FnV,int> && !InvocableReturning<Explicit,Fn1,int>);

/* --- operators ------------------------------------------------------------------------------------------------------ */
template<int N> struct Res { };                         // results that tell the operators apart
struct N1 { }; struct N2 { };
Res<1> operator+(N1 const&, N2 const&); Res<2> operator-(N1 const&, N2 const&); Res<3> operator*(N1 const&, N2 const&); Res<4> operator/(N1 const&, N2 const&); Res<5> operator-(N1 const&);
Res<6> operator==(N1 const&, N2 const&); Res<7> operator!=(N1 const&, N2 const&); Res<8> operator<(N1 const&, N2 const&); Res<9> operator&&(N1 const&, N2 const&); Res<10> operator||(N1 const&, N2 const&); Res<11> operator!(N1 const&);
Res<12> operator+(Res<3> const&, Res<3> const&); Res<13> mag(N1 const&); Res<14> operator+(N1&, N1&&); 
struct NI { Res<15>& operator+=(N1 const&); Res<16> operator-=(N1 const&); Res<17>& operator*=(N1 const&); Res<18>& operator/=(N1 const&); NI& operator+=(NI const&); NI& operator-=(NI const&); NI& operator*=(NI const&); NI& operator/=(NI const&); };
template<class T, class U> constexpr bool Is = std::is_same<T,U>::value;
static_assert(Is<SumType<N1,N2>,Res<1>> && Is<SumType<int>,int> && Is<SumType<int,double>,double> && Is<SumType<float,int>,float> && Is<SumType<short>,int> && Is<SumType<std::string,const char*>,std::string>, "sum");
static_assert(Is<DifferenceType<N1,N2>,Res<2>> && Is<DifferenceType<int,double>,double> && Is<DifferenceType<int*>,std::ptrdiff_t> && Is<DifferenceType<double>,double>, "difference");
static_assert(Is<ProductType<N1,N2>,Res<3>> && Is<ProductType<int,double>,double> && Is<ProductType<char>,int>, "product");
static_assert(Is<QuotientType<N1,N2>,Res<4>> && Is<QuotientType<int,double>,double> && Is<QuotientType<int>,int>, "quotient");
static_assert(Is<ArithmeticType<N1,N2>,Res<12>> && Is<ArithmeticType<int,double>,double> && Is<ArithmeticType<short>,int>, "arithmetic");
static_assert(Is<NegationType<N1>,Res<5>> && Is<NegationType<short>,int> && Is<NegationType<double const&>,double>, "negation");
static_assert(Is<EqualsType<N1,N2>,Res<6>> && Is<EqualityType<N1,N2>,Res<6>> && Is<InequalityType<N1,N2>,Res<7>> && Is<LessType<N1,N2>,Res<8>> && Is<ComparisonType<N1,N2>,Res<8>> && Is<EqualsType<int>,bool> && Is<EqualityType<int,long>,bool> && Is<InequalityType<int>,bool> && Is<LessType<double,int>,bool> && Is<ComparisonType<int>,bool>, "comparisons");
static_assert(Is<LogicalConjunctionType<N1,N2>,Res<9>> && Is<LogicalDisjunctionType<N1,N2>,Res<10>> && Is<LogicalNegationType<N1>,Res<11>> && Is<LogicalConjunctionType<bool>,bool> && Is<LogicalDisjunctionType<int,bool>,bool> && Is<LogicalNegationType<int*>,bool>, "logical operators");
static_assert(Is<MagType<N1>,Res<13>>, "magnitude");
static_assert(Is<InplaceSumType<NI,N1>,Res<15>> && Is<InplaceDifferenceType<NI,N1>,Res<16>> && Is<InplaceProductType<NI,N1>,Res<17>> && Is<InplaceQuotientType<NI,N1>,Res<18>> && Is<InplaceSumType<NI>,NI> && Is<InplaceDifferenceType<NI>,NI> && Is<InplaceProductType<NI>,NI> && Is<InplaceQuotientType<NI>,NI> && Is<InplaceSumType<int,double>,int> && Is<InplaceDifferenceType<double,int>,double> && Is<InplaceProductType<float>,float> && Is<InplaceQuotientType<int>,int>, "in-place operators");
struct OnlyEq { bool operator==(OnlyEq const&) const; }; struct OnlyAdd { }; OnlyAdd operator+(OnlyAdd,OnlyAdd); struct OnlySub { }; OnlySub operator-(OnlySub,OnlySub); struct OnlyMul { }; OnlyMul operator*(OnlyMul,OnlyMul); struct OnlyDiv { }; OnlyDiv operator/(OnlyDiv,OnlyDiv); struct OnlyLess { }; bool operator<(OnlyLess,OnlyLess); struct OnlyNeq { }; bool operator!=(OnlyNeq,OnlyNeq); struct None { };
template<class T, bool E, bool A, bool S, bool M, bool D> constexpr bool Has = HasEquality<T,T> ==E && CanAdd<T,T> ==A && CanSubtract<T,T> ==S && CanMultiply<T,T> ==M && CanDivide<T,T> ==D;
static_assert(Has<OnlyEq,1,0,0,0,0> && Has<OnlyAdd,0,1,0,0,0> && Has<OnlySub,0,0,1,0,0> && Has<OnlyMul,0,0,0,1,0> && Has<OnlyDiv,0,0,0,0,1> && Has<OnlyLess,0,0,0,0,0> && Has<OnlyNeq,0,0,0,0,0> && Has<None,0,0,0,0,0>, "which operators there are");
static_assert(Has<int,1,1,1,1,1> && Has<double const&,1,1,1,1,1> && Has<std::string,1,1,0,0,0> && Has<int*,1,0,1,0,0> && Has<Scoped,1,0,0,0,0> && Has<Base,0,0,0,0,0>, "which operators builtin and standard types have");
static_assert(HasEquality<int,double> && !HasEquality<int,int*> && !HasEquality<int,std::string> && HasEquality<N1,N2> && CanAdd<N1,N2> && !CanAdd<N2,N1> && CanSubtract<N1,N2> && !CanSubtract<N2,N1> && CanMultiply<N1,N2> && !CanMultiply<N2,N1> && CanDivide<N1,N2> && !CanDivide<N2,N1> && CanAdd<int*,int> && !CanAdd<int*,int*> && CanSubtract<int*,int> && !CanSubtract<int,int*>, "operators of two types");
static_assert(std::is_convertible<int,DontCare>::value && std::is_convertible<Base,DontCare>::value && std::is_convertible<Scoped,DontCare>::value && std::is_empty<Fallback>::value);
