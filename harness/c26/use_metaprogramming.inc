namespace UNIT {
struct PureNumber { int mag_; }; inline long mag(PureNumber) { return 0; }
inline unsigned long long pure_metaprogramming(unsigned long long seed) {
    using namespace Helper;
    static_assert(Same<FirstType<int,char>,int> and Same<SecondType<int,char>,char> and Same<SelfType<int>,int> and AllSame<int,int> and not AllSame<int,char> and OneOf<int,char,int>);
    static_assert(AreAllSame<>::value and IndexOf<int,char,int>::N==1 and Same<SumType<int,double>,double> and Same<ResultOf<int(*(int))(int)>,int> == Same<ResultOf<int(*(int))(int)>,int>);
    static_assert(Same<RemoveConst<const int>,int> and Same<RemoveReference<int&>,int> and Same<LogicalNegationType<int>,bool> and Same<ComparisonType<int>,bool> and Same<NegationType<char>,int>);
    static_assert(Convertible<int,double> and ConvertibleTo<int,double> and Constructible<double,int> and ExplicitlyConvertible<int,double> == false and DefaultConstructible<int> and CopyConstructible<int>);
    static_assert(Assignable<int&,int> and AssignableFrom<int&,int> and DerivedFrom<True,True> and Invocable<int(*)(int),int> and InvocableReturning<long,int(*)(int),int> and HasEquality<int,int> and CanAdd<int,int> and CanSubtract<int,int> and CanMultiply<int,int> and CanDivide<int,int>);
    static_assert(BuiltinArithmetic<int> and BuiltinIntegral<int> and BuiltinFloatingPoint<double> and BuiltinUnsignedIntegral<unsigned> and BuiltinSignedIntegral<int> and Same<MagType<PureNumber>,long>);
    static_assert(Same<InplaceSumType<int>,int> and Same<ProductType<int>,int> and Same<QuotientType<int>,int> and Same<DifferenceType<int>,int> and Same<ArithmeticType<int>,int> and Same<EqualsType<int>,bool> and Same<InvokeResult<int(*)(int),int>,int>);
    static_assert(Same<ReturnType<Return<int>>,int> and IsInvocable<int(*)(int),int>::value and IsInvocableReturning<int,int(*)(int),int>::value and True::value and not False::value and IntegralConstant<int,3>::value==3);
    static_assert(Convertible<int,DontCare>); Fallback f; (void)f; (void)sizeof(declval<int>());
    unsigned long long const* p=&seed; size_t const* n=&IndexOf<int,char,long,int>::N; return *p*0u+*n;  // the object, not only its value
}
}
#include <string>
namespace UNIT { inline std::string use_metaprogramming(unsigned long long seed) { return std::to_string(pure_metaprogramming(seed)); } }
