namespace UNIT {
template<int N> struct VNum { static constexpr int code() { return N*N+1; } };
struct VisitNum { template<int N> unsigned long long operator()(VNum<N>) const { return static_cast<unsigned>(N)*11u; } };
inline unsigned long long pure_variant_inl(unsigned long long seed) {
    Helper::CodedVariant<int,VNum<0>,VNum<1>,VNum<2>,VNum<3>,VNum<4>,VNum<5>,VNum<6>,VNum<7>,VNum<8>,VNum<9>,VNum<10>,VNum<11>,VNum<12>,VNum<13>,VNum<14>,VNum<15>> v(static_cast<int>((seed%16u)*(seed%16u)+1u));
    Helper::CodedVariant<int,VNum<3>> w((VNum<3>())); return v.accept(VisitNum())+1000u*w.accept(VisitNum());
}
}
#include <string>
namespace UNIT { inline std::string use_variant_inl(unsigned long long seed) { return std::to_string(pure_variant_inl(seed)); } }
