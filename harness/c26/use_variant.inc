namespace UNIT {
struct VRed { static constexpr char code() { return 'r'; } }; struct VBlue { static constexpr char code() { return 'b'; } };
inline unsigned long long pure_variant(unsigned long long seed) {
    Helper::CodedVariant<char,VRed,VBlue> v(seed%2u ? 'r' : 'b'), w=VBlue(); Helper::Variant<int,double> x(3); x=2.5;
    return static_cast<unsigned>(v.code()+w.code())+1000u*Helper::holds_alternative<VRed>(v)+2000u*Helper::holds_alternative<VBlue>(w)+static_cast<unsigned>(x.index());
}
}
#include <string>
namespace UNIT { inline std::string use_variant(unsigned long long seed) { return std::to_string(pure_variant(seed)); } }
