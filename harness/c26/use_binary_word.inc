namespace UNIT {
inline unsigned long long pure_binary_word(unsigned long long seed) {
    Helper::BinaryWord w=Helper::make_binary_word(seed%2u?"0110":"[1,0,1]"), v("e"), u;
    u.append(w); u.append(true); v.append(seed%3u==0); v.append(w); u.set_back(false); v.erase_prefix(1);
    return u.bytes()+2u*w.is_prefix(u)+4u*w.is_subword(v)+8u*(u<w)+16u*v.size();
}
}
#include <sstream>
#include <string>
namespace UNIT {
inline std::string use_binary_word(unsigned long long seed) {
    std::ostringstream os; os << pure_binary_word(seed) << ' ';
    Helper::BinaryWord w; std::istringstream is(seed%2u?"01101x":"[0,1,1] 7"); is >> w; char c='?'; is >> c;
    os << w << c << Helper::BinaryWord() << Helper::BinaryWord("[]");
    return os.str();
}
}
