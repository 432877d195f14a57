namespace UNIT {
inline unsigned long long pure_tuple(unsigned long long seed) {
    unsigned long long a=0,b=0,c=0; Helper::make_lpair(a,b)=Helper::make_pair(seed,2ull); Helper::make_ltuple(a,b,c)=Helper::make_tuple(b,a,5ull);
    Helper::Pair<int,long> p(1,2); Helper::Tuple<int,char,long,short,float> t(1,'a',3,4,5.f); Helper::get_first(t)=9;
    return a+3*b+7*c+static_cast<unsigned>(Helper::get_first(p))+static_cast<unsigned long>(Helper::get_second(p))+static_cast<unsigned>(Helper::get_first(t))+static_cast<unsigned long>(Helper::get_third(t))+static_cast<unsigned>(Helper::get_fourth(t))+static_cast<unsigned>(Helper::get_fifth(t));
}
}
#include <string>
namespace UNIT { inline std::string use_tuple(unsigned long long seed) { return std::to_string(pure_tuple(seed)); } }
