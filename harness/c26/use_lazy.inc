namespace UNIT {
inline unsigned long long pure_lazy(unsigned long long seed) {
    int n=0; Helper::Lazy<unsigned long long> l([&n,seed]() { ++n; return new unsigned long long(seed*3); }); Helper::Lazy<unsigned long long> m(l), k(l);
    unsigned long long r=l()+l()+static_cast<unsigned>(n); k=l; return r+m()+k()+static_cast<unsigned>(n);
}
}
#include <string>
namespace UNIT { inline std::string use_lazy(unsigned long long seed) { return std::to_string(pure_lazy(seed)); } }
