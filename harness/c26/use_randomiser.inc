namespace UNIT {
inline unsigned long long pure_randomiser(unsigned long long seed) {
    Helper::UniformIntRandomiser<int> i(-3,4); Helper::UniformRealRandomiser<double> x(1.0,2.0); Helper::UniformIntRandomiser<unsigned long long> one(seed,seed);
    Helper::RandomiserInterface<int>& p=i; unsigned long long r=0;
    for(int k=0; k!=20; ++k) { int v=p.get(); double y=x.get(); r+=(v>=-3 && v<=4)+(y>=1.0 && y<=2.0); }
    return r+one.get();
}
}
#include <string>
namespace UNIT { inline std::string use_randomiser(unsigned long long seed) { return std::to_string(pure_randomiser(seed)); } }
