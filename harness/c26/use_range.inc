namespace UNIT {
inline unsigned long long pure_range(unsigned long long seed) {
    unsigned long long r=0; for(auto i : Helper::range(seed%5u,9u)) { r=r*3+i; } for(auto i : Helper::range(4u)) { r=r*3+i; }
    Helper::Range g(2u,seed%100u+5u); return r+g[3]+g.size()+g.start()+g.stop()+g.stride()+*begin(g)+*end(g);
}
}
#include <string>
namespace UNIT { inline std::string use_range(unsigned long long seed) { return std::to_string(pure_range(seed)); } }
