namespace UNIT {
inline unsigned long long pure_lru_cache(unsigned long long seed) {
    Helper::LRUCache<int,unsigned long long> c(3u); unsigned long long r=0;
    for(int i=0; i!=5; ++i) { c.put(i,seed+static_cast<unsigned>(i)); r+=c.get(i)+c.age(i)+c.has_label(i-3); }
    try { c.get(77); } catch(...) { r+=10; } try { c.put(4,1u); } catch(...) { r+=20; } try { Helper::LRUCache<int,int> d(0u); } catch(...) { r+=40; }
    return r+c.current_size()+c.maximum_size();
}
}
#include <stdexcept>
#include <string>
namespace UNIT {
inline std::string use_lru_cache(unsigned long long seed) {
    std::string r=std::to_string(pure_lru_cache(seed));
    Helper::LRUCache<std::string,std::string> c(1u);
    try { c.age("nothing"); } catch(std::runtime_error const& e) { r+=(std::string(e.what()).find("nothing")!=std::string::npos ? "label" : "none"); }
    return r;
}
}
