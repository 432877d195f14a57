namespace UNIT {
inline Helper::String pure_string(unsigned long long seed) {
    Helper::String s("abc"), t(s), u; u=s; t+=Helper::to_string(seed); t+=Helper::to_str(2.5); t+=Helper::to_str(u); t+=c_str(s); t+=Helper::class_name<Helper::String>(); return t;
}
}
#include <string>
namespace UNIT { inline std::string use_string(unsigned long long seed) { return pure_string(seed); } }
