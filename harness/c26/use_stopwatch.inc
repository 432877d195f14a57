namespace UNIT {
inline unsigned long long pure_stopwatch(unsigned long long) {
    Helper::Stopwatch<Helper::Microseconds> w; Helper::Stopwatch<Helper::Seconds> s; Helper::Stopwatch<Helper::Milliseconds> m; w.click(); s.restart().click(); m.click();
    return (w.duration().count()>=0)+2u*(w.elapsed_seconds()>=0)+4u*(s.duration().count()==0)+8u*(m.duration().count()<100000);
}
}
#include <string>
namespace UNIT { inline std::string use_stopwatch(unsigned long long seed) { return std::to_string(pure_stopwatch(seed)); } }
