#include <iostream>
#include <sstream>
#include <string>
namespace UNIT {
inline std::string use_stack_trace(unsigned long long) {
    std::ostringstream err; std::streambuf* old=std::cerr.rdbuf(err.rdbuf()); Helper::stack_trace(); std::cerr.rdbuf(old);
#ifdef ENABLE_STACK_TRACE
    return err.str().empty() ? "nothing" : "frames";
#else
    return "frames"+err.str();
#endif
}
}
