namespace UNIT {
struct PureBox { int i; PureBox(int j) : i(j) { } };
struct PureWrap : PureBox { HELPER_USING_CONSTRUCTORS(PureWrap,PureBox) };
inline unsigned long long fails(int k, unsigned long long n) {
    switch(k) {
        case 0: HELPER_ASSERT(n>1000u); break;
        case 1: HELPER_ASSERT_MSG(n>1000u,"text " << n); break;
        case 2: HELPER_ASSERT_EQUAL(n,1000u); break;
        case 3: HELPER_PRECONDITION(n>1000u); break;
        case 4: HELPER_PRECONDITION_MSG(n>1000u,"text " << n); break;
        case 5: HELPER_FAIL_MSG("text " << n);
        case 6: HELPER_NOT_IMPLEMENTED;
        case 7: HELPER_DEBUG_ASSERT(n<1000u); HELPER_DEBUG_ASSERT_MSG(n<1000u,"text"); HELPER_DEBUG_PRECONDITION(n<1000u); break;
        case 8: HELPER_THROW(std::logic_error,"here","text " << n);
        case 9: HELPER_DEBUG_ASSERT(n>1000u); HELPER_DEBUG_ASSERT_MSG(n>1000u,"text"); HELPER_DEBUG_PRECONDITION(n>1000u);
#ifdef NDEBUG
            return 1000;
#endif
    }
    return 1;
}
inline void notices(int n) {
    HELPER_NOTIFY("note " << n);
    HELPER_WARN("warn " << n);
    HELPER_ERROR("error " << n);
    HELPER_WARN_ONCE("once in " "UNIT");
    HELPER_DEPRECATED(notices,use others);
}
inline unsigned long long pure_macros(unsigned long long seed) {
    unsigned long long r=0;
    for(int k=0; k!=10; ++k) { try { r+=fails(k,seed%100u); } catch(...) { r+=1000u; } }
    return r+static_cast<unsigned>(PureWrap(3).i);
}
}
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
namespace UNIT {
inline std::string use_macros(unsigned long long seed) {
    std::ostringstream os, err; os << pure_macros(seed);
    for(int k=0; k!=9; ++k) {
        try { fails(k,seed%100u); } catch(std::runtime_error const& e) { std::string m(e.what()); os << " r" << (m.find("fails")!=std::string::npos) << (m.find("text")!=std::string::npos); } catch(std::logic_error const& e) { os << " l:" << e.what(); } }
    std::streambuf* old=std::cerr.rdbuf(err.rdbuf()); notices(5); err.str(""); notices(6); std::cerr.rdbuf(old); os << err.str();
    return os.str();
}
}
