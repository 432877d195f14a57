namespace UNIT {
inline bool same(int i, int j) { return i==j; }
struct Tested { void test(); int i; Tested() : i(0) { } Tested(int j) : i(j) { } };
inline std::ostream& operator<<(std::ostream& os, Tested const& t) { return os << t.i; }
inline void Tested::test() {
    HELPER_TEST_ASSERT(1==1); HELPER_TEST_EQUAL(2,2); HELPER_TEST_CHECK(2,2); HELPER_TEST_EQUALS(2,2); HELPER_TEST_NOT_EQUAL(1,2); HELPER_TEST_WITHIN(1.0,1.1,0.5); HELPER_TEST_LESS(1,2); HELPER_TEST_COMPARE(1,<,2); HELPER_TEST_SAME(1,1); HELPER_TEST_SAME_AS(1,1);
    HELPER_TEST_EXECUTE(i=2); HELPER_TEST_TRY(i=3); HELPER_TEST_PRINT(i); HELPER_TEST_EVALUATE(i); HELPER_TEST_CHECK_WARN(1,1); HELPER_TEST_CONSTRUCT(Tested,c,(3)); HELPER_TEST_ASSIGN(i,4); HELPER_TEST_THROWS(throw std::runtime_error("x"),std::runtime_error); HELPER_TEST_FAIL(throw 1);
    HELPER_TEST_STATIC_ASSERT(std::is_same<int,int>); HELPER_TEST_CONCEPT(std::is_same<int,int>::value); HELPER_TEST_WARN("w"); HELPER_TEST_NOTIFY("n"); HELPER_PRINT_TEST_CASE_TITLE("t"); HELPER_PRINT_TEST_COMMENT("c"); HELPER_TEST_SKIP(none());
    HELPER_TEST_CALL(throw 1); HELPER_TEST_ASSERT(1==2);
}
}
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
namespace UNIT {
inline std::string use_test(unsigned long long) {
    std::ostringstream out, err; std::streambuf* o=std::cout.rdbuf(out.rdbuf()); std::streambuf* e=std::cerr.rdbuf(err.rdbuf());
    int failures=HELPER_TEST_FAILURES, skipped=HELPER_TEST_SKIPPED;
    HELPER_TEST_CLASS(Tested,Tested());
    std::cout.rdbuf(o); std::cerr.rdbuf(e);
    return std::to_string(HELPER_TEST_FAILURES-failures)+" "+std::to_string(HELPER_TEST_SKIPPED-skipped)+(out.str().find("TESTING CLASS Tested")!=std::string::npos ? " named" : "");
}
}
