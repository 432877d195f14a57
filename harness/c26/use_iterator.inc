namespace UNIT {
class Walk : public Helper::IteratorFacade<Walk,int,Helper::RandomAccessTraversalTag> {
    int* p; friend class Helper::IteratorCoreAccess;
    bool equal(Walk const& w) const { return p==w.p; } long distance_to(Walk const& w) const { return w.p-p; } void advance(long n) { p+=n; } int& dereference() const { return *p; }
  public: explicit Walk(int* q) : p(q) { } };
class Step : public Helper::IteratorFacade<Step,const int,Helper::ForwardTraversalTag> {
    int const* p; friend class Helper::IteratorCoreAccess;
    bool equal(Step const& w) const { return p==w.p; } void increment() { ++p; } const int& dereference() const { return *p; }
  public: explicit Step(int const* q) : p(q) { } };
inline unsigned long long pure_iterator(unsigned long long seed) {
    int a[6]={int(seed%10u),2,3,4,5,6}; unsigned long long r=0;
    Walk b(a), e(a+6); for(Walk w=b; w!=e; ++w) { r=r*7+static_cast<unsigned>(*w); }
    b+=2; b-=1; --e; r+=static_cast<unsigned>(*(b+2))+static_cast<unsigned>(*(e-1))+static_cast<unsigned long>(e-b)+(b<e)+(b<=e)+(b>e)+(b>=e)+(b==e)+static_cast<unsigned>(*e.operator->());
    for(Step s(a), t(a+6); s!=t; s++) { r=r*5+static_cast<unsigned>(*s); } Step s(a); ++s; r+=(s==Step(a+1));
    Helper::PairIterator<int*,int const*> p(a,a+1), q(p); q.advance(2); r+=p.equal(q)+static_cast<unsigned long>(p.distance_to(q))+static_cast<unsigned>(q.dereference().first*q.dereference().second);
    return r;
}
}
#include <sstream>
#include <string>
namespace UNIT {
inline std::string use_iterator(unsigned long long seed) {
    std::ostringstream os; os << pure_iterator(seed);

    int a[2]={1,2}; std::ostringstream p; p << Helper::PairIterator<int*,int*>(a,a+1); os << (p.str().find(",")!=std::string::npos);
    return os.str();
}
}
