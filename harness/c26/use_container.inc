#include <sstream>
#include <string>
namespace UNIT {
inline std::string use_container(unsigned long long seed) {
    using namespace Helper;
    using Helper::operator<<; int k=static_cast<int>(seed%7u);
    std::ostringstream os;
    List<int> l{3,k,5}, m(4), n(std::vector<int>{k,k}); l.append(k); l.append(n); l.concatenate(m);
    List<double> ld(l); List<std::string> ls{"x","y"};
    os << l << ' ' << ld << ' ' << ls << ' ' << catenate(l,m) << ' ' << catenate(n,9) << ' ' << Helper::apply([](int i) { return i*0.5; },n);
    os << elementwise([](int i) { return i+1; },l) << elementwise([](int i, double x) { return i+x; },l,ld);
    LinkedList<int> q(2u,k), p(q), o(l); q.append(3); q.append(p); q.concatenate(o); os << q << ' ';
    Set<int> s{1,2,k}, t(std::vector<int>{k,8}), e; Set<long> sl(s); List<int> sle(s);
    os << s.contains(2) << s.subset(t) << s.disjoint(t) << s.disjoint(l) << join(s,t) << intersection(s,t) << intersection(s,l) << difference(s,t) << sl << sle;
    e.adjoin(s).remove(k).remove(t).restrict(s); e.remove(std::vector<int>{1}); os << e << Helper::apply([](int i) { return i%2; },s)
       << contains(s,3) << subset(s,t) << disjoint(s,t) << disjoint(s,l);
    { std::set<int> r{1,2,3}; Helper::remove(r,t); os << r; Helper::restrict(r,s); os << r; }
    Map<int,std::string> a{{1,"a"},{k,"b"}}, b; b.insert(3,"c"); b.insert(std::make_pair(4,std::string("d"))); b[5]="e"; insert(b,6,std::string("f")); b.adjoin(a);
    os << a << b << join(a,b) << b.get(3) << b.value(4) << b.has_key(5) << b.keys() << b.values() << restrict_keys(b,s);
    b.remove_keys(s); os << b;
    try { os << static_cast<Map<int,std::string> const&>(b)[99]; } catch(std::runtime_error const& x) { os << "caught"; }
    os << unique_elements(l) << duplicate_elements(l) << make_array(3) << make_array(std::vector<int>{1,2}) << make_array(Array<int>{5})
       << make_list(k) << make_list(Array<int>{5,6}) << make_list(s) << make_set(l) << SharedArray<int>{7,8} << std::make_pair(1,2) << std::make_tuple(1,'c',2.5);
    return os.str();
}
}
