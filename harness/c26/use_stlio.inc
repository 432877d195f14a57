#include <sstream>
#include <string>
namespace UNIT {
struct Term { int i; double c; int index() const { return i; } double coefficient() const { return c; } };
inline std::string use_stlio(unsigned long long seed) {
    std::ostringstream os; int k=static_cast<int>(seed%10u); std::vector<int> v{1,k,3}; std::vector<int*> p{&v[0],&v[1]}; std::map<int,int> m{{1,k},{2,3}}; std::map<int,int*> q{{1,&v[1]}}; std::vector<Term> t{{1,2.5},{2,0.5}};
    Helper::write_sequence(os,v.begin(),v.end()); Helper::write_sequence(os,v.begin(),v.end(),'<','>',';'); Helper::write_pointer_sequence(os,p.begin(),p.end());
    Helper::write_map_sequence(os,m.begin(),m.end()); Helper::write_map_pointer_sequence(os,q.begin(),q.end()); Helper::write_coefficient_map_sequence(os,t.begin(),t.end());
    Helper::write_tuple(os,std::make_tuple(1,'c'),std::integral_constant<std::size_t,2>()); os << std::make_pair(k,'x') << std::make_tuple(1,2.5,k) << std::tuple<>();
    std::istringstream is("[1, 2,3] (4;5) [7"); std::vector<int> w; is >> w; os << w.size(); std::list<int> l; Helper::read_sequence(is,l,'(',')',';'); os << l.size();
    try { is >> w; } catch(std::ios_base::failure const&) { os << "failure"; }
    return os.str();
}
}
