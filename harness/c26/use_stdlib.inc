namespace UNIT {
inline std::string use_stdlib(unsigned long long seed) {  // the standard facilities this header is there to supply
    std::vector<int> v{1,2}; std::list<int> l(v.begin(),v.end()); std::set<int> s(l.begin(),l.end()); std::map<int,std::string> m{{1,"a"}};
    std::shared_ptr<int> p=std::make_shared<int>(3); std::initializer_list<int> il{1}; std::ostringstream os; os << std::setw(5) << std::setprecision(3) << std::sqrt(double(seed%50u)) << m[1] << *p << std::distance(s.begin(),s.end())+std::abs(-2) << std::strlen("abc") << il.size();
    try { throw std::runtime_error("x"); } catch(std::exception const& e) { os << e.what(); } assert(l.size()==2u); std::cout << ""; static_assert(std::is_same<decltype(std::move(v)),std::vector<int>&&>::value);
    return os.str();
}
}
