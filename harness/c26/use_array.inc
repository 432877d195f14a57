namespace UNIT {
inline unsigned long long pure_array(unsigned long long seed) {  // nothing but the header has been included
    Helper::Array<int> a(seed%5u+2u,7), b{1,2,3}, c(b), d(4u), e(4u,Helper::Uninitialised()), f(3u,[](unsigned long i) { return int(i*i); });
    Helper::Array<long> l(b); Helper::Array<char> n(b); Helper::Array<double> q(b.begin(),b.end());
    a.resize(seed%7u); a.resize(9u,4); c.reallocate(5u); c=b; c=Helper::Array<int>(2u,1); c.swap(d); a.fill(int(seed%3u)); b.fill(f.begin()); c.assign(f.begin(),f.end());
    for(int& x : e) { x=1; }
    unsigned long long r=0;
    try { r+=static_cast<unsigned>(a.at(99u)); } catch(...) { r+=1000; }
    Helper::Array<unsigned long> v(2u); v[0]=1u; v[1]=seed%5u+2u;
    for(auto x : Helper::complement(8u,v)) { r=r*9+x; }
    Helper::SharedArray<int> s(3u,5), t(s), u(Helper::SharedArray<int>(2u)); t[1]=int(seed%11u); u=t;
    for(int x : u) { r=r*31+static_cast<unsigned>(x); }
    for(auto const& w : {a,b,c}) { for(int x : w) { r=r*31+static_cast<unsigned>(x); } r+=w.size()+(w==b)+2*(w!=b); }
    r+=a.empty()+a.max_size()%7+static_cast<unsigned>(a.front()+a.back()+c.at(0)+e[0])+s.size()+static_cast<unsigned long>(l[0])+static_cast<unsigned long>(n[1])+static_cast<unsigned long>(q[2]);
    return r;
}
}
#include <string>
namespace UNIT {
inline std::string use_array(unsigned long long seed) { return std::to_string(pure_array(seed)); }
}
