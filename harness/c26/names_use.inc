#include <string>
#include "c26/registry.hpp"
namespace own_names {
enum class Level { ASSERT, THROW, FAIL, CHECK, DEBUG, ERROR, WARN, WARN_ONCE, WARNING, NOTIFY, NOTIFICATION, DEPRECATED, PRECONDITION, REQUIRE, ENSURE, EXPECT, TEST, SKIP, PRINT, TRACE, INFO, INLINE, CONST, UNUSED, ABS, MIN, MAX, TRUE, FALSE, STRING, CONCAT, COUNT };
struct Log { int check(int i) { return i; } int fail(int i) { return i; } int warn(int i) { return i; } int error(int i) { return i; } int notify(int i) { return i; } int require(int i) { return i; } int expect(int i) { return i; } int verify(int i) { return i; } int ensure(int i) { return i; } int test(int i) { return i; } int print(int i) { return i; } int trace(int i) { return i; } int debug(int i) { return i; } int foreach(int i) { return i; } int min(int i) { return i; } int max(int i) { return i; } int abs(int i) { return i; } int not_implemented(int i) { return i; } int deprecated(int i) { return i; } int precondition(int i) { return i; } int throw_if(int i) { return i; } int write(int i) { return i; } int read(int i) { return i; } int unused(int i) { return i; } int stringify(int i) { return i; } int concat(int i, int j) { return i+j; } };
std::string use(unsigned long long) {
    Array a{1}; List l{2}; Set s{3}; Map m{4}; Range r{5}; Handle h{6}; Writer w{7}; Lazy z{8}; String t{9}; Tuple u{10}; Pair p{11}; Variant v{12}; True b{13}; Same e{14}; ostream o{15}; shared_ptr q{16};
    vector v1{17}; list l1{18}; map m1{19}; set s1{20}; string t1{21}; tuple u1{22}; pair p1{23}; function f1{24}; array a1{25}; Seconds x{26}; Stopwatch y{27}; BinaryWord k{28}; LRUCache c{29}; Uninitialised n{30};
    int sum=a.i+l.i+s.i+m.i+r.i+h.i+w.i+z.i+t.i+u.i+p.i+v.i+b.i+e.i+o.i+q.i+v1.i+l1.i+m1.i+s1.i+t1.i+u1.i+p1.i+f1.i+a1.i+x.i+y.i+k.i+c.i+n.i;
    sum=sum*100+apply(a)+join(l,l)+restrict_keys(m)+range(3)+to_string(t)+remove_all(s)+contains(s,3)+make_list(4)+complement(a)+swap(5)+move_on(6)+first+second+third;
    Log g; int expression=1, error=2, message=3, result=4, msg=5, func=6, except=7, msgs=8; sum+=g.check(expression)+g.fail(error)+g.warn(message)+g.error(result)+g.notify(msg)+g.require(func)+g.expect(except)+g.verify(msgs)+g.ensure(1)+g.test(2)+g.print(3)+g.trace(4)+g.debug(5)+g.foreach(6)+g.min(7)+g.max(8)+g.abs(9)+g.not_implemented(1)+g.deprecated(2)+g.precondition(3)+g.throw_if(4)+g.write(5)+g.read(6)+g.unused(7)+g.stringify(8)+g.concat(1,2)+static_cast<int>(Level::COUNT)+static_cast<int>(Level::ERROR);
    return std::to_string(sum);
}
static Use const registered("own names","own_names",&use);
}
