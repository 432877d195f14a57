namespace UNIT {
struct PureWritable : Helper::WritableInterface { int i; explicit PureWritable(int j) : i(j) { } std::ostream& _write(std::ostream& os) const override; };
struct LooseWritable { int i; std::ostream& _write(std::ostream& os) const; };
static_assert(Helper::IsWritable<LooseWritable>::value and not Helper::IsWritable<int>::value);
inline std::ostream& pure_writable(std::ostream& os, unsigned long long seed) { PureWritable w(static_cast<int>(seed%10u)); os << w; Helper::operator<<(os,LooseWritable{3}); return w.write(os); }
}
#include <sstream>
#include <string>
namespace UNIT {
inline std::ostream& PureWritable::_write(std::ostream& os) const { return os << "P" << i; }
inline std::ostream& LooseWritable::_write(std::ostream& os) const { return os << "L" << i; }
struct PureWriter : Helper::WriterInterface<int> { std::ostream& _write(std::ostream& os, int const& i) const override { return os << '<' << i << '>'; } };
inline std::string use_writable(unsigned long long seed) {
    std::ostringstream os; pure_writable(os,seed); PureWriter const w; Helper::WriterInterface<int> const& wi=w; int i=static_cast<int>(seed%7u); os << wi(i); return os.str();
}
}
