namespace UNIT {
struct PureBase { virtual ~PureBase() { } virtual PureBase* clone() const = 0; virtual PureBase* _copy() const = 0; virtual PureBase* _move() = 0; virtual int get() const = 0; };
struct PureMore : PureBase { virtual int more() const { return 100; } };
struct PureThing : PureMore { int i; explicit PureThing(int j) : i(j) { }
    PureThing* clone() const override { return new PureThing(*this); } PureThing* _copy() const override { return new PureThing(*this); }
    PureThing* _move() override { return new PureThing(*this); } int get() const override { return i; } };
struct PureHandle : Helper::Handle<PureMore> { using Helper::Handle<PureMore>::Handle; PureHandle(Helper::Handle<PureMore> const& h) : Helper::Handle<PureMore>(h) { } };
struct PureOther : PureBase { };
inline unsigned long long pure_handle(unsigned long long seed) {
    PureThing t(int(seed%100u));
    Helper::Handle<PureBase> h(t), g(h), f(PureThing(3)), e(new PureThing(4));
    g=f; f.reference(); h.pointer();
    unsigned long long r=static_cast<unsigned>(h.const_reference().get()+g.ref().get()+e.const_pointer()->get()+f.raw_const_pointer()->get());
    r+=static_cast<unsigned>(Helper::dynamic_handle_extract<PureThing>(static_cast<Helper::Handle<PureBase> const&>(h)).i);
    r+=static_cast<unsigned>(Helper::dynamic_handle_cast<PureHandle>(static_cast<Helper::Handle<PureBase> const&>(h)).const_reference().more());
    return r+static_cast<unsigned>(Helper::make_handle<PureThing>(5).const_reference().get());
}
}
#include <iostream>
#include <sstream>
#include <string>
#include <typeinfo>
namespace UNIT {
inline std::string use_handle(unsigned long long seed) {
    std::ostringstream os, err; os << pure_handle(seed);
    std::streambuf* old=std::cerr.rdbuf(err.rdbuf());
    Helper::Handle<PureBase> const h(PureThing(3));
    try { Helper::dynamic_handle_extract<PureOther>(h); } catch(std::bad_cast const&) { os << "bad"; }
    std::cerr.rdbuf(old);
    os << (err.str().find("cannot convert")!=std::string::npos);
    std::shared_ptr<const PureBase> p=std::make_shared<const PureThing>(8); os << Helper::dynamic_pointer_extract<PureThing>(p)->i;
    return os.str();
}
}
