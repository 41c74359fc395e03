// Instantiates the object pools and every operation of the pooled handles.
#include <atomic>
#include <memory>
#include <iosfwd>
#include <sstream>
#include <string>
#include <typeinfo>
#include <mutable/util/Pool.hpp>

namespace drv {

struct Base
{
    int x;
    virtual ~Base() {}
    bool operator==(const Base &o) const { return x == o.x; }
};
struct Derived : Base { };
struct H { std::size_t operator()(const Base &b) const { return b.x; } };

using PodU = m::PODPool<int>;
using PodS = m::PODPool<int, std::hash<int>, std::equal_to<int>, std::identity, true>;
using PolU = m::Pool<Base, H, std::equal_to<Base>>;
using PolS = m::Pool<Base, H, std::equal_to<Base>, true>;

template<typename A, typename B>    // A: always a value, B: possibly none
void handles(A a, B b)
{
    A c(a);
    A d(std::move(c));
    d = a;
    d = std::move(a);
    swap(a, d);
    B none;
    B e(b);
    B f(std::move(e));
    f = b;
    f = std::move(b);
    swap(f, b);
    B g(d);
    B h(std::move(a));
    A i(h);
    A j(std::move(g));
    (void) b.has_value();
    (void) b.assert_not_none();
    (void) b.count();
    (void) a.count();
    (void) (a == d);
    (void) (b == f);
    (void) (a == b);
    (void) (a != b);
    (void) *a;
    (void) *b;
}

}

void driver_pool(drv::PodU &pu, drv::PodS &ps, drv::PolU &u, drv::PolS &s)
{
    using namespace drv;
    handles(pu(1), PodU::proxy_optional_type(pu(2)));
    handles(ps(1), PodS::proxy_optional_type(ps(2)));
    handles(u(Derived{}), PolU::proxy_optional_type<Derived>(u(Derived{})));
    handles(s(Derived{}), PolS::proxy_optional_type<Derived>(s(Derived{})));
    m::Pooled<Base, PolU, false> b = u(Derived{}).as<Base>();
    b = u(Derived{});
    m::Pooled<Base, PolU, false> b2 = u(Derived{});
}
// the erase functions are private and currently have no caller
template bool drv::PodU::erase(const m::Pooled<int, drv::PodU, false>&);
template bool drv::PodS::erase(const m::Pooled<int, drv::PodS, false>&);
template bool drv::PolU::erase(const m::Pooled<drv::Base, drv::PolU, false>&);
template bool drv::PolS::erase(const m::Pooled<drv::Base, drv::PolS, false>&);
