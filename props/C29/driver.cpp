// Verification driver for C29: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using U3 = xt::xtensor<size_t, 3>;
using D3 = xt::xtensor<double, 3>;
bool unique1(const U1& a) { return GooseFEM::is_unique(a); }
bool unique2(const U2& a) { return GooseFEM::is_unique(a); }
bool sequential1(const U1& a) { return GooseFEM::Element::isSequential(a); }
bool sequential2(const U2& a) { return GooseFEM::Element::isSequential(a); }
bool sequential3(const U3& a) { return GooseFEM::Element::isSequential(a); }
bool diagonal(const D3& a) { return GooseFEM::Element::isDiagonal(a); }
}
