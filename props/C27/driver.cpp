// Verification driver for C27: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/Mesh.h>
namespace gfv {
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using GooseFEM::Mesh::ElementType;
int element_type(const D2& x, const U2& c) { return static_cast<int>(GooseFEM::Mesh::defaultElementType(x, c)); }
D2 centers(const D2& x, const U2& c) { return GooseFEM::Mesh::centers(x, c); }
D2 centers_type(const D2& x, const U2& c) { return GooseFEM::Mesh::centers(x, c, ElementType::Quad4); }
D2 edgesize(const D2& x, const U2& c) { return GooseFEM::Mesh::edgesize(x, c); }
D2 edgesize_type(const D2& x, const U2& c) { return GooseFEM::Mesh::edgesize(x, c, ElementType::Quad4); }
D2 nodal_mass(const D2& x, const U2& c) { return GooseFEM::Mesh::nodal_mass(x, c); }
D2 nodal_mass_type(const D2& x, const U2& c) { return GooseFEM::Mesh::nodal_mass(x, c, ElementType::Quad4); }
D1 cog(const D2& x, const U2& c) { return GooseFEM::Mesh::center_of_gravity(x, c); }
D1 cog_type(const D2& x, const U2& c) { return GooseFEM::Mesh::center_of_gravity(x, c, ElementType::Quad4); }
D1 average(const D2& x, const D2& w) { return GooseFEM::Mesh::detail::average_axis_0(x, w); }
}
