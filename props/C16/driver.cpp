// Verification driver for C16: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshTri3.h>
#include "sets.inc"
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using Quad = GooseFEM::Mesh::Quad4::Regular;
using Tri = GooseFEM::Mesh::Tri3::Regular;
using Hex = GooseFEM::Mesh::Hex8::Regular;

Quad q_make(size_t nx, size_t ny, double h) { return Quad(nx, ny, h); }
Tri t_make(size_t nx, size_t ny, double h) { return Tri(nx, ny, h); }
Hex h_make(size_t nx, size_t ny, size_t nz, double h) { return Hex(nx, ny, nz, h); }

#define X(n) U1 q_##n(const Quad& m) { return m.nodes##n(); }
SETS2(X)
#undef X
#define X(n) size_t q_##n(const Quad& m) { return m.nodes##n(); }
CORNERS2(X)
#undef X
#define X(n) U1 t_##n(const Tri& m) { return m.nodes##n(); }
SETS2(X)
#undef X
#define X(n) size_t t_##n(const Tri& m) { return m.nodes##n(); }
CORNERS2(X)
#undef X
#define X(n) U1 h_##n(const Hex& m) { return m.nodes##n(); }
SETS3(X)
#undef X
#define X(n) size_t h_##n(const Hex& m) { return m.nodes##n(); }
CORNERS3(X)
#undef X
size_t q_Origin(const Quad& m) { return m.nodesOrigin(); }
size_t t_Origin(const Tri& m) { return m.nodesOrigin(); }
size_t h_Origin(const Hex& m) { return m.nodesOrigin(); }
}
