// Verification driver for C18: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using I1 = xt::xtensor<int, 1>;
using U2 = xt::xtensor<size_t, 2>;
using D2 = xt::xtensor<double, 2>;
using GooseFEM::Mesh::Quad4::FineLayer;

FineLayer make(size_t nelx, size_t nely, double h, size_t nfine) { return FineLayer(nelx, nely, h, nfine); }
FineLayer state() { return FineLayer(); }
FineLayer rebuild(const D2& coor, const U2& conn) { return FineLayer(coor, conn); }
size_t nelem(const FineLayer& m) { return m.nelem(); }
size_t nnode(const FineLayer& m) { return m.nnode(); }
size_t nelx(const FineLayer& m) { return m.nelx(); }
size_t nely(const FineLayer& m) { return m.nely(); }
double h(const FineLayer& m) { return m.h(); }
size_t nne(const FineLayer& m) { return m.nne(); }
size_t ndim(const FineLayer& m) { return m.ndim(); }
U1 nhx(const FineLayer& m) { return m.elemrow_nhx(); }
U1 nhy(const FineLayer& m) { return m.elemrow_nhy(); }
I1 type(const FineLayer& m) { return m.elemrow_type(); }
U1 rows(const FineLayer& m) { return m.elemrow_nelem(); }
D2 coor(const FineLayer& m) { return m.coor(); }
U2 conn(const FineLayer& m) { return m.conn(); }
U1 middle(const FineLayer& m) { return m.elementsMiddleLayer(); }
U1 layer(const FineLayer& m, size_t l) { return m.elementsLayer(l); }
U1 roll(FineLayer& m, size_t n) { return m.roll(n); }
U1 ravel(const FineLayer& m, size_t r0, size_t r1, size_t c0, size_t c1) { return m.elementgrid_ravel({r0, r1}, {c0, c1}); }
U1 around(FineLayer& m, size_t e, size_t n) { return m.elementgrid_around_ravel(e, n); }
U1 leftright(FineLayer& m, size_t e, size_t l, size_t r) { return m.elementgrid_leftright(e, l, r); }
#define SET(x) U1 x(const FineLayer& m) { return m.nodes##x(); }
SET(BottomEdge) SET(TopEdge) SET(LeftEdge) SET(RightEdge)
SET(BottomOpenEdge) SET(TopOpenEdge) SET(LeftOpenEdge) SET(RightOpenEdge)
#define CORNER(x) size_t x(const FineLayer& m) { return m.nodes##x(); }
CORNER(BottomLeftCorner) CORNER(BottomRightCorner) CORNER(TopLeftCorner) CORNER(TopRightCorner) CORNER(Origin)
}
