// Verification driver for C20: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using GooseFEM::Mesh::Quad4::Regular;
using GooseFEM::Mesh::Quad4::Map::RefineRegular;

Regular regular(size_t nelx, size_t nely, double h) { return Regular(nelx, nely, h); }
RefineRegular refine(const Regular& m, size_t nx, size_t ny) { return RefineRegular(m, nx, ny); }
size_t nx(const RefineRegular& m) { return m.nx(); }
size_t ny(const RefineRegular& m) { return m.ny(); }
size_t coarse_nelx(const RefineRegular& m) { return m.coarseMesh().nelx(); }
size_t coarse_nely(const RefineRegular& m) { return m.coarseMesh().nely(); }
double coarse_h(const RefineRegular& m) { return m.coarseMesh().h(); }
size_t fine_nelx(const RefineRegular& m) { return m.fineMesh().nelx(); }
size_t fine_nely(const RefineRegular& m) { return m.fineMesh().nely(); }
size_t fine_nelem(const RefineRegular& m) { return m.fineMesh().nelem(); }
U2 fine_grid(const RefineRegular& m) { return m.fineMesh().elementgrid(); }
U2 map(const RefineRegular& m) { return m.map(); }
U2 getMap(const RefineRegular& m) { return m.getMap(); }
D1 mean1(const RefineRegular& m, const D1& d) { return m.meanToCoarse(d); }
D2 mean2(const RefineRegular& m, const D2& d) { return m.meanToCoarse(d); }
D3 mean3(const RefineRegular& m, const D3& d) { return m.meanToCoarse(d); }
D1 average1(const RefineRegular& m, const D1& d, const D1& w) { return m.averageToCoarse(d, w); }
D2 average2(const RefineRegular& m, const D2& d, const D2& w) { return m.averageToCoarse(d, w); }
D3 average3(const RefineRegular& m, const D3& d, const D3& w) { return m.averageToCoarse(d, w); }
D1 fine1(const RefineRegular& m, const D1& d) { return m.mapToFine(d); }
D2 fine2(const RefineRegular& m, const D2& d) { return m.mapToFine(d); }
D3 fine3(const RefineRegular& m, const D3& d) { return m.mapToFine(d); }
}
