// Verification driver for C19: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using I1 = xt::xtensor<int, 1>;
using U2 = xt::xtensor<size_t, 2>;
using D2 = xt::xtensor<double, 2>;
using GooseFEM::Mesh::Hex8::FineLayer;

FineLayer make(size_t nelx, size_t nely, size_t nelz, double h, size_t nfine) { return FineLayer(nelx, nely, nelz, h, nfine); }
size_t nelem(const FineLayer& m) { return m.nelem(); }
size_t nnode(const FineLayer& m) { return m.nnode(); }
size_t nelx(const FineLayer& m) { return m.nelx(); }
size_t nely(const FineLayer& m) { return m.nely(); }
size_t nelz(const FineLayer& m) { return m.nelz(); }
size_t nne(const FineLayer& m) { return m.nne(); }
size_t ndim(const FineLayer& m) { return m.ndim(); }
D2 coor(const FineLayer& m) { return m.coor(); }
U2 conn(const FineLayer& m) { return m.conn(); }
U1 middle(const FineLayer& m) { return m.elementsMiddleLayer(); }
size_t Origin(const FineLayer& m) { return m.nodesOrigin(); }
U1 Front(const FineLayer& m) { return m.nodesFront(); }
U1 Back(const FineLayer& m) { return m.nodesBack(); }
U1 Left(const FineLayer& m) { return m.nodesLeft(); }
U1 Right(const FineLayer& m) { return m.nodesRight(); }
U1 Bottom(const FineLayer& m) { return m.nodesBottom(); }
U1 Top(const FineLayer& m) { return m.nodesTop(); }
U1 FrontFace(const FineLayer& m) { return m.nodesFrontFace(); }
U1 BackFace(const FineLayer& m) { return m.nodesBackFace(); }
U1 LeftFace(const FineLayer& m) { return m.nodesLeftFace(); }
U1 RightFace(const FineLayer& m) { return m.nodesRightFace(); }
U1 BottomFace(const FineLayer& m) { return m.nodesBottomFace(); }
U1 TopFace(const FineLayer& m) { return m.nodesTopFace(); }
U1 FrontLeftEdge(const FineLayer& m) { return m.nodesFrontLeftEdge(); }
U1 FrontLeftOpenEdge(const FineLayer& m) { return m.nodesFrontLeftOpenEdge(); }
U1 FrontRightEdge(const FineLayer& m) { return m.nodesFrontRightEdge(); }
U1 FrontRightOpenEdge(const FineLayer& m) { return m.nodesFrontRightOpenEdge(); }
U1 FrontBottomEdge(const FineLayer& m) { return m.nodesFrontBottomEdge(); }
U1 FrontBottomOpenEdge(const FineLayer& m) { return m.nodesFrontBottomOpenEdge(); }
U1 FrontTopEdge(const FineLayer& m) { return m.nodesFrontTopEdge(); }
U1 FrontTopOpenEdge(const FineLayer& m) { return m.nodesFrontTopOpenEdge(); }
U1 BackLeftEdge(const FineLayer& m) { return m.nodesBackLeftEdge(); }
U1 BackLeftOpenEdge(const FineLayer& m) { return m.nodesBackLeftOpenEdge(); }
U1 BackRightEdge(const FineLayer& m) { return m.nodesBackRightEdge(); }
U1 BackRightOpenEdge(const FineLayer& m) { return m.nodesBackRightOpenEdge(); }
U1 BackBottomEdge(const FineLayer& m) { return m.nodesBackBottomEdge(); }
U1 BackBottomOpenEdge(const FineLayer& m) { return m.nodesBackBottomOpenEdge(); }
U1 BackTopEdge(const FineLayer& m) { return m.nodesBackTopEdge(); }
U1 BackTopOpenEdge(const FineLayer& m) { return m.nodesBackTopOpenEdge(); }
U1 LeftFrontEdge(const FineLayer& m) { return m.nodesLeftFrontEdge(); }
U1 LeftFrontOpenEdge(const FineLayer& m) { return m.nodesLeftFrontOpenEdge(); }
U1 LeftBackEdge(const FineLayer& m) { return m.nodesLeftBackEdge(); }
U1 LeftBackOpenEdge(const FineLayer& m) { return m.nodesLeftBackOpenEdge(); }
U1 LeftBottomEdge(const FineLayer& m) { return m.nodesLeftBottomEdge(); }
U1 LeftBottomOpenEdge(const FineLayer& m) { return m.nodesLeftBottomOpenEdge(); }
U1 LeftTopEdge(const FineLayer& m) { return m.nodesLeftTopEdge(); }
U1 LeftTopOpenEdge(const FineLayer& m) { return m.nodesLeftTopOpenEdge(); }
U1 RightFrontEdge(const FineLayer& m) { return m.nodesRightFrontEdge(); }
U1 RightFrontOpenEdge(const FineLayer& m) { return m.nodesRightFrontOpenEdge(); }
U1 RightBackEdge(const FineLayer& m) { return m.nodesRightBackEdge(); }
U1 RightBackOpenEdge(const FineLayer& m) { return m.nodesRightBackOpenEdge(); }
U1 RightBottomEdge(const FineLayer& m) { return m.nodesRightBottomEdge(); }
U1 RightBottomOpenEdge(const FineLayer& m) { return m.nodesRightBottomOpenEdge(); }
U1 RightTopEdge(const FineLayer& m) { return m.nodesRightTopEdge(); }
U1 RightTopOpenEdge(const FineLayer& m) { return m.nodesRightTopOpenEdge(); }
U1 BottomFrontEdge(const FineLayer& m) { return m.nodesBottomFrontEdge(); }
U1 BottomFrontOpenEdge(const FineLayer& m) { return m.nodesBottomFrontOpenEdge(); }
U1 BottomBackEdge(const FineLayer& m) { return m.nodesBottomBackEdge(); }
U1 BottomBackOpenEdge(const FineLayer& m) { return m.nodesBottomBackOpenEdge(); }
U1 BottomLeftEdge(const FineLayer& m) { return m.nodesBottomLeftEdge(); }
U1 BottomLeftOpenEdge(const FineLayer& m) { return m.nodesBottomLeftOpenEdge(); }
U1 BottomRightEdge(const FineLayer& m) { return m.nodesBottomRightEdge(); }
U1 BottomRightOpenEdge(const FineLayer& m) { return m.nodesBottomRightOpenEdge(); }
U1 TopFrontEdge(const FineLayer& m) { return m.nodesTopFrontEdge(); }
U1 TopFrontOpenEdge(const FineLayer& m) { return m.nodesTopFrontOpenEdge(); }
U1 TopBackEdge(const FineLayer& m) { return m.nodesTopBackEdge(); }
U1 TopBackOpenEdge(const FineLayer& m) { return m.nodesTopBackOpenEdge(); }
U1 TopLeftEdge(const FineLayer& m) { return m.nodesTopLeftEdge(); }
U1 TopLeftOpenEdge(const FineLayer& m) { return m.nodesTopLeftOpenEdge(); }
U1 TopRightEdge(const FineLayer& m) { return m.nodesTopRightEdge(); }
U1 TopRightOpenEdge(const FineLayer& m) { return m.nodesTopRightOpenEdge(); }
size_t FrontLeftBottomCorner(const FineLayer& m) { return m.nodesFrontLeftBottomCorner(); }
size_t FrontLeftTopCorner(const FineLayer& m) { return m.nodesFrontLeftTopCorner(); }
size_t FrontRightBottomCorner(const FineLayer& m) { return m.nodesFrontRightBottomCorner(); }
size_t FrontRightTopCorner(const FineLayer& m) { return m.nodesFrontRightTopCorner(); }
size_t FrontBottomLeftCorner(const FineLayer& m) { return m.nodesFrontBottomLeftCorner(); }
size_t FrontBottomRightCorner(const FineLayer& m) { return m.nodesFrontBottomRightCorner(); }
size_t FrontTopLeftCorner(const FineLayer& m) { return m.nodesFrontTopLeftCorner(); }
size_t FrontTopRightCorner(const FineLayer& m) { return m.nodesFrontTopRightCorner(); }
size_t BackLeftBottomCorner(const FineLayer& m) { return m.nodesBackLeftBottomCorner(); }
size_t BackLeftTopCorner(const FineLayer& m) { return m.nodesBackLeftTopCorner(); }
size_t BackRightBottomCorner(const FineLayer& m) { return m.nodesBackRightBottomCorner(); }
size_t BackRightTopCorner(const FineLayer& m) { return m.nodesBackRightTopCorner(); }
size_t BackBottomLeftCorner(const FineLayer& m) { return m.nodesBackBottomLeftCorner(); }
size_t BackBottomRightCorner(const FineLayer& m) { return m.nodesBackBottomRightCorner(); }
size_t BackTopLeftCorner(const FineLayer& m) { return m.nodesBackTopLeftCorner(); }
size_t BackTopRightCorner(const FineLayer& m) { return m.nodesBackTopRightCorner(); }
size_t LeftFrontBottomCorner(const FineLayer& m) { return m.nodesLeftFrontBottomCorner(); }
size_t LeftFrontTopCorner(const FineLayer& m) { return m.nodesLeftFrontTopCorner(); }
size_t LeftBackBottomCorner(const FineLayer& m) { return m.nodesLeftBackBottomCorner(); }
size_t LeftBackTopCorner(const FineLayer& m) { return m.nodesLeftBackTopCorner(); }
size_t LeftBottomFrontCorner(const FineLayer& m) { return m.nodesLeftBottomFrontCorner(); }
size_t LeftBottomBackCorner(const FineLayer& m) { return m.nodesLeftBottomBackCorner(); }
size_t LeftTopFrontCorner(const FineLayer& m) { return m.nodesLeftTopFrontCorner(); }
size_t LeftTopBackCorner(const FineLayer& m) { return m.nodesLeftTopBackCorner(); }
size_t RightFrontBottomCorner(const FineLayer& m) { return m.nodesRightFrontBottomCorner(); }
size_t RightFrontTopCorner(const FineLayer& m) { return m.nodesRightFrontTopCorner(); }
size_t RightBackBottomCorner(const FineLayer& m) { return m.nodesRightBackBottomCorner(); }
size_t RightBackTopCorner(const FineLayer& m) { return m.nodesRightBackTopCorner(); }
size_t RightBottomFrontCorner(const FineLayer& m) { return m.nodesRightBottomFrontCorner(); }
size_t RightBottomBackCorner(const FineLayer& m) { return m.nodesRightBottomBackCorner(); }
size_t RightTopFrontCorner(const FineLayer& m) { return m.nodesRightTopFrontCorner(); }
size_t RightTopBackCorner(const FineLayer& m) { return m.nodesRightTopBackCorner(); }
size_t BottomFrontLeftCorner(const FineLayer& m) { return m.nodesBottomFrontLeftCorner(); }
size_t BottomFrontRightCorner(const FineLayer& m) { return m.nodesBottomFrontRightCorner(); }
size_t BottomBackLeftCorner(const FineLayer& m) { return m.nodesBottomBackLeftCorner(); }
size_t BottomBackRightCorner(const FineLayer& m) { return m.nodesBottomBackRightCorner(); }
size_t BottomLeftFrontCorner(const FineLayer& m) { return m.nodesBottomLeftFrontCorner(); }
size_t BottomLeftBackCorner(const FineLayer& m) { return m.nodesBottomLeftBackCorner(); }
size_t BottomRightFrontCorner(const FineLayer& m) { return m.nodesBottomRightFrontCorner(); }
size_t BottomRightBackCorner(const FineLayer& m) { return m.nodesBottomRightBackCorner(); }
size_t TopFrontLeftCorner(const FineLayer& m) { return m.nodesTopFrontLeftCorner(); }
size_t TopFrontRightCorner(const FineLayer& m) { return m.nodesTopFrontRightCorner(); }
size_t TopBackLeftCorner(const FineLayer& m) { return m.nodesTopBackLeftCorner(); }
size_t TopBackRightCorner(const FineLayer& m) { return m.nodesTopBackRightCorner(); }
size_t TopLeftFrontCorner(const FineLayer& m) { return m.nodesTopLeftFrontCorner(); }
size_t TopLeftBackCorner(const FineLayer& m) { return m.nodesTopLeftBackCorner(); }
size_t TopRightFrontCorner(const FineLayer& m) { return m.nodesTopRightFrontCorner(); }
size_t TopRightBackCorner(const FineLayer& m) { return m.nodesTopRightBackCorner(); }
}
