#include <harness.h>
#include <GooseFEM/MeshTri3.h>
using namespace gfvh;
using I1 = xt::xtensor<int, 1>;

static void body(Case& c)
{
    size_t nnode = c.i(3, 9), nelem = c.i(0, 8);
    D2 x = xt::zeros<double>({nnode, size_t(2)});
    bool whole = c.coin();
    for (auto& v : x)
        v = whole ? c.whole(4) : c.real();
    U2 conn = xt::zeros<size_t>({nelem, size_t(3)});
    for (auto& v : conn)
        v = c.i(0, nnode - 1);
    c.inputa("coor", x), c.inputa("conn", conn);
    D2 x0 = x;
    U2 conn0 = conn;
    auto turn = [&](const U2& n, size_t e) {
        auto p = [&](size_t m, size_t i) { return x(n(e, m), i); };
        return (p(0, 0) - p(1, 0)) * (p(2, 1) - p(1, 1)) - (p(2, 0) - p(1, 0)) * (p(0, 1) - p(1, 1));
    };
    I1 val = GooseFEM::Mesh::Tri3::getOrientation(x, conn);
    c.eq("number of orientations", val.size(), nelem);
    std::vector<int> e(nelem);
    for (size_t i = 0; i < nelem; ++i) {
        double k = turn(conn, i);
        if (!whole && std::abs(k) < 1e-12) {
            e[i] = val(i);
            c.expect("orientation is a sign", val(i) == 1 || val(i) == -1);
        }
        else {
            e[i] = k < 0 ? -1 : 1;
            c.eq("orientation of element " + str(i), val(i), e[i]);
        }
    }
    auto corrected = [&](const std::string& what, const U2& r, const std::vector<int>& v, int o, bool geometric) {
        c.shape(what, r, std::vector<size_t>{nelem, 3});
        for (size_t i = 0; i < nelem; ++i) {
            bool keep = v[i] == o;
            size_t n[3] = {conn(i, 0), conn(i, keep ? 1 : 2), conn(i, keep ? 2 : 1)};
            for (size_t m = 0; m < 3; ++m)
                c.eq(what + ": element " + str(i) + ", node " + str(m), r(i, m), n[m]);
            if (geometric && std::abs(turn(conn, i)) > 1e-12)
                c.expect(what + ": sign of the area of element " + str(i), turn(r, i) * o > 0);
        }
    };
    using GooseFEM::Mesh::Tri3::setOrientation;
    corrected("setOrientation(default)", setOrientation(x, conn), e, -1, true);
    I1 given = val;
    std::vector<int> g(nelem);
    for (size_t i = 0; i < nelem; ++i)
        given(i) = g[i] = c.coin() ? 1 : -1;
    c.inputa("val", given);
    corrected("setOrientation(val, default)", setOrientation(x, conn, given), g, -1, false);
    for (int o : {-1, 1}) {
        corrected("setOrientation(" + str(o) + ")", setOrientation(x, conn, o), e, o, true);
        corrected("setOrientation(val, " + str(o) + ")", setOrientation(x, conn, given, o), g, o, false);
    }
    c.same("positions are not changed", x, x0);
    c.same("connectivity is not changed", conn, conn0);
    size_t nx = c.i(1, 5), ny = c.i(1, 5);
    c.input("nelx", nx), c.input("nely", ny);
    GooseFEM::Mesh::Tri3::Regular mesh(nx, ny, c.real(0.1, 3));
    I1 r = GooseFEM::Mesh::Tri3::getOrientation(mesh.coor(), mesh.conn());
    for (auto v : r)
        c.eq("regular mesh", v, -1);
}

GFVH_MAIN(body, "random positions (integer or real) and connectivities, also with repeated nodes; non-trivial: always")
