#include <harness.h>
#include <GooseFEM/Mesh.h>
#include <GooseFEM/MeshQuad4.h>
using namespace gfvh;
using U2 = xt::xtensor<size_t, 2>;
namespace M = GooseFEM::Mesh;

static void body(Case& c)
{
    // an arbitrary mesh: a distorted regular mesh with renumbered nodes, or any nodes and elements
    D2 x;
    U2 conn;
    bool regular = c.coin();
    if (regular) {
        M::Quad4::Regular mesh(c.i(1, 4), c.i(1, 4), c.real(0.2, 2));
        D2 x0 = mesh.coor();
        U2 c0 = mesh.conn();
        size_t n = mesh.nnode(), extra = c.i(0, 2);
        std::vector<size_t> p(n + extra);
        std::iota(p.begin(), p.end(), 0);
        for (size_t i = p.size() - 1; i > 0; --i)
            std::swap(p[i], p[c.i(0, i)]);
        x = xt::zeros<double>({n + extra, size_t(2)});
        for (auto& v : x)
            v = c.real(-3, 3);
        conn = xt::zeros<size_t>({mesh.nelem(), size_t(4)});
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < 2; ++j)
                x(p[i], j) = x0(i, j) + c.real(-0.05, 0.05);
        for (size_t e = 0; e < mesh.nelem(); ++e)
            for (size_t m = 0; m < 4; ++m)
                conn(e, m) = p[c0(e, m)];
    }
    else {
        size_t nnode = c.i(1, 8), nelem = c.i(1, 6);
        x = xt::zeros<double>({nnode, size_t(2)});
        for (auto& v : x)
            v = c.real();
        conn = xt::zeros<size_t>({nelem, size_t(4)});
        for (auto& v : conn)
            v = c.i(0, nnode - 1);
    }
    c.inputa("coor", x), c.inputa("conn", conn);
    size_t nelem = conn.shape(0), nnode = x.shape(0);
    const auto Q4 = M::ElementType::Quad4;
    D2 x1 = x;
    U2 conn1 = conn;

    for (D2 r : {D2(M::centers(x, conn)), D2(M::centers(x, conn, Q4))}) {
        c.shape("centers", r, std::vector<size_t>{nelem, 2});
        for (size_t e = 0; e < nelem; ++e)
            for (size_t i = 0; i < 2; ++i)
                c.close("centre of element " + str(e) + ", component " + str(i), r(e, i), (x(conn(e, 0), i) + x(conn(e, 1), i) + x(conn(e, 2), i) + x(conn(e, 3), i)) / 4, 1e-12, 1);
    }
    for (D2 r : {D2(M::edgesize(x, conn)), D2(M::edgesize(x, conn, Q4))}) {
        c.shape("edgesize", r, std::vector<size_t>{nelem, 4});
        for (size_t e = 0; e < nelem; ++e)
            for (size_t m = 0; m < 4; ++m) {
                size_t a = conn(e, m), b = conn(e, (m + 1) % 4);
                c.close("edge " + str(m) + " of element " + str(e), r(e, m), std::hypot(x(b, 0) - x(a, 0), x(b, 1) - x(a, 1)), 1e-12, 1);
            }
    }
    D2 mass = xt::zeros<double>({nnode, size_t(2)});
    double total = 0;
    for (size_t e = 0; e < nelem; ++e)
        for (size_t m = 0; m < 4; ++m) {
            size_t a = conn(e, m), b = conn(e, (m + 1) % 4), d = conn(e, (m + 3) % 4);
            double v = 0.25 * ((x(b, 0) - x(a, 0)) * (x(d, 1) - x(a, 1)) - (x(b, 1) - x(a, 1)) * (x(d, 0) - x(a, 0)));
            mass(a, 0) += v;
            mass(a, 1) += v;
            total += 0.5 * (x(a, 0) * x(b, 1) - x(b, 0) * x(a, 1));
        }
    for (D2 r : {D2(M::nodal_mass(x, conn)), D2(M::nodal_mass(x, conn, Q4))}) {
        c.shape("nodal_mass", r, std::vector<size_t>{nnode, 2});
        double t[2] = {0, 0};
        for (size_t n = 0; n < nnode; ++n)
            for (size_t i = 0; i < 2; ++i) {
                c.close("mass of node " + str(n) + ", component " + str(i), r(n, i), mass(n, i), 1e-12, 1);
                t[i] += r(n, i);
            }
        for (size_t i = 0; i < 2; ++i)
            c.close("total mass, component " + str(i), t[i], total, 1e-11, 1);
    }
    if (std::abs(total) > 1e-2)
        for (D1 r : {D1(M::center_of_gravity(x, conn)), D1(M::center_of_gravity(x, conn, Q4))}) {
            c.eq("center_of_gravity: size", r.size(), size_t(2));
            for (size_t i = 0; i < 2; ++i) {
                double s = 0;
                for (size_t n = 0; n < nnode; ++n)
                    s += mass(n, i) * x(n, i);
                c.close("centre of gravity, component " + str(i), r(i), s / total, 1e-9, 1);
            }
        }
    c.same("positions are not changed", x, x1);
    c.same("connectivity is not changed", conn, conn1);

    size_t n = c.i(1, 4), m = c.i(0, 3);
    auto type = [&](size_t d, size_t k) {
        return M::defaultElementType(D2(xt::zeros<double>({n, d})), U2(xt::zeros<size_t>({m, k})));
    };
    c.expect("triangle", type(2, 3) == M::ElementType::Tri3);
    c.expect("quadrilateral", type(2, 4) == M::ElementType::Quad4);
    c.expect("hexahedron", type(3, 8) == M::ElementType::Hex8);
    for (size_t d = 1; d < 4; ++d)
        for (size_t k = 1; k < 10; ++k) {
            if ((d == 2 && (k == 3 || k == 4)) || (d == 3 && k == 8))
                continue;
            bool thrown = false;
            try {
                type(d, k);
            }
            catch (const std::runtime_error&) {
                thrown = true;
            }
            c.expect("no element type for " + str(d) + " dimensions and " + str(k) + " nodes", thrown);
        }
}

GFVH_MAIN(body, "distorted regular meshes with shuffled and unused nodes, and random positions with random connectivities; non-trivial: always")
