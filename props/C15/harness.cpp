#include <harness.h>
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshTri3.h>
using namespace gfvh;

template <class M>
static void mesh(Case& c, char k, const M& m, std::vector<size_t> n, double h)
{
    size_t nd = n.size(), nnode = 1, ncell = 1, nne = k == 'q' ? 4 : (k == 't' ? 3 : 8);
    for (auto i : n) {
        nnode *= i + 1;
        ncell *= i;
    }
    size_t nelem = k == 't' ? 2 * ncell : ncell;
    c.eq("nelem", m.nelem(), nelem);
    c.eq("nnode", m.nnode(), nnode);
    c.eq("nne", m.nne(), nne);
    c.eq("ndim", m.ndim(), nd);
    c.eq("nelx", m.nelx(), n[0]);
    c.eq("nely", m.nely(), n[1]);
    c.eq("h", m.h(), h);
    auto type = k == 'q' ? GooseFEM::Mesh::ElementType::Quad4 : (k == 't' ? GooseFEM::Mesh::ElementType::Tri3 : GooseFEM::Mesh::ElementType::Hex8);
    c.expect("elementType", m.elementType() == type);
    D2 x = m.coor();
    U2 conn = m.conn(), dofs = m.dofs();
    c.shape("shape of the coordinates", x, std::vector<size_t>{nnode, nd});
    c.shape("shape of the connectivity", conn, std::vector<size_t>{nelem, nne});
    c.shape("shape of the DOFs", dofs, std::vector<size_t>{nnode, nd});
    std::vector<size_t> v(nd, 0);
    for (size_t p = 0; p < nnode; ++p) {
        size_t r = p;
        for (size_t i = 0; i < nd; ++i) {
            v[i] = r % (n[i] + 1);
            r /= n[i] + 1;
            c.close("position " + str(i) + " of node " + str(p), x(p, i), h * (double)v[i], 1e-12, h);
            c.eq("DOF " + str(i) + " of node " + str(p), dofs(p, i), p * nd + i);
        }
    }
    static const size_t quad[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}, tri[2][3][2] = {{{0, 0}, {1, 0}, {0, 1}}, {{1, 0}, {1, 1}, {0, 1}}};
    for (size_t p = 0; p < ncell; ++p) {
        size_t r = p;
        for (size_t i = 0; i < nd; ++i) {
            v[i] = r % n[i];
            r /= n[i];
        }
        auto node = [&](size_t a, size_t b, size_t d) {
            size_t q = (v[0] + a) + (v[1] + b) * (n[0] + 1);
            return nd == 3 ? q + (v[2] + d) * (n[0] + 1) * (n[1] + 1) : q;
        };
        if (k == 't') {
            for (size_t j = 0; j < 2; ++j)
                for (size_t q = 0; q < 3; ++q)
                    c.eq("node " + str(q) + " of element " + str(2 * p + j), conn(2 * p + j, q), node(tri[j][q][0], tri[j][q][1], 0));
        }
        else {
            for (size_t q = 0; q < nne; ++q)
                c.eq("node " + str(q) + " of element " + str(p), conn(p, q), node(quad[q % 4][0], quad[q % 4][1], q / 4));
        }
    }
}

static void body(Case& c)
{
    int k = (int)c.i(0, 2);
    bool big = c.coin(8);
    size_t mx = k == 2 ? (big ? 9 : 5) : (big ? 40 : 9);
    std::vector<size_t> n{c.coin(4) ? 1 : c.i(1, mx), c.coin(4) ? 1 : c.i(1, mx)};
    if (k == 2)
        n.push_back(c.coin(4) ? 1 : c.i(1, mx));
    bool def = c.coin(3);
    double h = def ? 1 : (c.coin() ? c.real(0.1, 3) : std::pow(10., c.real(-8, 8)));
    c.input("type", k);
    for (auto i : n)
        c.input("number of elements", i);
    c.input("h", h);
    using namespace GooseFEM::Mesh;
    if (k == 0) {
        Quad4::Regular m = def ? Quad4::Regular(n[0], n[1]) : Quad4::Regular(n[0], n[1], h);
        mesh(c, 'q', m, n, h);
        U2 g = m.elementgrid();
        c.shape("element grid", g, std::vector<size_t>{n[1], n[0]});
        for (size_t y = 0; y < n[1]; ++y)
            for (size_t x = 0; x < n[0]; ++x)
                c.eq("element of a cell", g(y, x), y * n[0] + x);
    }
    else if (k == 1) {
        mesh(c, 't', def ? Tri3::Regular(n[0], n[1]) : Tri3::Regular(n[0], n[1], h), n, h);
    }
    else {
        Hex8::Regular m = def ? Hex8::Regular(n[0], n[1], n[2]) : Hex8::Regular(n[0], n[1], n[2], h);
        mesh(c, 'h', m, n, h);
        c.eq("nelz", m.nelz(), n[2]);
    }
    size_t nn = c.i(0, 9), nd = c.i(1, 4);
    c.input("nnode", nn), c.input("ndim", nd);
    U2 d = GooseFEM::Mesh::dofs(nn, nd);
    c.shape("dofs", d, std::vector<size_t>{nn, nd});
    for (size_t i = 0; i < nn; ++i)
        for (size_t j = 0; j < nd; ++j)
            c.eq("DOFs numbered per node", d(i, j), i * nd + j);
}

GFVH_MAIN(body, "uniformly random numbers of elements (with an excess of one) and element sizes; quadrilaterals, triangles, hexahedra; non-trivial: always")
