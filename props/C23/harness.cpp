#include <harness.h>
using namespace gfvh;
using Lists = std::vector<std::vector<size_t>>;

static void lists(Case& c, const std::string& at, Lists r, Lists e, bool sorted)
{
    c.eq(at + ": number of lists", r.size(), e.size());
    for (size_t i = 0; i < r.size(); ++i) {
        if (!sorted) {
            std::sort(r[i].begin(), r[i].end());
        }
        std::sort(e[i].begin(), e[i].end());
        c.eq(at + ": length of list " + str(i), r[i].size(), e[i].size());
        for (size_t j = 0; j < r[i].size(); ++j)
            c.eq(at + ": list " + str(i) + " entry " + str(j), r[i][j], e[i][j]);
    }
}

static Lists incidence(const U2& t)
{
    size_t n = 0;
    for (size_t v : t)
        n = std::max(n, v + 1);
    Lists r(n);
    for (size_t e = 0; e < t.shape(0); ++e)
        for (size_t m = 0; m < t.shape(1); ++m)
            r[t(e, m)].push_back(e);
    return r;
}

static void body(Case& c)
{
    namespace M = GooseFEM::Mesh;
    size_t nelem = c.i(1, 9), nne = c.i(1, 8), nnode = c.i(1, 14);
    U2 conn = U2::from_shape({nelem, nne});
    for (auto& v : conn)
        v = c.i(0, nnode - 1);
    c.inputa("conn", conn);
    Lists e = incidence(conn);
    U1 N = M::coordination(conn);
    c.eq("coordination: size", N.size(), e.size());
    for (size_t i = 0; i < N.size(); ++i)
        c.eq("coordination of node " + str(i), N(i), e[i].size());
    lists(c, "elem2node", M::elem2node(conn), e, true);
    lists(c, "elem2node, sorted", M::elem2node(conn, true), e, true);
    lists(c, "elem2node, not sorted", M::elem2node(conn, false), e, false);
    lists(c, "node2dof", M::node2dof(conn), e, true);
    lists(c, "node2dof, not sorted", M::node2dof(conn, false), e, false);

    // tied nodes: nodes of one group share their DOFs
    size_t ndim = c.i(1, 3), ngroup = c.i(1, nnode);
    U1 group = U1::from_shape({nnode});
    for (auto& g : group)
        g = c.coin() ? c.i(0, ngroup - 1) : 0;
    std::vector<size_t> num;
    for (size_t i = 0; i < ngroup * ndim; ++i)
        num.push_back(i);
    if (c.coin())
        for (size_t i = num.size(); i-- > 1;)
            std::swap(num[i], num[c.i(0, i)]);
    U2 dofs = U2::from_shape({nnode, ndim});
    for (size_t n = 0; n < nnode; ++n)
        for (size_t d = 0; d < ndim; ++d)
            dofs(n, d) = num[group(n) * ndim + d];
    c.inputa("dofs", dofs);
    Lists ties(nnode), shared(nnode);
    for (size_t n = 0; n < nnode; ++n)
        for (size_t m = 0; m < nnode; ++m)
            if (group(m) == group(n)) {
                ties[n].push_back(m);
                if (m < e.size())
                    shared[n].insert(shared[n].end(), e[m].begin(), e[m].end());
            }
    lists(c, "nodaltyings", M::nodaltyings(dofs), ties, true);
    lists(c, "elem2node of tied nodes", M::elem2node(conn, dofs), shared, true);
    lists(c, "elem2node of tied nodes, not sorted", M::elem2node(conn, dofs, false), shared, false);
    {
        Lists d2 = incidence(dofs);
        lists(c, "node2dof of the DOFs", M::node2dof(dofs), d2, true);
    }

    // periodic grid with some nodes that are not used, elements and nodes shifted
    size_t nx = c.i(1, 5), ny = c.i(1, 5), extra = c.i(0, 3), sx = c.i(0, nx - 1), sy = c.i(0, ny - 1);
    size_t total = nx * ny + extra;
    std::vector<size_t> perm;
    for (size_t i = 0; i < total; ++i)
        perm.push_back(i);
    for (size_t i = total; i-- > 1;)
        std::swap(perm[i], perm[c.i(0, i)]);
    auto node = [&](size_t x, size_t y) { return perm[(x % nx) + nx * (y % ny)]; };
    U2 q = U2::from_shape({nx * ny, size_t(4)});
    U1 emap = U1::from_shape({nx * ny});
    for (size_t y = 0; y < ny; ++y)
        for (size_t x = 0; x < nx; ++x) {
            size_t i = x + nx * y;
            q(i, 0) = node(x, y);
            q(i, 1) = node(x + 1, y);
            q(i, 2) = node(x + 1, y + 1);
            q(i, 3) = node(x, y + 1);
            emap(i) = ((x + sx) % nx) + nx * ((y + sy) % ny);
        }
    D2 coor = D2::from_shape({total, size_t(2)});
    c.randomise(coor);
    c.inputa("elem_map", emap);
    c.inputa("conn of the grid", q);
    for (int k = 0; k < 2; ++k) {
        U1 r = k ? M::elemmap2nodemap(emap, coor, q) : M::elemmap2nodemap(emap, coor, q, M::ElementType::Quad4);
        c.eq("elemmap2nodemap: size", r.size(), total);
        for (size_t y = 0; y < ny; ++y)
            for (size_t x = 0; x < nx; ++x)
                c.eq("elemmap2nodemap: node " + str(node(x, y)), r(node(x, y)), node(x + sx, y + sy));
        for (size_t i = nx * ny; i < total; ++i)
            c.eq("elemmap2nodemap: unused node " + str(perm[i]), r(perm[i]), total);
    }
}

GFVH_MAIN(body, "random tables of up to 9 x 8 references to 14 nodes, random groups of tied nodes, shifted periodic grids of up to 5 x 5 elements with unused nodes")
