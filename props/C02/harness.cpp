#include <harness.h>
using namespace gfvh;
using GooseFEM::Vector;

static void body(Case& c)
{
    Topo t = topology(c);
    c.nontrivial = t.nelem > 1 || t.nnode > 2;
    Vector v(t.conn, t.dofs);
    D2 z = xt::zeros<double>({t.nnode, t.ndim});
    D3 x = xt::zeros<double>({t.nelem, t.nne, t.ndim});
    c.randomise(x, 1000);
    c.randomise(z, 1000);
    c.inputa("nodevec", z);
    c.inputa("elemvec", x);
    D1 a = xt::zeros<double>({t.ndof}), b = a, od = a;
    D2 n = xt::zeros<double>({t.nnode, t.ndim}), on = n;
    size_t nn = 0;
    for (size_t m = 0; m < t.nnode; ++m)
        for (size_t i = 0; i < t.ndim; ++i)
            a(t.dofs(m, i)) += z(m, i);
    for (size_t e = 0; e < t.nelem; ++e)
        for (size_t m = 0; m < t.nne; ++m) {
            nn = std::max(nn, t.conn(e, m) + 1);
            for (size_t i = 0; i < t.ndim; ++i)
                b(t.dofs(t.conn(e, m), i)) += x(e, m, i);
        }
    D2 f = xt::zeros<double>({nn, t.ndim});
    for (size_t m = 0; m < t.nnode; ++m)
        for (size_t i = 0; i < t.ndim; ++i)
            n(m, i) = b(t.dofs(m, i));
    for (size_t e = 0; e < t.nelem; ++e)
        for (size_t m = 0; m < t.nne; ++m)
            for (size_t i = 0; i < t.ndim; ++i)
                f(t.conn(e, m), i) += x(e, m, i);
    c.same("AssembleDofs(nodevec)", v.AssembleDofs(z), a);
    c.poison(od), v.assembleDofs(z, od), c.same("assembleDofs(nodevec)", od, a);
    c.same("AssembleDofs(elemvec)", v.AssembleDofs(x), b);
    c.poison(od), v.assembleDofs(x, od), c.same("assembleDofs(elemvec)", od, b);
    c.same("AssembleNode(elemvec)", v.AssembleNode(x), n);
    c.poison(on), v.assembleNode(x, on), c.same("assembleNode(elemvec)", on, n);
    c.same("assembleNodeVector", GooseFEM::Element::assembleNodeVector(t.conn, x), f);
}
GFVH_MAIN(body, "random connectivity (1-5 elements of 1-4 nodes, 1-9 nodes, 1-3 dimensions, also repeated nodes) and DOF-table (permuted, tied, or with unused DOFs), integer-valued data (sums are exact); non-trivial: more than one element or more than two nodes; distinct by hash of all inputs")
