#include <harness.h>
using namespace gfvh;
using GooseFEM::Vector;

static void body(Case& c)
{
    Topo t = topology(c);
    c.nontrivial = t.nelem > 1 || t.nnode > 2;
    Vector v(t.conn, t.dofs);
    auto N = [&](size_t e, size_t m) { return t.conn(e, m); };
    D1 x = xt::zeros<double>({t.ndof});
    D2 z = xt::zeros<double>({t.nnode, t.ndim});
    c.randomise(x, 1000);
    c.randomise(z, 1000);
    c.inputa("dofval", x);
    c.inputa("nodevec", z);
    // gathers
    D2 n1 = xt::zeros<double>({t.nnode, t.ndim});
    D3 e1 = xt::zeros<double>({t.nelem, t.nne, t.ndim}), e2 = e1;
    for (size_t m = 0; m < t.nnode; ++m)
        for (size_t i = 0; i < t.ndim; ++i)
            n1(m, i) = x(t.dofs(m, i));
    for (size_t e = 0; e < t.nelem; ++e)
        for (size_t m = 0; m < t.nne; ++m)
            for (size_t i = 0; i < t.ndim; ++i) {
                e1(e, m, i) = x(t.dofs(N(e, m), i));
                e2(e, m, i) = z(N(e, m), i);
            }
    D2 on = n1;
    D3 oe = e1;
    D1 od = x;
    c.same("AsNode(dofval)", v.AsNode(x), n1);
    c.poison(on), v.asNode(x, on), c.same("asNode(dofval)", on, n1);
    c.same("AsElement(dofval)", v.AsElement(x), e1);
    c.poison(oe), v.asElement(x, oe), c.same("asElement(dofval)", oe, e1);
    c.same("AsElement(nodevec)", v.AsElement(z), e2);
    c.poison(oe), v.asElement(z, oe), c.same("asElement(nodevec)", oe, e2);
    c.same("asElementVector", GooseFEM::Element::asElementVector(t.conn, z), e2);
    D2 dest = z;
    c.poison(dest);
    c.same("Copy", v.Copy(z, dest), z);
    v.copy(z, dest);
    c.same("copy", dest, z);
    // consistent data to DOFs / nodes; unreferenced entries are zero
    D1 y1 = xt::zeros<double>({t.ndof}), y2 = y1;
    D2 y3 = xt::zeros<double>({t.nnode, t.ndim});
    for (size_t m = 0; m < t.nnode; ++m)
        for (size_t i = 0; i < t.ndim; ++i)
            y1(t.dofs(m, i)) = x(t.dofs(m, i));
    for (size_t e = 0; e < t.nelem; ++e)
        for (size_t m = 0; m < t.nne; ++m)
            for (size_t i = 0; i < t.ndim; ++i) {
                y2(t.dofs(N(e, m), i)) = x(t.dofs(N(e, m), i));
                y3(N(e, m), i) = z(N(e, m), i);
            }
    c.same("AsDofs(nodevec)", v.AsDofs(n1), y1);
    c.poison(od), v.asDofs(n1, od), c.same("asDofs(nodevec)", od, y1);
    c.same("AsDofs(elemvec)", v.AsDofs(e1), y2);
    c.poison(od), v.asDofs(e1, od), c.same("asDofs(elemvec)", od, y2);
    c.same("AsNode(elemvec)", v.AsNode(e2), y3);
    c.poison(on), v.asNode(e2, on), c.same("asNode(elemvec)", on, y3);
    c.same("AsNode(AsDofs)", v.AsNode(v.AsDofs(n1)), n1);
}
GFVH_MAIN(body, "random connectivity (1-5 elements of 1-4 nodes, 1-9 nodes, 1-3 dimensions, also repeated nodes) and DOF-table (permuted, tied, or with unused DOFs), integer-valued data; non-trivial: more than one element or more than two nodes; distinct by hash of all inputs")
