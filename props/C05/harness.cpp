#include <sparse.h>
#include <GooseFEM/Matrix.h>
using namespace gfvh;

static void body(Case& c)
{
    Topo t = topology(c);
    GooseFEM::Matrix A(t.conn, t.dofs);
    D2 ref = xt::zeros<double>({t.ndof, t.ndof});
    size_t n = c.i(1, 4);
    for (size_t k = 0; k < n; ++k) {
        modify(c, t, A, ref);
        c.same("Todense", A.Todense(), ref);
        D2 o = ref;
        c.poison(o), A.todense(o), c.same("todense", o, ref);
        c.same("data", dense(A.data()), ref);
        D1 y = xt::zeros<double>({t.ndof});
        c.randomise(y);
        c.inputa("dofval", y);
        D1 b = mul(ref, y), ob = b;
        c.same("Dot(dofval)", A.Dot(y), b);
        c.poison(ob), A.dot(y, ob), c.same("dot(dofval)", ob, b);
        // unused DOFs are zero in the DOF-values of a nodal vector
        std::set<size_t> used(t.dofs.begin(), t.dofs.end());
        D1 z = y;
        for (size_t d = 0; d < t.ndof; ++d)
            if (!used.count(d))
                z(d) = 0;
        D2 e = tonode(t, mul(ref, z)), on = e;
        c.same("Dot(nodevec)", A.Dot(tonode(t, y)), e);
        c.poison(on), A.dot(tonode(t, y), on), c.same("dot(nodevec)", on, e);
    }
    c.nontrivial = t.ndof > 1;
}
GFVH_MAIN(body, "random connectivity and DOF-table, random sequence of 1 to 4 assemble/set/add (blocks with repeated rows and columns) compared with a dense model after every operation; non-trivial: more than one DOF; distinct by hash of all inputs")
