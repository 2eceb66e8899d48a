#include <sparse.h>
using namespace gfvh;

static void body(Case& c)
{
    Topo t = topology(c);
    GooseFEM::MatrixDiagonal A(t.conn, t.dofs);
    D1 ref = xt::zeros<double>({t.ndof});
    size_t n = c.i(1, 6);
    for (size_t k = 0; k < n; ++k) {
        size_t op = k == 0 ? c.i(0, 1) : c.i(0, 3);
        c.input("op", op);
        if (op == 0) {
            D3 em = xt::zeros<double>({t.nelem, t.nne * t.ndim, t.nne * t.ndim});
            for (size_t e = 0; e < t.nelem; ++e)
                for (size_t i = 0; i < em.shape(1); ++i)
                    em(e, i, i) = c.whole();
            c.inputa("elemmat", em);
            A.assemble(em);
            D2 d = assembled(t, em);
            for (size_t i = 0; i < t.ndof; ++i) {
                ref(i) = 0;
                for (size_t e = 0; e < t.nelem; ++e)
                    for (size_t m = 0; m < t.nne; ++m)
                        for (size_t j = 0; j < t.ndim; ++j)
                            if (t.dofs(t.conn(e, m), j) == i)
                                ref(i) += em(e, m * t.ndim + j, m * t.ndim + j);
            }
        }
        else if (op == 1) {
            c.randomise(ref);
            c.inputa("set", ref);
            A.set(ref);
        }
        D1 x = ref;
        D2 X = xt::zeros<double>({t.nnode, t.ndim});
        c.randomise(x), c.randomise(X);
        c.inputa("x", x), c.inputa("X", X);
        D2 dense = xt::zeros<double>({t.ndof, t.ndof});
        for (size_t d = 0; d < t.ndof; ++d)
            dense(d, d) = ref(d);
        c.same("data", A.data(), ref);
        c.same("Todense", A.Todense(), dense);
        D2 o = dense;
        c.poison(o), A.todense(o), c.same("todense", o, dense);
        if (op < 3) {
            D1 b = x, ob = x;
            D2 B = X, oB = X;
            for (size_t d = 0; d < t.ndof; ++d)
                b(d) = ref(d) * x(d);
            for (size_t m = 0; m < t.nnode; ++m)
                for (size_t i = 0; i < t.ndim; ++i)
                    B(m, i) = ref(t.dofs(m, i)) * X(m, i);
            c.same("Dot(dofval)", A.Dot(x), b);
            c.poison(ob), A.dot(x, ob), c.same("dot(dofval)", ob, b);
            c.same("Dot(nodevec)", A.Dot(X), B);
            c.poison(oB), A.dot(X, oB), c.same("dot(nodevec)", oB, B);
        }
        if (op > 0 || c.coin()) {
            bool regular = true;
            for (double v : ref)
                regular = regular && v != 0;
            if (!regular)
                continue;
            D1 s = x, os = x;
            D2 S = X, oS = X;
            for (size_t d = 0; d < t.ndof; ++d)
                s(d) = x(d) / ref(d);
            for (size_t m = 0; m < t.nnode; ++m)
                for (size_t i = 0; i < t.ndim; ++i)
                    S(m, i) = X(m, i) / ref(t.dofs(m, i));
            switch (c.i(0, 3)) {
            case 0: c.allclose("Solve(dofval)", A.Solve(x), s, 1e-12); break;
            case 1: c.poison(os), A.solve(x, os), c.allclose("solve(dofval)", os, s, 1e-12); break;
            case 2: c.allclose("Solve(nodevec)", A.Solve(X), S, 1e-12); break;
            default: c.poison(oS), A.solve(X, oS), c.allclose("solve(nodevec)", oS, S, 1e-12);
            }
        }
    }
    c.nontrivial = t.ndof > 1;
}
GFVH_MAIN(body, "random connectivity and DOF-table, random sequence of 1 to 6 assemble/set/dot/solve compared with a dense diagonal after every operation; non-trivial: more than one DOF; distinct by hash of all inputs")
