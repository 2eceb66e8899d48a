#include <sparse.h>
using namespace gfvh;

static void body(Case& c)
{
    Topo t = topology(c, (int)c.i(0, 1));
    U1 iip = subset(c, t.ndof);
    c.inputa("iip", iip);
    GooseFEM::MatrixDiagonalPartitioned A(t.conn, t.dofs, iip);
    std::set<size_t> P(iip.begin(), iip.end());
    std::vector<size_t> iu, ip(iip.begin(), iip.end());
    for (size_t d = 0; d < t.ndof; ++d)
        if (!P.count(d))
            iu.push_back(d);
    size_t nu = iu.size(), np = ip.size();
    c.nontrivial = nu > 0 && np > 0;
    c.eq("nnu", A.nnu(), nu);
    c.eq("nnp", A.nnp(), np);
    c.same("iip", A.iip(), iip);
    U1 iiu = xt::zeros<size_t>({nu});
    std::copy(iu.begin(), iu.end(), iiu.begin());
    c.same("iiu", A.iiu(), iiu);
    auto part = [&](const D1& a, const std::vector<size_t>& l) {
        D1 r = xt::zeros<double>({l.size()});
        for (size_t k = 0; k < l.size(); ++k)
            r(k) = a(l[k]);
        return r;
    };
    D1 ref = xt::zeros<double>({t.ndof});
    size_t n = c.i(1, 6);
    for (size_t k = 0; k < n; ++k) {
        size_t op = k == 0 ? c.i(0, 1) : c.i(0, 3);
        c.input("op", op);
        if (op == 0) {
            D3 em = xt::zeros<double>({t.nelem, t.nne * t.ndim, t.nne * t.ndim});
            ref.fill(0.0);
            for (size_t e = 0; e < t.nelem; ++e)
                for (size_t m = 0; m < t.nne; ++m)
                    for (size_t j = 0; j < t.ndim; ++j) {
                        double v = c.whole();
                        em(e, m * t.ndim + j, m * t.ndim + j) = v;
                        ref(t.dofs(t.conn(e, m), j)) += v;
                    }
            c.inputa("elemmat", em);
            A.assemble(em);
        }
        else if (op == 1) {
            c.randomise(ref);
            c.inputa("set", ref);
            A.set(ref);
        }
        D1 x = ref, f = ref;
        D2 X = xt::zeros<double>({t.nnode, t.ndim}), F = X;
        c.randomise(x), c.randomise(X), c.randomise(f), c.randomise(F);
        c.inputa("x", x), c.inputa("X", X);
        D2 dense = xt::zeros<double>({t.ndof, t.ndof});
        for (size_t d = 0; d < t.ndof; ++d)
            dense(d, d) = ref(d);
        c.same("data", A.data(), ref);
        c.same("data_uu", A.data_uu(), part(ref, iu));
        c.same("data_pp", A.data_pp(), part(ref, ip));
        c.same("Todense", A.Todense(), dense);
        D2 o = dense;
        c.poison(o), A.todense(o), c.same("todense", o, dense);
        D1 b = x, ob = x;
        D2 B = X, oB = X, R = F;
        D1 r = f;
        for (size_t d = 0; d < t.ndof; ++d) {
            b(d) = ref(d) * x(d);
            if (P.count(d))
                r(d) = b(d);
        }
        for (size_t m = 0; m < t.nnode; ++m)
            for (size_t i = 0; i < t.ndim; ++i) {
                B(m, i) = ref(t.dofs(m, i)) * X(m, i);
                if (P.count(t.dofs(m, i)))
                    R(m, i) = B(m, i);
            }
        if (op < 3) {
            c.same("Dot(dofval)", A.Dot(x), b);
            c.poison(ob), A.dot(x, ob), c.same("dot(dofval)", ob, b);
            c.same("Dot(nodevec)", A.Dot(X), B);
            c.poison(oB), A.dot(X, oB), c.same("dot(nodevec)", oB, B);
            D1 xu = part(x, iu), xp = part(x, ip), ou = xu, op_ = xp;
            c.same("Dot_u", A.Dot_u(xu, xp), part(b, iu));
            c.same("Dot_p", A.Dot_p(xu, xp), part(b, ip));
            c.poison(ou), A.dot_u(xu, xp, ou), c.same("dot_u", ou, part(b, iu));
            c.poison(op_), A.dot_p(xu, xp, op_), c.same("dot_p", op_, part(b, ip));
            c.same("Reaction(dofval)", A.Reaction(x, f), r);
            D1 g = f;
            A.reaction(x, g), c.same("reaction(dofval)", g, r);
            c.same("Reaction(nodevec)", A.Reaction(X, F), R);
            D2 G = F;
            A.reaction(X, G), c.same("reaction(nodevec)", G, R);
            c.same("Reaction_p", A.Reaction_p(xu, xp), part(b, ip));
            c.poison(op_), A.reaction_p(xu, xp, op_), c.same("reaction_p", op_, part(b, ip));
        }
        bool regular = true;
        for (size_t d : iu)
            regular = regular && ref(d) != 0;
        if (!regular || (op == 0 && c.coin()))
            continue;
        D1 s = f;
        D2 S = F;
        for (size_t d : iu)
            s(d) = x(d) / ref(d);
        for (size_t m = 0; m < t.nnode; ++m)
            for (size_t i = 0; i < t.ndim; ++i)
                if (!P.count(t.dofs(m, i)))
                    S(m, i) = X(m, i) / ref(t.dofs(m, i));
        D1 g = f, xu = part(x, iu), ou = xu;
        D2 G = F;
        switch (c.i(0, 5)) {
        case 0: c.allclose("Solve(dofval), unknown", part(A.Solve(x), iu), part(s, iu), 1e-12); break;
        case 1: A.solve(x, g), c.allclose("solve(dofval)", g, s, 1e-12); break;
        case 2: G = A.Solve(X); break;
        case 3: A.solve(X, G), c.allclose("solve(nodevec)", G, S, 1e-12); break;
        case 4: c.allclose("Solve_u", A.Solve_u(xu, part(x, ip)), part(s, iu), 1e-12); break;
        default: c.poison(ou), A.solve_u(xu, part(x, ip), ou), c.allclose("solve_u", ou, part(s, iu), 1e-12);
        }
        for (size_t m = 0; m < t.nnode; ++m)
            for (size_t i = 0; i < t.ndim; ++i)
                if (!P.count(t.dofs(m, i)) && G(m, i) != F(m, i))
                    c.close("Solve(nodevec), unknown", G(m, i), S(m, i), 1e-12);
    }
}
GFVH_MAIN(body, "random connectivity and DOF-table (permuted or tied), random distinct prescribed DOFs in any order (also none and all), random sequence of 1 to 6 assemble/set/dot/reaction/solve compared with a dense diagonal after every operation; non-trivial: both parts non-empty; distinct by hash of all inputs")
