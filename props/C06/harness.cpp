#include <sparse.h>
#include <GooseFEM/MatrixPartitioned.h>
using namespace gfvh;

static void body(Case& c)
{
    // every DOF below the number of DOFs occurs in the DOF-table
    Topo t = topology(c, (int)c.i(0, 1));
    U1 iip = subset(c, t.ndof);
    c.inputa("iip", iip);
    GooseFEM::MatrixPartitioned A(t.conn, t.dofs, iip);
    std::set<size_t> pset(iip.begin(), iip.end());
    std::vector<size_t> iu, ip(iip.begin(), iip.end());
    for (size_t d = 0; d < t.ndof; ++d)
        if (!pset.count(d))
            iu.push_back(d);
    size_t nu = iu.size(), np = ip.size();
    c.nontrivial = nu > 0 && np > 0;
    c.eq("nnu", A.nnu(), nu);
    c.eq("nnp", A.nnp(), np);
    U1 iiu = xt::zeros<size_t>({nu});
    std::copy(iu.begin(), iu.end(), iiu.begin());
    c.same("iiu", A.iiu(), iiu);
    c.same("iip", A.iip(), iip);
    D2 ref = xt::zeros<double>({t.ndof, t.ndof});
    size_t n = c.i(1, 4);
    for (size_t k = 0; k < n; ++k) {
        modify(c, t, A, ref);
        c.same("Todense", A.Todense(), ref);
        D2 o = ref;
        c.poison(o), A.todense(o), c.same("todense", o, ref);
        auto sub = [&](const std::vector<size_t>& r, const std::vector<size_t>& q) {
            D2 b = xt::zeros<double>({r.size(), q.size()});
            for (size_t i = 0; i < r.size(); ++i)
                for (size_t j = 0; j < q.size(); ++j)
                    b(i, j) = ref(r[i], q[j]);
            return b;
        };
        c.same("data_uu", dense(A.data_uu()), sub(iu, iu));
        c.same("data_up", dense(A.data_up()), sub(iu, ip));
        c.same("data_pu", dense(A.data_pu()), sub(ip, iu));
        c.same("data_pp", dense(A.data_pp()), sub(ip, ip));
        D1 y = xt::zeros<double>({t.ndof});
        c.randomise(y);
        c.inputa("dofval", y);
        D1 b = mul(ref, y), ob = b;
        c.same("Dot(dofval)", A.Dot(y), b);
        c.poison(ob), A.dot(y, ob), c.same("dot(dofval)", ob, b);
        D2 x = tonode(t, y), e = tonode(t, b), on = e;
        c.same("Dot(nodevec)", A.Dot(x), e);
        c.poison(on), A.dot(x, on), c.same("dot(nodevec)", on, e);
        // reaction: only prescribed entries are overwritten
        D1 f = y, rf = y;
        c.randomise(f);
        c.inputa("force", f);
        rf = f;
        D1 bp = xt::zeros<double>({np}), xu = xt::zeros<double>({nu}), xp = bp;
        for (size_t d = 0; d < np; ++d) {
            rf(ip[d]) = b(ip[d]);
            bp(d) = b(ip[d]);
            xp(d) = y(ip[d]);
        }
        for (size_t d = 0; d < nu; ++d)
            xu(d) = y(iu[d]);
        D2 fn = xt::zeros<double>({t.nnode, t.ndim});
        c.randomise(fn);
        D2 rn = fn;
        for (size_t m = 0; m < t.nnode; ++m)
            for (size_t i = 0; i < t.ndim; ++i)
                if (pset.count(t.dofs(m, i)))
                    rn(m, i) = e(m, i);
        c.same("Reaction(dofval)", A.Reaction(y, f), rf);
        D1 g = f;
        A.reaction(y, g), c.same("reaction(dofval)", g, rf);
        c.same("Reaction(nodevec)", A.Reaction(x, fn), rn);
        D2 gn = fn;
        A.reaction(x, gn), c.same("reaction(nodevec)", gn, rn);
        c.same("Reaction_p", A.Reaction_p(xu, xp), bp);
        D1 op = bp;
        c.poison(op), A.reaction_p(xu, xp, op), c.same("reaction_p", op, bp);
    }
}
GFVH_MAIN(body, "random connectivity and DOF-table (permuted or tied), random distinct prescribed DOFs in any order (also none and all), random sequence of 1 to 4 assemble/set/add compared with a dense model after every operation; non-trivial: both parts non-empty; distinct by hash of all inputs")
