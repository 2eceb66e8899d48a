#include <sparse.h>
#include <tied.h>
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
using namespace gfvh;
using M = GooseFEM::MatrixPartitionedTyings;

static void blocks(Case& c, const Tied& t, const M& A, const D2& ref)
{
    size_t n[3] = {t.nu, t.np, t.nd}, o[3] = {0, t.nu, t.ni};
    Sp B[9] = {A.data_uu(), A.data_up(), A.data_ud(), A.data_pu(), A.data_pp(), A.data_pd(), A.data_du(), A.data_dp(), A.data_dd()};
    const char* name[9] = {"uu", "up", "ud", "pu", "pp", "pd", "du", "dp", "dd"};
    for (size_t a = 0; a < 3; ++a)
        for (size_t b = 0; b < 3; ++b) {
            D2 e = xt::zeros<double>({n[a], n[b]});
            for (size_t i = 0; i < n[a]; ++i)
                for (size_t j = 0; j < n[b]; ++j)
                    e(i, j) = ref(o[a] + i, o[b] + j);
            c.same(std::string("block ") + name[3 * a + b], dense(B[3 * a + b]), e);
        }
    c.same("Todense", A.Todense(), ref);
    D2 d = ref;
    c.poison(d), A.todense(d), c.same("todense", d, ref);
}

/// projected residual on the unknown DOFs, and the tying relation
static void verify(Case& c, const Tied& t, const D2& ref, const D1& b, const D1& x, const D1& x0, const std::string& name)
{
    double tol = 1e-7;
    D1 r = mul(ref, x);
    for (size_t i = 0; i < t.np; ++i)
        c.expect(name + ": prescribed untouched", x(t.nu + i) == x0(t.nu + i));
    for (size_t i = 0; i < t.nd; ++i) {
        double s = x(t.ni + i);
        for (size_t j = 0; j < t.ni; ++j)
            s -= at(t.Cdi, i, j) * x(j);
        c.expect(name + ": tying relation", std::abs(s) < tol);
    }
    for (size_t u = 0; u < t.nu; ++u) {
        double s = r(u) - b(u);
        for (size_t d = 0; d < t.nd; ++d)
            s += at(t.Cdu, d, u) * (r(t.ni + d) - b(t.ni + d));
        c.expect(name + ": projected residual on DOF " + std::to_string(u), std::abs(s) < tol);
    }
}

template <class Solver>
static void run(Case& c, bool symmetric)
{
    Tied t = tied(c);
    M A(t.conn, t.dofs, t.Cdu, t.Cdp);
    c.expect("sizes", A.nnu() == t.nu && A.nnp() == t.np && A.nni() == t.ni && A.nnd() == t.nd);
    c.same("iiu", A.iiu(), U1(xt::arange<size_t>(0, t.nu)));
    c.same("iip", A.iip(), U1(xt::arange<size_t>(t.nu, t.ni)));
    c.same("iii", A.iii(), U1(xt::arange<size_t>(0, t.ni)));
    c.same("iid", A.iid(), U1(xt::arange<size_t>(t.ni, t.ndof)));
    Solver S;
    size_t n = c.i(1, 3);
    for (size_t k = 0; k < n; ++k) {
        D3 em = elemmat(c, t);
        D2 ref = assembled(t, em);
        A.assemble(em);
        blocks(c, t, A, ref);
        // a system that can be solved: (symmetric) and diagonally dominant element matrices, all DOFs used
        std::set<size_t> used;
        for (size_t e = 0; e < t.nelem; ++e)
            for (size_t m = 0; m < t.nne; ++m)
                for (size_t i = 0; i < t.ndim; ++i)
                    used.insert(t.dofs(t.conn(e, m), i));
        if (used.size() != t.ndof)
            return;
        size_t w = em.shape(1);
        for (size_t e = 0; e < t.nelem; ++e)
            for (size_t i = 0; i < w; ++i)
                for (size_t j = 0; j < w; ++j) {
                    if (symmetric && j > i)
                        em(e, i, j) = em(e, j, i);
                    if (i == j)
                        em(e, i, j) = 40.0 * (double)w;
                }
        ref = assembled(t, em);
        A.assemble(em);
        if (!symmetric) {
            // condensed matrix well-conditioned?
            D2 K = xt::zeros<double>({t.nu, t.nu});
            Eigen::MatrixXd m(t.nu, t.nu);
            for (size_t u = 0; u < t.nu; ++u)
                for (size_t v = 0; v < t.nu; ++v) {
                    double s = ref(u, v);
                    for (size_t d = 0; d < t.nd; ++d) {
                        s += ref(u, t.ni + d) * at(t.Cdu, d, v) + at(t.Cdu, d, u) * ref(t.ni + d, v);
                        for (size_t f = 0; f < t.nd; ++f)
                            s += at(t.Cdu, d, u) * ref(t.ni + d, t.ni + f) * at(t.Cdu, f, v);
                    }
                    m(u, v) = s;
                }
            if (t.nu && std::abs(m.determinant()) < 1)
                return;
        }
        if (!t.nu)
            return;
        c.nontrivial = t.nd > 0;
        D1 b = xt::zeros<double>({t.ndof}), x = b;
        c.randomise(b), c.randomise(x);
        c.inputa("b", b), c.inputa("x", x);
        D1 X = S.Solve(A, b, x);
        verify(c, t, ref, b, X, x, "Solve(dofval)");
        D1 y = x;
        S.solve(A, b, y);
        c.allclose("solve(dofval)", y, X);
        D2 Xn = S.Solve(A, tonode(t, b), tonode(t, x));
        c.allclose("Solve(nodevec)", Xn, tonode(t, X));
        D2 yn = tonode(t, x);
        S.solve(A, tonode(t, b), yn);
        c.allclose("solve(nodevec)", yn, tonode(t, X));
        D1 bu = xt::view(b, xt::range(0, t.nu)), bd = xt::view(b, xt::range(t.ni, t.ndof)), xp = xt::view(x, xt::range(t.nu, t.ni));
        D1 Xu = xt::view(X, xt::range(0, t.nu));
        c.allclose("Solve_u", S.Solve_u(A, bu, bd, xp), Xu);
        D1 xu = Xu;
        c.poison(xu), S.solve_u(A, bu, bd, xp, xu), c.allclose("solve_u", xu, Xu);
        blocks(c, t, A, ref);
    }
}

static void body(Case& c)
{
    bool symmetric = c.coin(2);
    c.input("symmetric", symmetric);
    if (symmetric)
        run<GooseFEM::MatrixPartitionedTyingsSolver<>>(c, true);
    else
        run<GooseFEM::MatrixPartitionedTyingsSolver<Eigen::SparseLU<Eigen::SparseMatrix<double>, Eigen::COLAMDOrdering<int>>>>(c, false);
}
GFVH_MAIN(body, "random connectivity, DOF-table and tying matrices (DOFs numbered unknown, prescribed, dependent), 1 to 3 assemblies with a dense reference for all blocks, followed by solves through all interfaces (LDLT on symmetric, LU on unsymmetric matrices); non-trivial: dependent DOFs and at least one solve; distinct by hash of all inputs")
