#include <sparse.h>
#include <tied.h>
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
using namespace gfvh;
using LU = Eigen::SparseLU<Eigen::SparseMatrix<double>, Eigen::COLAMDOrdering<int>>;

/// (symmetric) diagonally dominant element matrices
static D3 dominant(Case& c, const Topo& t, bool symmetric, bool diagonal)
{
    D3 em = xt::zeros<double>({t.nelem, t.nne * t.ndim, t.nne * t.ndim});
    size_t w = em.shape(1);
    for (size_t e = 0; e < t.nelem; ++e)
        for (size_t i = 0; i < w; ++i)
            for (size_t j = 0; j < w; ++j) {
                if (i == j)
                    em(e, i, j) = 10.0 * (double)w + (double)c.i(0, 40);
                else if (diagonal)
                    continue;
                else if (symmetric && j < i)
                    em(e, i, j) = em(e, j, i);
                else
                    em(e, i, j) = c.whole(4);
            }
    c.inputa("elemmat", em);
    return em;
}

/// random (symmetric) diagonally dominant dense matrix on all DOFs in random order
static Block full(Case& c, size_t n, bool symmetric)
{
    Block b;
    b.rows = xt::zeros<size_t>({n});
    for (size_t i = 0; i < n; ++i)
        b.rows(i) = i;
    for (size_t i = n; i-- > 1;)
        std::swap(b.rows(i), b.rows(c.i(0, i)));
    b.cols = b.rows;
    b.m = xt::zeros<double>({n, n});
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            b.m(i, j) = i == j ? 20.0 * (double)n + (double)c.i(0, 30) : symmetric && j < i ? b.m(j, i) : c.whole(5);
    c.inputa("rows", b.rows);
    c.inputa("matrix", b.m);
    return b;
}

static bool covered(const Topo& t)
{
    std::set<size_t> used;
    for (size_t e = 0; e < t.nelem; ++e)
        for (size_t m = 0; m < t.nne; ++m)
            for (size_t i = 0; i < t.ndim; ++i)
                used.insert(t.dofs(t.conn(e, m), i));
    return used.size() == t.ndof;
}

/// one regular modification
template <class M>
static void change(Case& c, const Topo& t, M& A, D2& ref, bool symmetric, size_t op)
{
    if (op == 0) {
        D3 em = dominant(c, t, symmetric, false);
        A.assemble(em);
        ref = assembled(t, em);
        return;
    }
    Block b = full(c, t.ndof, symmetric);
    if (op == 1) {
        A.set(b.rows, b.cols, b.m);
        ref.fill(0.0);
    }
    else
        A.add(b.rows, b.cols, b.m);
    addto(ref, b);
}

static void check(Case& c, const char* what, const D2& ref, const D1& x, const D1& b, const std::vector<size_t>& rows)
{
    D1 r = mul(ref, x);
    for (size_t d : rows)
        c.expect(what, std::abs(r(d) - b(d)) < 1e-6, "row " + std::to_string(d) + ": matrix times solution is " + str(r(d)) + ", right-hand side is " + str(b(d)));
}

template <class Solver>
static void plain(Case& c, bool symmetric)
{
    Topo t = topology(c, (int)c.i(0, 1), 5, 4);
    if (!covered(t))
        return;
    size_t nm = c.i(1, 3), ns = c.i(1, 2);
    std::vector<GooseFEM::Matrix> A;
    std::vector<D2> ref(nm, xt::zeros<double>({t.ndof, t.ndof}));
    for (size_t k = 0; k < nm; ++k) {
        A.emplace_back(t.conn, t.dofs);
        change(c, t, A[k], ref[k], symmetric, c.i(0, 1));
    }
    std::vector<Solver> S(ns);
    std::vector<size_t> all;
    for (size_t d = 0; d < t.ndof; ++d)
        all.push_back(d);
    for (size_t n = c.i(2, 8); n > 0; --n) {
        size_t k = c.i(0, nm - 1), s = c.i(0, ns - 1);
        if (c.coin(3)) {
            size_t op = c.i(0, 3);
            c.input("change", std::to_string(op) + " of matrix " + std::to_string(k));
            if (op == 3) {
                size_t j = c.i(0, nm - 1);
                c.input("copy of matrix", j);
                A[k] = A[j], ref[k] = ref[j];
            }
            else
                change(c, t, A[k], ref[k], symmetric, op);
            continue;
        }
        size_t how = c.i(0, 3);
        c.input("solve", std::to_string(k) + " with solver " + std::to_string(s) + " interface " + std::to_string(how));
        D1 b = xt::zeros<double>({t.ndof}), x = b;
        c.randomise(b);
        if (how < 2) {
            if (how == 0)
                x = S[s].Solve(A[k], b);
            else
                c.poison(x), S[s].solve(A[k], b, x);
        }
        else {
            D2 X = xt::zeros<double>({t.nnode, t.ndim});
            if (how == 2)
                X = S[s].Solve(A[k], tonode(t, b));
            else
                c.poison(X), S[s].solve(A[k], tonode(t, b), X);
            for (size_t m = 0; m < t.nnode; ++m)
                for (size_t i = 0; i < t.ndim; ++i)
                    x(t.dofs(m, i)) = X(m, i);
            c.same("nodal solution", X, tonode(t, x));
        }
        check(c, "solution of the current matrix", ref[k], x, b, all);
        c.same("matrix unchanged by solve", A[k].Todense(), ref[k]);
    }
}

template <class Solver>
static void partitioned(Case& c, bool symmetric)
{
    Topo t = topology(c, (int)c.i(0, 1), 5, 4);
    if (!covered(t))
        return;
    size_t nm = c.i(1, 3), ns = c.i(1, 2);
    bool share = c.coin();
    std::vector<GooseFEM::MatrixPartitioned> A;
    std::vector<U1> iip;
    std::vector<D2> ref(nm, xt::zeros<double>({t.ndof, t.ndof}));
    for (size_t k = 0; k < nm; ++k) {
        iip.push_back(share && k ? iip[0] : subset(c, t.ndof));
        c.inputa("iip", iip[k]);
        if (iip[k].size() == t.ndof)
            return;
        A.emplace_back(t.conn, t.dofs, iip[k]);
        change(c, t, A[k], ref[k], symmetric, c.i(0, 1));
    }
    std::vector<Solver> S(ns);
    for (size_t n = c.i(2, 8); n > 0; --n) {
        size_t k = c.i(0, nm - 1), s = c.i(0, ns - 1);
        if (c.coin(3)) {
            size_t op = c.i(0, 3);
            c.input("change", std::to_string(op) + " of matrix " + std::to_string(k));
            if (op == 3) {
                size_t j = c.i(0, nm - 1);
                c.input("copy of matrix", j);
                A[k] = A[j], ref[k] = ref[j], iip[k] = U1(iip[j]);
            }
            else
                change(c, t, A[k], ref[k], symmetric, op);
            continue;
        }
        size_t how = c.i(0, 5);
        c.input("solve", std::to_string(k) + " with solver " + std::to_string(s) + " interface " + std::to_string(how));
        std::set<size_t> P(iip[k].begin(), iip[k].end());
        std::vector<size_t> iu;
        for (size_t d = 0; d < t.ndof; ++d)
            if (!P.count(d))
                iu.push_back(d);
        D1 b = xt::zeros<double>({t.ndof}), x0 = b;
        c.randomise(b), c.randomise(x0);
        D1 x = x0;
        if (how == 0)
            x = S[s].Solve(A[k], b, x0);
        else if (how == 1)
            S[s].solve(A[k], b, x);
        else if (how < 4) {
            D2 X = tonode(t, x0);
            if (how == 2)
                X = S[s].Solve(A[k], tonode(t, b), tonode(t, x0));
            else
                S[s].solve(A[k], tonode(t, b), X);
            for (size_t m = 0; m < t.nnode; ++m)
                for (size_t i = 0; i < t.ndim; ++i)
                    x(t.dofs(m, i)) = X(m, i);
            c.same("nodal solution", X, tonode(t, x));
        }
        else {
            D1 bu = xt::zeros<double>({iu.size()}), xu = bu, xp = xt::zeros<double>({iip[k].size()});
            for (size_t i = 0; i < iu.size(); ++i)
                bu(i) = b(iu[i]);
            for (size_t i = 0; i < xp.size(); ++i)
                xp(i) = x0(iip[k](i));
            if (how == 4)
                xu = S[s].Solve_u(A[k], bu, xp);
            else
                c.poison(xu), S[s].solve_u(A[k], bu, xp, xu);
            for (size_t i = 0; i < iu.size(); ++i)
                x(iu[i]) = xu(i);
        }
        for (size_t d : P)
            c.expect("prescribed value returned as given", x(d) == x0(d));
        check(c, "solution of the current system", ref[k], x, b, iu);
        c.same("matrix unchanged by solve", A[k].Todense(), ref[k]);
    }
}

template <class Solver>
static void tyings(Case& c)
{
    using M = GooseFEM::MatrixPartitionedTyings;
    Tied t = tied(c, 5, 4);
    if (!covered(t) || !t.nu)
        return;
    size_t nm = c.i(1, 3), ns = c.i(1, 2);
    std::vector<M> A;
    std::vector<D2> ref;
    for (size_t k = 0; k < nm; ++k) {
        A.emplace_back(t.conn, t.dofs, t.Cdu, t.Cdp);
        D3 em = dominant(c, t, true, false);
        A[k].assemble(em);
        ref.push_back(assembled(t, em));
    }
    std::vector<Solver> S(ns);
    for (size_t n = c.i(2, 8); n > 0; --n) {
        size_t k = c.i(0, nm - 1), s = c.i(0, ns - 1);
        if (c.coin(3)) {
            c.input("assemble matrix ", k);
            D3 em = dominant(c, t, true, false);
            A[k].assemble(em);
            ref[k] = assembled(t, em);
            continue;
        }
        size_t how = c.i(0, 2);
        c.input("solve", std::to_string(k) + " with solver " + std::to_string(s) + " interface " + std::to_string(how));
        D1 b = xt::zeros<double>({t.ndof}), x0 = b;
        c.randomise(b), c.randomise(x0);
        D1 x = x0;
        if (how == 0)
            x = S[s].Solve(A[k], b, x0);
        else if (how == 1) {
            D2 X = S[s].Solve(A[k], tonode(t, b), tonode(t, x0));
            for (size_t m = 0; m < t.nnode; ++m)
                for (size_t i = 0; i < t.ndim; ++i)
                    x(t.dofs(m, i)) = X(m, i);
        }
        else {
            D1 bu = xt::view(b, xt::range(0, t.nu)), bd = xt::view(b, xt::range(t.ni, t.ndof)), xp = xt::view(x0, xt::range(t.nu, t.ni));
            D1 xu = S[s].Solve_u(A[k], bu, bd, xp);
            for (size_t u = 0; u < t.nu; ++u)
                x(u) = xu(u);
            for (size_t d = 0; d < t.nd; ++d) {
                x(t.ni + d) = 0;
                for (size_t j = 0; j < t.ni; ++j)
                    x(t.ni + d) += at(t.Cdi, d, j) * x(j);
            }
        }
        D1 r = mul(ref[k], x);
        for (size_t i = 0; i < t.np; ++i)
            c.expect("prescribed value returned as given", x(t.nu + i) == x0(t.nu + i));
        for (size_t d = 0; d < t.nd; ++d) {
            double v = x(t.ni + d);
            for (size_t j = 0; j < t.ni; ++j)
                v -= at(t.Cdi, d, j) * x(j);
            c.expect("tying relation", std::abs(v) < 1e-6);
        }
        for (size_t u = 0; u < t.nu; ++u) {
            double v = r(u) - b(u);
            for (size_t d = 0; d < t.nd; ++d)
                v += at(t.Cdu, d, u) * (r(t.ni + d) - b(t.ni + d));
            c.expect("solution of the current condensed system", std::abs(v) < 1e-5, "row " + std::to_string(u) + ": residual " + str(v));
        }
    }
}

static void diagonal(Case& c, bool part)
{
    Topo t = topology(c, (int)c.i(0, 1), 5, 4);
    if (!covered(t))
        return;
    U1 iip = subset(c, t.ndof);
    c.input("partitioned", part);
    c.inputa("iip", iip);
    GooseFEM::MatrixDiagonal A(t.conn, t.dofs);
    GooseFEM::MatrixDiagonalPartitioned B(t.conn, t.dofs, iip);
    std::set<size_t> P(iip.begin(), iip.end());
    D1 ref = xt::ones<double>({t.ndof});
    A.set(ref), B.set(ref);
    for (size_t n = c.i(2, 8); n > 0; --n) {
        size_t op = c.i(0, 4);
        c.input("op", op);
        if (op == 0) {
            D3 em = dominant(c, t, true, true);
            A.assemble(em), B.assemble(em);
            D2 d = assembled(t, em);
            for (size_t i = 0; i < t.ndof; ++i)
                ref(i) = d(i, i);
        }
        else if (op == 1) {
            for (auto& v : ref)
                v = (double)c.i(1, 50);
            c.inputa("set", ref);
            A.set(ref), B.set(ref);
        }
        else {
            D1 b = ref, x0 = ref;
            c.randomise(b), c.randomise(x0);
            D1 x = x0, y = x0;
            if (op == 2)
                A.solve(b, x), B.solve(b, y);
            else {
                D2 X = tonode(t, x0), Y = X;
                A.solve(tonode(t, b), X), B.solve(tonode(t, b), Y);
                for (size_t m = 0; m < t.nnode; ++m)
                    for (size_t i = 0; i < t.ndim; ++i)
                        x(t.dofs(m, i)) = X(m, i), y(t.dofs(m, i)) = Y(m, i);
            }
            for (size_t d = 0; d < t.ndof; ++d) {
                c.close("MatrixDiagonal: row " + std::to_string(d), ref(d) * x(d), b(d), 1e-9, 50);
                if (P.count(d))
                    c.expect("MatrixDiagonalPartitioned: prescribed value returned as given", y(d) == x0(d));
                else
                    c.close("MatrixDiagonalPartitioned: row " + std::to_string(d), ref(d) * y(d), b(d), 1e-9, 50);
            }
        }
    }
}

static void body(Case& c)
{
    size_t kind = c.i(0, 6);
    c.input("kind", kind);
    c.nontrivial = true;
    switch (kind) {
    case 0: return plain<GooseFEM::MatrixSolver<>>(c, true);
    case 1: return plain<GooseFEM::MatrixSolver<LU>>(c, false);
    case 2: return partitioned<GooseFEM::MatrixPartitionedSolver<>>(c, true);
    case 3: return partitioned<GooseFEM::MatrixPartitionedSolver<LU>>(c, false);
    case 4: return tyings<GooseFEM::MatrixPartitionedTyingsSolver<>>(c);
    case 5: return tyings<GooseFEM::MatrixPartitionedTyingsSolver<LU>>(c);
    default: return diagonal(c, true);
    }
}
GFVH_MAIN(body, "random sequences of 2 to 8 assemble/set/add/solve on 1 to 3 matrices with 1 or 2 solver objects (plain, partitioned, tyings, diagonal; LDLT and LU), every solution substituted in a dense copy of the current matrix; non-trivial: at least one solve; distinct by hash of all inputs")
