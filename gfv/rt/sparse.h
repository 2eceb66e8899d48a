// Dense reference model of the assembled matrices, and random (block) operations.
#pragma once
#include <harness.h>
namespace gfvh {
using Sp = Eigen::SparseMatrix<double>;

template <class S>
D2 dense(const S& m)
{
    D2 r = xt::zeros<double>({(size_t)m.rows(), (size_t)m.cols()});
    for (int i = 0; i < m.rows(); ++i)
        for (int j = 0; j < m.cols(); ++j)
            r(i, j) = m.coeff(i, j);
    return r;
}

/// sum of all element-matrix entries per pair of DOFs
inline D2 assembled(const Topo& t, const D3& em)
{
    D2 r = xt::zeros<double>({t.ndof, t.ndof});
    for (size_t e = 0; e < t.nelem; ++e)
        for (size_t m = 0; m < t.nne; ++m)
            for (size_t i = 0; i < t.ndim; ++i)
                for (size_t n = 0; n < t.nne; ++n)
                    for (size_t j = 0; j < t.ndim; ++j)
                        r(t.dofs(t.conn(e, m), i), t.dofs(t.conn(e, n), j)) += em(e, m * t.ndim + i, n * t.ndim + j);
    return r;
}

struct Block {
    U1 rows, cols;
    D2 m;
};

/// random rows and columns, in any order, possibly repeated
inline Block block(Case& c, size_t n)
{
    Block b;
    for (U1* v : {&b.rows, &b.cols}) {
        size_t k = c.i(1, 5);
        *v = xt::zeros<size_t>({k});
        for (size_t i = 0; i < k; ++i)
            (*v)(i) = c.i(0, n - 1);
    }
    b.m = xt::zeros<double>({b.rows.size(), b.cols.size()});
    c.randomise(b.m);
    c.inputa("rows", b.rows);
    c.inputa("cols", b.cols);
    c.inputa("matrix", b.m);
    return b;
}

inline void addto(D2& r, const Block& b)
{
    for (size_t i = 0; i < b.rows.size(); ++i)
        for (size_t j = 0; j < b.cols.size(); ++j)
            r(b.rows(i), b.cols(j)) += b.m(i, j);
}

inline D1 mul(const D2& A, const D1& x)
{
    D1 r = xt::zeros<double>({A.shape(0)});
    for (size_t i = 0; i < A.shape(0); ++i)
        for (size_t j = 0; j < A.shape(1); ++j)
            r(i) += A(i, j) * x(j);
    return r;
}

inline D2 tonode(const Topo& t, const D1& y)
{
    D2 r = xt::zeros<double>({t.nnode, t.ndim});
    for (size_t m = 0; m < t.nnode; ++m)
        for (size_t i = 0; i < t.ndim; ++i)
            r(m, i) = y(t.dofs(m, i));
    return r;
}

inline D3 elemmat(Case& c, const Topo& t)
{
    D3 em = xt::zeros<double>({t.nelem, t.nne * t.ndim, t.nne * t.ndim});
    c.randomise(em);
    c.inputa("elemmat", em);
    return em;
}

/// one random modification of matrix M and of its reference
template <class M>
void modify(Case& c, const Topo& t, M& A, D2& ref)
{
    size_t op = c.i(0, 2);
    if (op == 0) {
        c.input("op", "assemble");
        D3 em = elemmat(c, t);
        A.assemble(em);
        ref = assembled(t, em);
    }
    else {
        c.input("op", op == 1 ? "set" : "add");
        Block b = block(c, t.ndof);
        if (op == 1) {
            A.set(b.rows, b.cols, b.m);
            ref.fill(0.0);
        }
        else {
            A.add(b.rows, b.cols, b.m);
        }
        addto(ref, b);
    }
}
} // namespace gfvh
