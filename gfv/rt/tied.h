// Random system with unknown, prescribed and dependent DOFs (in that order), tied by C_di = [C_du C_dp].
#pragma once
#include <harness.h>
namespace gfvh {
using Sp = Eigen::SparseMatrix<double>;
inline Sp randsparse(Case& c, size_t r, size_t n, int style)
{
    std::vector<Eigen::Triplet<double>> t;
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < n; ++j)
            if (c.coin(style))
                t.push_back(Eigen::Triplet<double>((int)i, (int)j, c.whole(9)));
    Sp m(r, n);
    m.setFromTriplets(t.begin(), t.end());
    return m;
}
inline double at(const Sp& m, size_t i, size_t j)
{
    return m.coeff((int)i, (int)j);
}
struct Tied : Topo {
    size_t nu, np, nd, ni;
    Sp Cdu, Cdp, Cdi;
};
/// every dependent DOF is in the DOF-table, and the highest DOF too
inline Tied tied(Case& c, size_t maxnode = 9, size_t maxelem = 5)
{
    Tied t;
    static_cast<Topo&>(t) = topology(c, (int)c.i(0, 1), maxnode, maxelem);
    t.nd = c.i(0, t.ndof);
    t.np = c.i(0, t.ndof - t.nd);
    t.nu = t.ndof - t.nd - t.np;
    t.ni = t.nu + t.np;
    int style = (int)c.i(1, 3);
    t.Cdu = randsparse(c, t.nd, t.nu, style);
    t.Cdp = randsparse(c, t.nd, t.np, style);
    t.Cdi = Sp(t.nd, t.ni);
    std::vector<Eigen::Triplet<double>> tr;
    for (size_t i = 0; i < t.nd; ++i) {
        for (size_t j = 0; j < t.nu; ++j)
            if (at(t.Cdu, i, j) != 0)
                tr.push_back(Eigen::Triplet<double>((int)i, (int)j, at(t.Cdu, i, j)));
        for (size_t j = 0; j < t.np; ++j)
            if (at(t.Cdp, i, j) != 0)
                tr.push_back(Eigen::Triplet<double>((int)i, (int)(t.nu + j), at(t.Cdp, i, j)));
    }
    t.Cdi.setFromTriplets(tr.begin(), tr.end());
    c.input("nu", t.nu);
    c.input("np", t.np);
    c.input("nd", t.nd);
    c.input("Cdi", Eigen::MatrixXd(t.Cdi));
    return t;
}
} // namespace gfvh
