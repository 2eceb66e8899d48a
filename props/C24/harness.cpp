#include <GooseFEM/TyingsPeriodic.h>
#include <harness.h>
using namespace gfvh;

static void matrix(Case& c, const std::string& at, const Eigen::SparseMatrix<double>& m, const D2& e)
{
    c.eq(at + ": rows", (size_t)m.rows(), e.shape(0));
    c.eq(at + ": columns", (size_t)m.cols(), e.shape(1));
    for (size_t i = 0; i < e.shape(0); ++i)
        for (size_t j = 0; j < e.shape(1); ++j)
            c.close(at + "(" + str(i) + ", " + str(j) + ")", m.coeff(i, j), e(i, j), 1e-12);
}

static void range(Case& c, const std::string& at, const U1& a, size_t lo, size_t n)
{
    c.eq(at + ": size", a.size(), n);
    for (size_t i = 0; i < n; ++i)
        c.eq(at + ": entry " + str(i), a(i), lo + i);
}

static void body(Case& c)
{
    using namespace GooseFEM::Tyings;
    size_t ndim = c.i(1, 3), nnode = c.i(2, 9);
    D2 coor0 = D2::from_shape({nnode, ndim});
    c.randomise(coor0);
    // DOFs with gaps, in random order, now and then shared by two nodes
    std::vector<size_t> num;
    size_t gap = c.i(1, 3);
    for (size_t i = 0; i < nnode * ndim; ++i)
        num.push_back(i * gap + c.i(0, gap - 1));
    if (c.coin())
        for (size_t i = num.size(); i-- > 1;)
            std::swap(num[i], num[c.i(0, i)]);
    U2 dofs0 = U2::from_shape({nnode, ndim});
    for (size_t i = 0; i < nnode; ++i)
        for (size_t j = 0; j < ndim; ++j)
            dofs0(i, j) = num[i * ndim + j];
    if (c.coin() && nnode > 3)
        for (size_t j = 0; j < ndim; ++j)
            dofs0(1, j) = dofs0(0, j);

    // control nodes
    Control ctrl(coor0, dofs0);
    D2 coor = ctrl.coor();
    U2 dofs = ctrl.dofs();
    size_t mx = 0;
    for (size_t v : dofs0)
        mx = std::max(mx, v);
    c.eq("Control: number of coordinates", coor.shape(0), nnode + ndim);
    c.eq("Control: dimensions of the coordinates", coor.shape(1), ndim);
    c.eq("Control: number of nodes with DOFs", dofs.shape(0), nnode + ndim);
    c.eq("Control: dimensions of the DOFs", dofs.shape(1), ndim);
    c.eq("Control: number of control nodes", ctrl.controlNodes().size(), ndim);
    for (size_t j = 0; j < ndim; ++j) {
        for (size_t i = 0; i < nnode; ++i) {
            c.eq("Control: coordinates", coor(i, j), coor0(i, j));
            c.eq("Control: DOFs", dofs(i, j), dofs0(i, j));
        }
        for (size_t i = 0; i < ndim; ++i) {
            c.eq("Control: coordinates of the control nodes", coor(nnode + i, j), 0.0);
            c.eq("Control: DOFs of the control nodes", dofs(nnode + i, j), mx + 1 + i * ndim + j);
            c.eq("Control: control DOFs", ctrl.controlDofs()(i, j), mx + 1 + i * ndim + j);
        }
        c.eq("Control: control nodes", ctrl.controlNodes()(j), nnode + j);
    }
    U2 control = ctrl.controlDofs();

    // nodal ties: the last nodes are dependent (never sharing DOFs), in any order
    size_t nties = c.i(nnode > 3 ? 0 : 1, nnode - 2);
    std::vector<size_t> dep;
    for (size_t i = 0; i < nties; ++i)
        dep.push_back(nnode - 1 - i);
    for (size_t i = nties; i-- > 1;)
        std::swap(dep[i], dep[c.i(0, i)]);
    U2 ties = U2::from_shape({nties, size_t(2)});
    for (size_t i = 0; i < nties; ++i) {
        ties(i, 0) = c.i(0, nnode - nties - 1);
        ties(i, 1) = dep[i];
    }
    std::set<size_t> isd;
    std::vector<size_t> iid;
    for (size_t i = 0; i < nties; ++i)
        for (size_t j = 0; j < ndim; ++j) {
            isd.insert(dofs(ties(i, 1), j));
            iid.push_back(dofs(ties(i, 1), j));
        }
    std::vector<size_t> ind;
    {
        std::set<size_t> u(dofs.begin(), dofs.end());
        for (size_t v : u)
            if (!isd.count(v))
                ind.push_back(v);
    }
    std::vector<size_t> pool = ind, iip;
    for (size_t i = pool.size(); i-- > 1;)
        std::swap(pool[i], pool[c.i(0, i)]);
    for (size_t n = c.i(0, pool.size() - 1); n-- > 0;)
        iip.push_back(pool[n]);
    if (c.coin())
        std::sort(iip.begin(), iip.end());
    bool def = iip.empty() && c.coin();
    c.inputa("coor", coor);
    c.inputa("dofs", dofs);
    c.inputa("nodal_tyings", ties);
    U1 p = U1::from_shape({iip.size()});
    std::copy(iip.begin(), iip.end(), p.begin());
    c.inputa("iip", p);
    Periodic t = def ? Periodic(coor, dofs, control, ties) : Periodic(coor, dofs, control, ties, p);

    // the numbering: unknown (ascending), prescribed (as given), dependent (in the order of the ties)
    std::map<size_t, size_t> re;
    std::vector<size_t> iiu;
    for (size_t v : ind)
        if (std::find(iip.begin(), iip.end(), v) == iip.end())
            iiu.push_back(v);
    for (auto* l : {&iiu, &iip, &iid})
        for (size_t v : *l) {
            size_t n = re.size();
            re[v] = n;
        }
    size_t nnu = iiu.size(), nnp = iip.size(), nni = nnu + nnp, nnd = iid.size();
    c.eq("nnu", t.nnu(), nnu);
    c.eq("nnp", t.nnp(), nnp);
    c.eq("nni", t.nni(), nni);
    c.eq("nnd", t.nnd(), nnd);
    range(c, "iiu", t.iiu(), 0, nnu);
    range(c, "iip", t.iip(), nnu, nnp);
    range(c, "iii", t.iii(), 0, nni);
    range(c, "iid", t.iid(), nni, nnd);
    U2 ed = dofs, ec = control;
    for (auto& v : ed)
        v = re.at(v);
    for (auto& v : ec)
        v = re.at(v);
    c.same("dofs", t.dofs(), ed);
    c.same("control", t.control(), ec);
    c.same("nodal_tyings", t.nodal_tyings(), ties);

    D2 e = xt::zeros<double>({nnd, nni});
    for (size_t i = 0; i < nties; ++i)
        for (size_t j = 0; j < ndim; ++j) {
            e(i * ndim + j, ed(ties(i, 0), j)) += 1.0;
            for (size_t k = 0; k < ndim; ++k)
                e(i * ndim + j, ec(j, k)) += coor(ties(i, 1), k) - coor(ties(i, 0), k);
        }
    D2 eu = D2::from_shape({nnd, nnu}), ep = D2::from_shape({nnd, nnp});
    for (size_t i = 0; i < nnd; ++i)
        for (size_t j = 0; j < nni; ++j)
            (j < nnu ? eu(i, j) : ep(i, j - nnu)) = e(i, j);
    matrix(c, "Cdi", t.Cdi(), e);
    matrix(c, "Cdu", t.Cdu(), eu);
    matrix(c, "Cdp", t.Cdp(), ep);
    matrix(c, "Cdi, again", t.Cdi(), e);
}

GFVH_MAIN(body, "up to 9 nodes in 1 to 3 dimensions with any DOF numbers, any ties to independent nodes, any prescribed DOFs")
