#include <harness.h>
using namespace gfvh;
using GooseFEM::VectorPartitioned;

static void body(Case& c)
{
    Topo t = topology(c);
    // distinct prescribed DOFs in any order: possibly none or all
    U1 iip = subset(c, t.ndof);
    c.inputa("iip", iip);
    c.nontrivial = iip.size() > 0 && t.ndof > iip.size();
    VectorPartitioned v(t.conn, t.dofs, iip);
    std::set<size_t> pset(iip.begin(), iip.end()), used(t.dofs.begin(), t.dofs.end());
    std::vector<size_t> iu;
    for (size_t d : used)
        if (!pset.count(d))
            iu.push_back(d);
    size_t nu = iu.size(), np = iip.size();
    U1 iiu = xt::zeros<size_t>({nu});
    std::copy(iu.begin(), iu.end(), iiu.begin());
    c.same("iiu", v.iiu(), iiu);
    c.same("iip", v.iip(), iip);
    c.eq("nnu", v.nnu(), nu);
    c.eq("nnp", v.nnp(), np);
    D1 x = xt::zeros<double>({t.ndof});
    D2 z = xt::zeros<double>({t.nnode, t.ndim}), w = z;
    c.randomise(x, 1000);
    c.randomise(z, 1000);
    c.randomise(w, 1000);
    c.inputa("dofval", x);
    xt::xtensor<bool, 2> mu = xt::zeros<bool>({t.nnode, t.ndim}), mp = mu;
    D2 cu = w, cp = w;
    D2 nv = z;
    for (size_t m = 0; m < t.nnode; ++m)
        for (size_t i = 0; i < t.ndim; ++i) {
            bool p = pset.count(t.dofs(m, i));
            mu(m, i) = !p;
            mp(m, i) = p;
            (p ? cp : cu)(m, i) = z(m, i);
            nv(m, i) = x(t.dofs(m, i));
        }
    c.same("dofs_is_u", v.dofs_is_u(), mu);
    c.same("dofs_is_p", v.dofs_is_p(), mp);
    c.same("Copy_u", v.Copy_u(z, w), cu);
    c.same("Copy_p", v.Copy_p(z, w), cp);
    D2 o2 = w;
    v.copy_u(z, o2), c.same("copy_u", o2, cu);
    o2 = w;
    v.copy_p(z, o2), c.same("copy_p", o2, cp);
    // parts
    D1 xu = xt::zeros<double>({nu}), xp = xt::zeros<double>({np}), eu = xu, ep = xp;
    D3 ev = xt::zeros<double>({t.nelem, t.nne, t.ndim});
    std::set<size_t> eused;
    for (size_t e = 0; e < t.nelem; ++e)
        for (size_t m = 0; m < t.nne; ++m)
            for (size_t i = 0; i < t.ndim; ++i) {
                ev(e, m, i) = x(t.dofs(t.conn(e, m), i));
                eused.insert(t.dofs(t.conn(e, m), i));
            }
    for (size_t k = 0; k < nu; ++k) {
        xu(k) = x(iiu(k));
        eu(k) = eused.count(iiu(k)) ? xu(k) : 0.0;
    }
    D1 xpn = xp;
    for (size_t k = 0; k < np; ++k) {
        xp(k) = x(iip(k));
        ep(k) = eused.count(iip(k)) ? xp(k) : 0.0;
        xpn(k) = used.count(iip(k)) ? xp(k) : 0.0;
    }
    D1 ou = xu, op = xp;
    c.same("AsDofs_u(dofval)", v.AsDofs_u(x), xu);
    c.same("AsDofs_p(dofval)", v.AsDofs_p(x), xp);
    c.same("AsDofs_u(nodevec)", v.AsDofs_u(nv), xu);
    c.same("AsDofs_p(nodevec)", v.AsDofs_p(nv), xpn);
    c.same("AsDofs_u(elemvec)", v.AsDofs_u(ev), eu);
    c.same("AsDofs_p(elemvec)", v.AsDofs_p(ev), ep);
    c.poison(ou), v.asDofs_u(x, ou), c.same("asDofs_u(dofval)", ou, xu);
    c.poison(op), v.asDofs_p(x, op), c.same("asDofs_p(dofval)", op, xp);
    c.poison(ou), v.asDofs_u(nv, ou), c.same("asDofs_u(nodevec)", ou, xu);
    c.poison(op), v.asDofs_p(nv, op), c.same("asDofs_p(nodevec)", op, xpn);
    c.poison(ou), v.asDofs_u(ev, ou), c.same("asDofs_u(elemvec)", ou, eu);
    c.poison(op), v.asDofs_p(ev, op), c.same("asDofs_p(elemvec)", op, ep);
    // recombination
    D1 full = xt::zeros<double>({t.ndof}), od = full;
    for (size_t d = 0; d < t.ndof; ++d)
        if (used.count(d) || pset.count(d))
            full(d) = x(d);
    D3 oe = ev;
    c.same("DofsFromParitioned", v.DofsFromParitioned(xu, xp), full);
    c.poison(od), v.dofsFromParitioned(xu, xp, od), c.same("dofsFromParitioned", od, full);
    c.same("NodeFromPartitioned", v.NodeFromPartitioned(xu, xp), nv);
    c.poison(o2), v.nodeFromPartitioned(xu, xp, o2), c.same("nodeFromPartitioned", o2, nv);
    c.same("ElementFromPartitioned", v.ElementFromPartitioned(xu, xp), ev);
    c.poison(oe), v.elementFromPartitioned(xu, xp, oe), c.same("elementFromPartitioned", oe, ev);
}
GFVH_MAIN(body, "random connectivity and DOF-table (permuted, tied, or with unused DOFs) and a random list of distinct prescribed DOFs in random order (also empty and all); non-trivial: both parts are non-empty; distinct by hash of all inputs")
