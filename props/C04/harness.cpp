#include <tied.h>
#include <GooseFEM/VectorPartitionedTyings.h>
using namespace gfvh;
using GooseFEM::VectorPartitionedTyings;

static void body(Case& c)
{
    Tied t = tied(c);
    c.nontrivial = t.nd > 0 && t.ni > 0;
    VectorPartitionedTyings v(t.conn, t.dofs, t.Cdu, t.Cdp, t.Cdi);
    c.eq("nnu", v.nnu(), t.nu);
    c.eq("nnp", v.nnp(), t.np);
    c.eq("nni", v.nni(), t.ni);
    c.eq("nnd", v.nnd(), t.nd);
    U1 iiu = xt::zeros<size_t>({t.nu}), iip = xt::zeros<size_t>({t.np}), iii = xt::zeros<size_t>({t.ni}), iid = xt::zeros<size_t>({t.nd});
    for (size_t k = 0; k < t.nu; ++k)
        iiu(k) = k;
    for (size_t k = 0; k < t.np; ++k)
        iip(k) = t.nu + k;
    for (size_t k = 0; k < t.ni; ++k)
        iii(k) = k;
    for (size_t k = 0; k < t.nd; ++k)
        iid(k) = t.ni + k;
    c.same("iiu", v.iiu(), iiu);
    c.same("iip", v.iip(), iip);
    c.same("iii", v.iii(), iii);
    c.same("iid", v.iid(), iid);
    D1 y = xt::zeros<double>({t.ndof});
    c.randomise(y, 100);
    c.inputa("dofval", y);
    D2 x = xt::zeros<double>({t.nnode, t.ndim});
    for (size_t m = 0; m < t.nnode; ++m)
        for (size_t i = 0; i < t.ndim; ++i)
            x(m, i) = y(t.dofs(m, i));
    D1 plain = xt::zeros<double>({t.ni}), full = plain, o = plain;
    for (size_t i = 0; i < t.ni; ++i) {
        plain(i) = y(i);
        full(i) = y(i);
        for (size_t d = 0; d < t.nd; ++d)
            full(i) += at(t.Cdi, d, i) * y(t.ni + d);
    }
    c.same("AsDofs_i", v.AsDofs_i(x), full);
    c.poison(o), v.asDofs_i(x, o), c.same("asDofs_i", o, full);
    c.poison(o), v.asDofs_i(x, o, true), c.same("asDofs_i(true)", o, full);
    c.poison(o), v.asDofs_i(x, o, false), c.same("asDofs_i(false)", o, plain);
    // inherited conversions see the same DOFs
    c.same("AsNode", v.AsNode(y), x);
    for (int a = 0; a < 2; ++a)
        for (int b = 0; b < 2; ++b) {
            D1 src = xt::zeros<double>({a ? t.ndof : t.ni}), dst = xt::zeros<double>({b ? t.ndof : t.ni});
            c.randomise(src, 100);
            c.randomise(dst, 100);
            D1 e = dst;
            for (size_t k = t.nu; k < t.ni; ++k)
                e(k) = src(k);
            v.copy_p(src, dst);
            c.same("copy_p", dst, e);
        }
}
GFVH_MAIN(body, "random connectivity, DOF-table (permuted or tied, all DOFs used), split in unknown/prescribed/dependent DOFs (each possibly empty), random sparse tying matrices; non-trivial: dependent and independent DOFs exist; distinct by hash of all inputs")
