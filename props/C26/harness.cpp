#include <harness.h>
using namespace gfvh;
using S = std::vector<size_t>;

template <class T>
static S vec(const T& s) { return S(s.begin(), s.end()); }

template <class T>
static std::string txt(const T& s)
{
    std::string r = "[";
    for (auto i : s)
        r += " " + str(i);
    return r + " ]";
}

template <class T>
static void shp(Case& c, const std::string& what, const T& got, const S& want) { c.eq(what, txt(vec(got)), txt(want)); }

template <class R, class A>
static void broadcast(Case& c, const std::string& what, const R& r, const A& a, const S& tail)
{
    S want = vec(a.shape());
    want.insert(want.end(), tail.begin(), tail.end());
    shp(c, what + ": shape", r.shape(), want);
    size_t n = 1, k = 0;
    for (auto i : tail)
        n *= i;
    c.eq(what + ": size", r.size(), n * a.size());
    auto it = r.begin();
    for (auto v : a)
        for (size_t i = 0; i < n; ++i, ++it, ++k)
            c.eq(what + ": entry " + str(k), *it, v);
}

template <class T, class V>
static void filled(Case& c, const std::string& what, const T& got, const S& want, V v)
{
    shp(c, what + ": shape", got.shape(), want);
    size_t n = 1;
    for (auto i : want)
        n *= i;
    c.eq(what + ": size", got.size(), n);
    for (auto x : got)
        c.eq(what + ": value", x, v);
}

template <class Q>
static void element(Case& c, const std::string& e, size_t nne, size_t nd, size_t td)
{
    size_t nelem = c.i(0, 4), nip = c.i(1, 4), n = c.i(0, 4);
    D3 x = xt::zeros<double>({nelem, nne, nd});
    for (auto& v : x)
        v = c.real(0.1, 1);
    D2 xi = xt::zeros<double>({nip, nd});
    for (auto& v : xi)
        v = c.real(-1, 1);
    D1 w = xt::ones<double>({nip});
    c.input(e + ": nelem", nelem), c.input("nip", nip), c.input("n", n);
    Q q(x, xi, w);
    c.eq(e + ": nelem", size_t(q.nelem()), nelem);
    c.eq(e + ": nne", size_t(q.nne()), nne);
    c.eq(e + ": ndim", size_t(q.ndim()), nd);
    c.eq(e + ": tdim", size_t(q.tdim()), td);
    c.eq(e + ": nip", size_t(q.nip()), nip);
    S elemvec{nelem, nne, nd}, elemmat{nelem, nne * nd, nne * nd};
    auto tensor = [&](size_t r, size_t t) {
        S s{nelem, nip};
        s.insert(s.end(), r, t);
        return s;
    };
    shp(c, e + ": shape_elemvec", q.shape_elemvec(), elemvec);
    shp(c, e + ": shape_elemvec(n)", q.shape_elemvec(n), S{nelem, nne, n});
    shp(c, e + ": shape_elemmat", q.shape_elemmat(), elemmat);
    shp(c, e + ": shape_qscalar", q.shape_qscalar(), tensor(0, td));
    shp(c, e + ": shape_qvector", q.shape_qvector(), tensor(1, td));
    shp(c, e + ": shape_qvector(n)", q.shape_qvector(n), tensor(1, n));
    shp(c, e + ": shape_qtensor<0>", q.template shape_qtensor<0>(), tensor(0, td));
    shp(c, e + ": shape_qtensor<1>", q.template shape_qtensor<1>(), tensor(1, td));
    shp(c, e + ": shape_qtensor<2>", q.template shape_qtensor<2>(), tensor(2, td));
    shp(c, e + ": shape_qtensor<3>", q.template shape_qtensor<3>(), tensor(3, td));
    shp(c, e + ": shape_qtensor<4>", q.template shape_qtensor<4>(), tensor(4, td));
    shp(c, e + ": shape_qtensor<2>(2, n)", q.template shape_qtensor<2>(2, n), tensor(2, n));
    double v = c.real();
    for (size_t r = 0; r < 6; ++r) {
        shp(c, e + ": shape_qtensor(" + str(r) + ")", q.shape_qtensor(r), tensor(r, td));
        shp(c, e + ": shape_qtensor(" + str(r) + ", n)", q.shape_qtensor(r, n), tensor(r, n));
        shp(c, e + ": allocate_qtensor(" + str(r) + ")", q.template allocate_qtensor<double>(r).shape(), tensor(r, td));
        filled(c, e + ": allocate_qtensor(" + str(r) + ", val)", q.template allocate_qtensor<double>(r, v), tensor(r, td), v);
        filled(c, e + ": allocate_qtensor(" + str(r) + ", int)", q.template allocate_qtensor<int>(r, 3), tensor(r, td), 3);
    }
    shp(c, e + ": allocate_elemvec", q.template allocate_elemvec<double>().shape(), elemvec);
    shp(c, e + ": allocate_elemmat", q.template allocate_elemmat<double>().shape(), elemmat);
    shp(c, e + ": allocate_qscalar", q.template allocate_qscalar<double>().shape(), tensor(0, td));
    shp(c, e + ": allocate_qtensor<2>", q.template allocate_qtensor<2, double>().shape(), tensor(2, td));
    filled(c, e + ": allocate_elemvec(val)", q.template allocate_elemvec<double>(v), elemvec, v);
    filled(c, e + ": allocate_elemmat(val)", q.template allocate_elemmat<double>(v), elemmat, v);
    filled(c, e + ": allocate_qscalar(val)", q.template allocate_qscalar<double>(v), tensor(0, td), v);
    filled(c, e + ": allocate_qtensor<1>(val)", q.template allocate_qtensor<1, double>(v), tensor(1, td), v);
    filled(c, e + ": allocate_qtensor<2>(val)", q.template allocate_qtensor<2, double>(v), tensor(2, td), v);
    filled(c, e + ": allocate_qtensor<4>(val)", q.template allocate_qtensor<4, double>(v), tensor(4, td), v);
    filled(c, e + ": allocate_elemvec<int>(val)", q.template allocate_elemvec<int>(-2), elemvec, -2);
    D2 a = xt::zeros<double>({nelem, nip});
    for (auto& z : a)
        z = c.real();
    broadcast(c, e + ": AsTensor<1>", q.template AsTensor<1>(a), a, S(1, td));
    broadcast(c, e + ": AsTensor<2>", q.template AsTensor<2>(a), a, S(2, td));
    broadcast(c, e + ": AsTensor<4>", q.template AsTensor<4>(a), a, S(4, td));
    for (size_t r = 0; r < 5; ++r)
        broadcast(c, e + ": AsTensor(" + str(r) + ")", q.AsTensor(r, a), a, S(r, td));
    xt::xtensor<double, 4> o = xt::zeros<double>({nelem, nip, td, td});
    c.poison(o);
    q.asTensor(a, o);
    broadcast(c, e + ": asTensor", o, a, S(2, td));
    shp(c, e + ": dV", q.dV().shape(), tensor(0, td));
    D3 u = xt::zeros<double>({nelem, nne, nd});
    shp(c, e + ": InterpQuad_vector", q.InterpQuad_vector(u).shape(), tensor(1, nd));
    shp(c, e + ": GradN_vector", q.GradN_vector(u).shape(), tensor(2, td));
    shp(c, e + ": Int_N_vector_dV", q.Int_N_vector_dV(xt::xtensor<double, 3>(q.InterpQuad_vector(u))).shape(), elemvec);
    shp(c, e + ": Int_N_scalar_NT_dV", q.Int_N_scalar_NT_dV(a).shape(), elemmat);
    shp(c, e + ": Int_gradN_dot_tensor2_dV", q.Int_gradN_dot_tensor2_dV(o).shape(), elemvec);
    shp(c, e + ": Int_gradN_dot_tensor4_dot_gradNT_dV", q.Int_gradN_dot_tensor4_dot_gradNT_dV(q.template AsTensor<4>(a)).shape(), elemmat);
}

static void body(Case& c)
{
    size_t n0 = c.i(0, 4), n1 = c.i(1, 4), n = c.i(0, 4), m = c.i(1, 3);
    D2 a = xt::zeros<double>({n0, n1});
    for (auto& v : a)
        v = c.real();
    c.inputa("a", a), c.input("n", n), c.input("m", m);
    broadcast(c, "AsTensor<0>", GooseFEM::AsTensor<0>(a, n), a, S(0, n));
    broadcast(c, "AsTensor<1>", GooseFEM::AsTensor<1>(a, n), a, S(1, n));
    broadcast(c, "AsTensor<2>", GooseFEM::AsTensor<2>(a, n), a, S(2, n));
    broadcast(c, "AsTensor<3>", GooseFEM::AsTensor<3>(a, n), a, S(3, n));
    broadcast(c, "AsTensor<4>", GooseFEM::AsTensor<4>(a, n), a, S(4, n));
    for (size_t r = 0; r < 5; ++r)
        broadcast(c, "AsTensor(" + str(r) + ")", GooseFEM::AsTensor(r, a, n), a, S(r, n));
    broadcast(c, "AsTensor({n, m})", GooseFEM::AsTensor(a, {n, m}), a, S{n, m});
    broadcast(c, "AsTensor(array)", GooseFEM::AsTensor(a, std::array<size_t, 3>{m, n, 2}), a, S{m, n, 2});
    broadcast(c, "AsTensor(vector)", GooseFEM::AsTensor(a, S{m, n, 2}), a, S{m, n, 2});
    D1 b = xt::ravel(a);
    broadcast(c, "AsTensor of a list", GooseFEM::AsTensor(b, std::array<size_t, 2>{n, m}), b, S{n, m});
    xt::xarray<double> xa = a;
    broadcast(c, "AsTensor of xarray", GooseFEM::AsTensor(2, xa, n), a, S{n, n});
    xt::xarray<double> xr = xt::zeros<double>({n0, n1, m, n});
    GooseFEM::asTensor(xa, xr);
    broadcast(c, "asTensor of xarray", xr, a, S{m, n});
    xt::xtensor<int, 2> ia = xt::zeros<int>({n0, n1});
    for (auto& v : ia)
        v = c.i(0, 9);
    broadcast(c, "AsTensor of integers", GooseFEM::AsTensor<2>(ia, n), ia, S(2, n));

    for (size_t d = 1; d < 4; ++d) {
        D2 u = xt::zeros<double>({n0, d});
        for (auto& v : u)
            v = c.real();
        c.inputa("u", u);
        D2 r = GooseFEM::as3d(u);
        shp(c, "as3d: shape", r.shape(), S{n0, 3});
        for (size_t i = 0; i < n0; ++i)
            for (size_t j = 0; j < 3; ++j)
                c.eq("as3d of " + str(d) + " components: " + str(i) + ", " + str(j), r(i, j), j < d ? u(i, j) : 0.0);
    }

    {
        size_t nnode = c.i(1, 7), nelem = c.i(0, 5), nne = c.i(1, 4), ndim = c.i(1, 3);
        xt::xtensor<size_t, 2> conn = xt::zeros<size_t>({nelem, nne}), dofs = xt::zeros<size_t>({nnode, ndim});
        for (auto& v : conn)
            v = c.i(0, nnode - 1);
        size_t ndof = 0;
        for (auto& v : dofs) {
            v = c.i(0, nnode * ndim - 1);
            ndof = std::max<size_t>(ndof, v + 1);
        }
        c.inputa("conn", conn), c.inputa("dofs", dofs);
        GooseFEM::Vector v(conn, dofs);
        S d{ndof}, nv{nnode, ndim}, ev{nelem, nne, ndim}, em{nelem, nne * ndim, nne * ndim};
        double x = c.real();
        shp(c, "shape_dofval", v.shape_dofval(), d);
        shp(c, "shape_nodevec", v.shape_nodevec(), nv);
        shp(c, "shape_elemvec", v.shape_elemvec(), ev);
        shp(c, "shape_elemmat", v.shape_elemmat(), em);
        shp(c, "allocate_dofval", v.allocate_dofval().shape(), d);
        shp(c, "allocate_nodevec", v.allocate_nodevec().shape(), nv);
        shp(c, "allocate_elemvec", v.allocate_elemvec().shape(), ev);
        shp(c, "allocate_elemmat", v.allocate_elemmat().shape(), em);
        filled(c, "allocate_dofval(val)", v.allocate_dofval(x), d, x);
        filled(c, "allocate_nodevec(val)", v.allocate_nodevec(x), nv, x);
        filled(c, "allocate_elemvec(val)", v.allocate_elemvec(x), ev, x);
        filled(c, "allocate_elemmat(val)", v.allocate_elemmat(x), em, x);
        shp(c, "AsDofs", v.AsDofs(v.allocate_nodevec(x)).shape(), d);
        shp(c, "AsNode", v.AsNode(v.allocate_dofval(x)).shape(), nv);
        shp(c, "AsElement", v.AsElement(v.allocate_nodevec(x)).shape(), ev);
    }

    element<GooseFEM::Element::Quad4::Quadrature>(c, "Quad4", 4, 2, 2);
    element<GooseFEM::Element::Quad4::QuadraturePlanar>(c, "Quad4Planar", 4, 2, 3);
    element<GooseFEM::Element::Quad4::QuadratureAxisymmetric>(c, "Quad4Axisymmetric", 4, 2, 3);
    element<GooseFEM::Element::Hex8::Quadrature>(c, "Hex8", 8, 3, 3);
}

GFVH_MAIN(body, "random sizes (also zero elements, nodes and components) and values; non-trivial: always")
