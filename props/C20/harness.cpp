#include <harness.h>
using namespace gfvh;
namespace Q4 = GooseFEM::Mesh::Quad4;

static void refine(Case& c)
{
    size_t X = c.i(1, 5), Y = c.i(1, 5), nx = c.i(1, 5), ny = c.i(1, 5);
    double h = c.coin() ? 1.0 : c.real(0.1, 2.0);
    c.input("nelx", X);
    c.input("nely", Y);
    c.input("nx", nx);
    c.input("ny", ny);
    Q4::Regular mesh(X, Y, h);
    Q4::Map::RefineRegular r(mesh, nx, ny);
    c.eq("nx", r.nx(), nx);
    c.eq("ny", r.ny(), ny);
    auto co = r.coarseMesh(), fi = r.fineMesh();
    c.eq("coarse mesh: nelx", co.nelx(), X);
    c.eq("coarse mesh: nely", co.nely(), Y);
    c.eq("coarse mesh: h", co.h(), h);
    c.eq("fine mesh: nelx", fi.nelx(), X * nx);
    c.eq("fine mesh: nely", fi.nely(), Y * ny);
    U2 m = r.map(), g = fi.elementgrid();
    c.shape("map", m, std::vector<size_t>{X * Y, nx * ny});
    c.same("getMap", r.getMap(), m);
    for (size_t i = 0; i < Y; ++i)
        for (size_t j = 0; j < X; ++j)
            for (size_t a = 0; a < ny; ++a)
                for (size_t b = 0; b < nx; ++b)
                    c.eq("map", m(i * X + j, a * nx + b), g(i * ny + a, j * nx + b));
    auto fields = [&](auto zero, size_t t) {
        using T = decltype(zero);
        auto sh = zero.shape();
        (void)t;
        T cf = T::from_shape(sh);
        c.randomise(cf);
        T f = r.mapToFine(cf);
        c.eq("mapToFine: size", f.shape(0), X * Y * nx * ny);
        T back = r.meanToCoarse(f);
        c.allclose("mapping to fine and averaging back", back, cf, 1e-9);
        T w = T::from_shape(f.shape()), d = w;
        c.randomise(d);
        for (auto& v : w)
            v = (double)c.i(1, 9);
        T wb = r.averageToCoarse(f, w);
        c.allclose("mapping to fine and taking the weighted average", wb, cf, 1e-9);
        T mean = r.meanToCoarse(d), av = r.averageToCoarse(d, w);
        size_t n = 1;
        for (size_t k = 1; k < sh.size(); ++k)
            n *= sh[k];
        for (size_t e = 0; e < X * Y; ++e)
            for (size_t q = 0; q < n; ++q) {
                double s = 0, sw = 0, swd = 0;
                for (size_t k = 0; k < nx * ny; ++k) {
                    size_t p = m(e, k) * n + q;
                    c.eq("mapToFine", f.data()[p], cf.data()[e * n + q]);
                    s += d.data()[p];
                    sw += w.data()[p];
                    swd += w.data()[p] * d.data()[p];
                }
                c.close("meanToCoarse", mean.data()[e * n + q], s / (nx * ny), 1e-9, 100);
                c.close("averageToCoarse", av.data()[e * n + q], swd / sw, 1e-9, 100);
            }
    };
    size_t a = c.i(1, 3), b = c.i(1, 3);
    fields(D1(D1::shape_type{X * Y}), 0);
    fields(D2(D2::shape_type{X * Y, a}), a);
    fields(D3(D3::shape_type{X * Y, a, b}), a * b);
}

/// area of a convex polygon inside the unit cell at (x, y)
static double overlap(std::vector<std::array<double, 2>> p, double x, double y)
{
    for (int side = 0; side < 4; ++side) {
        auto in = [&](const std::array<double, 2>& q) {
            return side == 0 ? q[0] - x : side == 1 ? x + 1 - q[0] : side == 2 ? q[1] - y : y + 1 - q[1];
        };
        std::vector<std::array<double, 2>> r;
        for (size_t i = 0; i < p.size(); ++i) {
            auto &a = p[i], &b = p[(i + 1) % p.size()];
            double u = in(a), v = in(b);
            if (u >= 0)
                r.push_back(a);
            if ((u > 0 && v < 0) || (u < 0 && v > 0)) {
                double t = u / (u - v);
                r.push_back({a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])});
            }
        }
        p = r;
        if (p.empty())
            return 0;
    }
    double s = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        auto &a = p[i], &b = p[(i + 1) % p.size()];
        s += 0.5 * (a[0] * b[1] - a[1] * b[0]);
    }
    return s;
}

static void fine(Case& c)
{
    static const size_t widths[] = {1, 2, 3, 4, 6, 9, 12, 18, 27, 36, 54, 81};
    size_t X = widths[c.i(0, c.coin() ? 7 : 11)], Y = c.coin(4) ? c.i(30, 60) : c.i(1, 25), nf = c.coin() ? 1 : c.i(0, 6);
    double h = c.coin() ? 1.0 : c.real(0.1, 2.0);
    c.input("nelx", X);
    c.input("nely", Y);
    c.input("nfine", nf);
    c.input("h", h);
    Q4::FineLayer mesh(X, Y, h, nf);
    Q4::Map::FineLayer2Regular r(mesh);
    auto reg = r.regularMesh();
    size_t W = mesh.nelx(), H = mesh.nely();
    c.eq("regular mesh: nelx", reg.nelx(), X);
    c.eq("regular mesh: nely", reg.nely(), H);
    c.eq("regular mesh: h", reg.h(), h);
    c.same("fine-layer mesh", r.fineLayerMesh().conn(), mesh.conn());
    auto m = r.map();
    auto f = r.mapFraction();
    c.eq("map: number of elements", m.size(), mesh.nelem());
    c.eq("fractions: number of elements", f.size(), mesh.nelem());
    c.expect("getMap", r.getMap() == m && r.getMapFraction() == f);
    D2 x = mesh.coor();
    U2 e = mesh.conn();
    D1 total = xt::zeros<double>({reg.nelem()});
    for (size_t i = 0; i < mesh.nelem(); ++i) {
        std::vector<std::array<double, 2>> p;
        double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
        for (size_t k = 0; k < 4; ++k) {
            p.push_back({std::round(x(e(i, k), 0) / h), std::round(x(e(i, k), 1) / h)});
            for (size_t j = 0; j < 2; ++j) {
                lo[j] = std::min(lo[j], p[k][j]);
                hi[j] = std::max(hi[j], p[k][j]);
            }
        }
        c.eq("map: size, element " + str(i), m[i].size(), f[i].size());
        std::map<size_t, double> got;
        for (size_t k = 0; k < m[i].size(); ++k) {
            c.expect("map: element of the regular mesh", m[i][k] < reg.nelem());
            c.expect("map: every element once", got.count(m[i][k]) == 0, "element " + str(i));
            got[m[i][k]] = f[i][k];
            total(m[i][k]) += f[i][k];
        }
        size_t n = 0;
        for (size_t b = lo[1]; b < hi[1]; ++b)
            for (size_t a = lo[0]; a < hi[0]; ++a) {
                double s = overlap(p, a, b);
                if (s > 1e-9) {
                    n++;
                    c.expect("map: overlapping element", got.count(b * W + a) == 1, "element " + str(i) + " regular " + str(b * W + a));
                    c.close("fraction of element " + str(i), got[b * W + a], s);
                }
            }
        c.eq("map: no other elements", got.size(), n);
    }
    for (double v : total)
        c.close("fractions of a regular element", v, 1.0);
    D1 one = 3.5 * xt::ones<double>({mesh.nelem()});
    c.allclose("mapping preserves constants", r.mapToRegular(one), D1(3.5 * xt::ones<double>({reg.nelem()})));
    size_t t = c.i(1, 3);
    D2 d = D2::from_shape({mesh.nelem(), t});
    D3 d3 = D3::from_shape({mesh.nelem(), t, 2});
    c.randomise(d);
    c.randomise(d3);
    D2 g = xt::zeros<double>({reg.nelem(), t});
    D3 g3 = xt::zeros<double>({reg.nelem(), t, size_t(2)});
    for (size_t i = 0; i < mesh.nelem(); ++i)
        for (size_t k = 0; k < m[i].size(); ++k)
            for (size_t j = 0; j < t; ++j) {
                g(m[i][k], j) += f[i][k] * d(i, j);
                for (size_t l = 0; l < 2; ++l)
                    g3(m[i][k], j, l) += f[i][k] * d3(i, j, l);
            }
    c.allclose("mapToRegular", r.mapToRegular(d), g);
    c.allclose("mapToRegular, rank 3", r.mapToRegular(d3), g3);
    c.nontrivial = xt::amax(mesh.elemrow_nhx())() > 1;
}

static void body(Case& c)
{
    if (c.coin())
        return refine(c);
    return fine(c);
}

GFVH_MAIN(body, "refinements of regular meshes of 1..5 by 1..5 elements by factors 1..5, fields of rank 1, 2 and 3; fine-layer meshes up to 81 x 60")
