// Reference of an isoparametric (bi/tri-linear) element: random geometries and schemes, and the textbook formulas.
#pragma once
#include <harness.h>
namespace gfvh {

static const double corner8[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};

namespace G4 = GooseFEM::Element::Quad4;
namespace G8 = GooseFEM::Element::Hex8;

template <class Q> struct Traits;
template <> struct Traits<G4::Quadrature> {
    static constexpr size_t nne = 4, nd = 2, td = 2;
    static constexpr char k = 'q';
};
template <> struct Traits<G4::QuadraturePlanar> {
    static constexpr size_t nne = 4, nd = 2, td = 3;
    static constexpr char k = 'p';
};
template <> struct Traits<G4::QuadratureAxisymmetric> {
    static constexpr size_t nne = 4, nd = 2, td = 3;
    static constexpr char k = 'a';
};
template <> struct Traits<G8::Quadrature> {
    static constexpr size_t nne = 8, nd = 3, td = 3;
    static constexpr char k = 'h';
};

/// non-degenerate elements: an affine map of the reference element, with perturbed corners
template <class Q>
D3 geometry(Case& c, size_t nelem, bool affine = false)
{
    using T = Traits<Q>;
    D3 x = xt::zeros<double>({nelem, T::nne, T::nd});
    for (size_t e = 0; e < nelem; ++e) {
        double F[3][3], det;
        do {
            for (auto& r : F)
                for (auto& v : r)
                    v = c.real(-1.5, 1.5);
            det = T::nd == 2 ? F[0][0] * F[1][1] - F[0][1] * F[1][0] :
                F[0][0] * (F[1][1] * F[2][2] - F[1][2] * F[2][1]) - F[0][1] * (F[1][0] * F[2][2] - F[1][2] * F[2][0]) +
                    F[0][2] * (F[1][0] * F[2][1] - F[1][1] * F[2][0]);
        } while (std::abs(det) < 0.5);
        // mostly positively oriented
        if (det < 0 && !c.coin(5))
            for (size_t j = 0; j < T::nd; ++j)
                F[j][0] = -F[j][0];
        double shift[3] = {c.real(-3, 3), c.real(-3, 3) + (T::k == 'a' ? 8 : 0), c.real(-3, 3)};
        double amp = affine ? 0 : 0.08;
        for (size_t m = 0; m < T::nne; ++m)
            for (size_t i = 0; i < T::nd; ++i) {
                x(e, m, i) = shift[i] + c.real(-amp, amp);
                for (size_t j = 0; j < T::nd; ++j)
                    x(e, m, i) += F[i][j] * corner8[m][j];
            }
    }
    c.inputa("x", x);
    return x;
}

struct Scheme {
    D2 xi;
    D1 w;
    size_t kind;  ///< 0 default, 1 nodal, 2 mid-point or Gauss, 3 arbitrary
};

template <class Q>
Scheme scheme(Case& c, size_t kind)
{
    using T = Traits<Q>;
    Scheme s;
    s.kind = kind;
    c.input("scheme", kind);
    if constexpr (T::nd == 2) {
        if (kind == 0)
            s.xi = G4::Gauss::xi(), s.w = G4::Gauss::w();
        if (kind == 1)
            s.xi = G4::Nodal::xi(), s.w = G4::Nodal::w();
        if (kind == 2)
            s.xi = G4::MidPoint::xi(), s.w = G4::MidPoint::w();
    }
    else {
        if (kind == 0 || kind == 2)
            s.xi = G8::Gauss::xi(), s.w = G8::Gauss::w();
        if (kind == 1)
            s.xi = G8::Nodal::xi(), s.w = G8::Nodal::w();
    }
    if (kind == 3) {
        size_t n = c.i(1, 5);
        s.xi = xt::zeros<double>({n, T::nd});
        s.w = xt::zeros<double>({n});
        c.randomreal(s.xi);
        c.randomreal(s.w, 0.1, 2);
        c.inputa("xi", s.xi);
        c.inputa("w", s.w);
    }
    return s;
}

/// textbook quantities at one integration point
template <class Q>
struct Point {
    using T = Traits<Q>;
    double N[8], G[8][3], J[3][3], I[3][3], dN[8][3], det, r = 0, dV;
    Point(const D3& x, size_t e, const Scheme& s, size_t q, double t = 1)
    {
        double xi[3] = {0, 0, 0};
        for (size_t j = 0; j < T::nd; ++j)
            xi[j] = s.xi(q, j);
        for (size_t m = 0; m < T::nne; ++m) {
            N[m] = 1;
            for (size_t k = 0; k < T::nd; ++k)
                N[m] *= 0.5 * (1 + corner8[m][k] * xi[k]);
            for (size_t j = 0; j < T::nd; ++j) {
                G[m][j] = 0.5 * corner8[m][j];
                for (size_t k = 0; k < T::nd; ++k)
                    if (k != j)
                        G[m][j] *= 0.5 * (1 + corner8[m][k] * xi[k]);
            }
        }
        for (size_t i = 0; i < T::nd; ++i)
            for (size_t j = 0; j < T::nd; ++j) {
                J[i][j] = 0;
                for (size_t m = 0; m < T::nne; ++m)
                    J[i][j] += G[m][i] * x(e, m, j);
            }
        if (T::nd == 2) {
            det = J[0][0] * J[1][1] - J[0][1] * J[1][0];
            I[0][0] = J[1][1] / det, I[1][1] = J[0][0] / det, I[0][1] = -J[0][1] / det, I[1][0] = -J[1][0] / det;
        }
        else {
            auto co = [&](size_t i, size_t j) {
                size_t a = (i + 1) % 3, b = (i + 2) % 3, p = (j + 1) % 3, q = (j + 2) % 3;
                return J[a][p] * J[b][q] - J[a][q] * J[b][p];
            };
            det = J[0][0] * co(0, 0) + J[0][1] * co(0, 1) + J[0][2] * co(0, 2);
            for (size_t i = 0; i < 3; ++i)
                for (size_t j = 0; j < 3; ++j)
                    I[i][j] = co(j, i) / det;
        }
        for (size_t m = 0; m < T::nne; ++m)
            for (size_t i = 0; i < T::nd; ++i) {
                dN[m][i] = 0;
                for (size_t j = 0; j < T::nd; ++j)
                    dN[m][i] += I[i][j] * G[m][j];
            }
        for (size_t m = 0; m < T::nne; ++m)
            r += N[m] * x(e, m, 1);
        dV = s.w(q) * det * t * (T::k == 'a' ? 2 * M_PI * r : 1);
    }
    /// gradient operator: eps(i, j) = sum_m sum_k B(m, i, j, k) u(m, k), k an element direction
    double B(size_t m, size_t i, size_t j, size_t k) const
    {
        if (T::k != 'a')
            return i < T::nd && j == k && j < T::nd ? dN[m][i] : 0;
        // tensor (r, theta, z) = (0, 1, 2); directions (z, r) = (0, 1)
        if (j == 1 && i == 1 && k == 1)
            return N[m] / r;
        size_t d[3] = {1, 9, 0};
        if (i == 1 || j == 1)
            return 0;
        return d[j] == k ? dN[m][d[i]] : 0;
    }
};

template <class El>
El make(const D3& x, const Scheme& s, double t = 1)
{
    if constexpr (Traits<El>::k == 'p')
        return s.kind == 0 ? El(x, t) : El(x, s.xi, s.w, t);
    else
        return s.kind == 0 ? El(x) : El(x, s.xi, s.w);
}
}
