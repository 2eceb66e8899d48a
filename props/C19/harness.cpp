#include <harness.h>
using namespace gfvh;
using GooseFEM::Mesh::Hex8::FineLayer;
using P = std::array<long, 3>;

/// as set, without repetition
static void set_eq(Case& c, const std::string& at, const U1& got, std::vector<size_t> e)
{
    std::vector<size_t> g(got.begin(), got.end());
    std::sort(g.begin(), g.end());
    std::sort(e.begin(), e.end());
    c.expect(at, g == e, "returned " + arr(got) + " expected " + arr(xt::adapt(e, std::array<size_t, 1>{e.size()})));
}

/// determinant of the Jacobian of the trilinear map at (r, s, t), times 512
static double jac(const std::array<P, 8>& v, double r, double s, double t)
{
    static const int R[8] = {-1, 1, 1, -1, -1, 1, 1, -1}, S[8] = {-1, -1, 1, 1, -1, -1, 1, 1}, T[8] = {-1, -1, -1, -1, 1, 1, 1, 1};
    double J[3][3] = {};
    for (int k = 0; k < 8; ++k)
        for (int j = 0; j < 3; ++j) {
            J[0][j] += R[k] * (1 + s * S[k]) * (1 + t * T[k]) * v[k][j];
            J[1][j] += S[k] * (1 + r * R[k]) * (1 + t * T[k]) * v[k][j];
            J[2][j] += T[k] * (1 + r * R[k]) * (1 + s * S[k]) * v[k][j];
        }
    return J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]);
}

static void body(Case& c)
{
    static const size_t widths[] = {1, 2, 3, 4, 6, 9, 5, 12, 18, 27};
    bool big = c.coin(3);
    size_t X = widths[c.i(0, big ? 9 : 6)], Z = widths[c.i(0, big ? 9 : 6)], Y = big ? c.i(1, 45) : c.i(1, 20), nf = c.coin() ? 1 : c.i(0, 6);
    if (X * Z > 200)
        X = c.coin() ? 3 : 9;
    double h = c.coin() ? 1.0 : c.coin() ? 0.1 : c.real(0.01, 4.0);
    c.input("nelx", X);
    c.input("nely", Y);
    c.input("nelz", Z);
    c.input("h", h);
    c.input("nfine", nf);
    FineLayer mesh(X, Y, Z, h, nf);
    D2 coor = mesh.coor();
    U2 conn = mesh.conn();
    size_t N = mesh.nnode(), E = mesh.nelem(), H = mesh.nely();
    c.close("h", mesh.h(), h, 0, 1);
    c.eq("ndim", mesh.ndim(), (size_t)3);
    c.eq("nne", mesh.nne(), (size_t)8);
    c.eq("nelx", mesh.nelx(), X);
    c.eq("nelz", mesh.nelz(), Z);
    c.shape("coor", coor, std::vector<size_t>{N, 3});
    c.shape("conn", conn, std::vector<size_t>{E, 8});
    size_t odd = 2 * ((Y + 1) / 2) - 1;
    c.expect("height", H >= odd && H % 2 == 1, str(H));
    P top{(long)X, (long)H, (long)Z};
    std::vector<P> x(N);
    std::map<P, size_t> at;
    for (size_t i = 0; i < N; ++i) {
        for (size_t j = 0; j < 3; ++j) {
            x[i][j] = std::lround(coor(i, j) / h);
            c.close("position on the grid", coor(i, j), x[i][j] * h, 1e-9, h * (1 + std::abs(x[i][j])));
            c.expect("nodes in the domain", x[i][j] >= 0 && x[i][j] <= top[j]);
        }
        c.expect("nodes at different positions", at.emplace(x[i], i).second, "node " + str(i));
    }
    // conforming, positively oriented, tiling
    static const int face[6][4] = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {2, 3, 7, 6}, {1, 2, 6, 5}, {0, 4, 7, 3}};
    std::map<std::array<size_t, 4>, int> faces; // directed: starting at the smallest node
    std::vector<bool> used(N, false);
    std::vector<size_t> middle;
    double vol = 0, g = 1 / std::sqrt(3.0);
    std::set<std::set<P>> poly;
    bool coarse = false;
    for (size_t e = 0; e < E; ++e) {
        std::array<P, 8> v;
        P lo = top, hi = {0, 0, 0};
        for (size_t k = 0; k < 8; ++k) {
            c.expect("node numbers", conn(e, k) < N);
            used[conn(e, k)] = true;
            v[k] = x[conn(e, k)];
            for (int j = 0; j < 3; ++j) {
                lo[j] = std::min(lo[j], v[k][j]);
                hi[j] = std::max(hi[j], v[k][j]);
            }
        }
        poly.insert(std::set<P>(v.begin(), v.end()));
        for (int k = 0; k < 8; ++k) {
            int r = k & 1, s = (k >> 1) & 1, t = k >> 2;
            c.expect("positively oriented", jac(v, 2 * r - 1, 2 * s - 1, 2 * t - 1) > 0.5, "element " + str(e));
            vol += jac(v, (2 * r - 1) * g, (2 * s - 1) * g, (2 * t - 1) * g) / 512;
        }
        for (auto& f : face) {
            std::array<size_t, 4> q;
            for (int k = 0; k < 4; ++k)
                q[k] = conn(e, f[k]);
            std::rotate(q.begin(), std::min_element(q.begin(), q.end()), q.end());
            c.expect("face used once from each side", faces[q]++ == 0, "element " + str(e));
        }
        bool unit = hi[0] - lo[0] == 1 && hi[1] - lo[1] == 1 && hi[2] - lo[2] == 1;
        coarse = coarse || !unit;
        if (2 * lo[1] + 1 == (long)H && 2 * hi[1] - 1 == (long)H) {
            c.expect("middle layer: finest elements", unit);
            middle.push_back(e);
        }
    }
    for (size_t i = 0; i < N; ++i)
        c.expect("no unused node", used[i], "node " + str(i));
    c.close("the elements fill the domain", vol, (double)(X * H * Z), 1e-9, (double)(X * H * Z));
    for (auto& [k, n] : faces) {
        std::array<size_t, 4> q{k[0], k[3], k[2], k[1]};
        bool bnd = false;
        for (int j = 0; j < 3; ++j)
            for (long w : {0l, top[j]})
                bnd = bnd || (x[k[0]][j] == w && x[k[1]][j] == w && x[k[2]][j] == w && x[k[3]][j] == w);
        c.eq("conforming: face", faces.count(q), (size_t)(bnd ? 0 : 1));
    }
    for (auto& s : poly) {
        std::set<P> r;
        for (auto p : s)
            r.insert({p[0], (long)H - p[1], p[2]});
        c.expect("symmetric", poly.count(r) == 1);
    }
    c.eq("middle layer: number of elements", middle.size(), X * Z);
    set_eq(c, "elementsMiddleLayer", mesh.elementsMiddleLayer(), middle);
    // minimal number of fine layers (in the limits of the height)
    size_t half = std::min(nf % 2 == 0 ? nf / 2 + 1 : (nf + 1) / 2, (Y + 1) / 2);
    size_t m = (H - 1) / 2;
    c.expect("height", half <= m + 1);
    for (long i = 0; i <= (long)X; i++)
        for (long k = 0; k <= (long)Z; k++)
            for (size_t l = 0; l < half; ++l)
                c.expect("fine layers", at.count({i, (long)(m + l), k}) && at.count({i, (long)(m + l + 1), k}) && at.count({i, (long)(m - l), k}));
    // boundary
    auto sel = [&](P fix, bool open) {
        std::vector<size_t> r;
        for (size_t i = 0; i < N; ++i) {
            bool in = true;
            for (int j = 0; j < 3; ++j) {
                if (fix[j] >= 0)
                    in = in && x[i][j] == (fix[j] ? top[j] : 0);
                else if (open)
                    in = in && x[i][j] > 0 && x[i][j] < top[j];
            }
            if (in)
                r.push_back(i);
        }
        return r;
    };
#define SET(name, a, b, d, open) set_eq(c, "nodes" #name, mesh.nodes##name(), sel(P{a, b, d}, open));
#define CORNER(name, a, b, d) set_eq(c, "nodes" #name, U1{mesh.nodes##name()}, sel(P{a, b, d}, false));
#include "sets.h"
    set_eq(c, "nodesOrigin", U1{mesh.nodesOrigin()}, sel(P{0, 0, 0}, false));
    c.nontrivial = coarse;
}

GFVH_MAIN(body, "fine-layer meshes up to 27 x 27 x 45 elements, element sizes 0.01..4, 0..6 fine layers")
