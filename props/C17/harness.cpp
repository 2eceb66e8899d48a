#include <harness.h>
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshTri3.h>
using namespace gfvh;

/// pairs and DOFs from the positions only
template <class M>
static void periodic(Case& c, const M& m, double h)
{
    D2 x = m.coor();
    size_t nd = x.shape(1), nn = x.shape(0);
    std::vector<double> L(nd, 0);
    using Key = std::vector<long long>;
    std::map<Key, size_t> at;
    std::vector<Key> key(nn, Key(nd));
    Key end(nd, 0);
    for (size_t n = 0; n < nn; ++n) {
        for (size_t i = 0; i < nd; ++i) {
            key[n][i] = std::llround(2 * x(n, i) / h);
            end[i] = std::max(end[i], key[n][i]);
        }
        c.expect("one node per position", at.emplace(key[n], n).second);
    }
    std::map<size_t, size_t> image;
    size_t origin = nn;
    for (size_t n = 0; n < nn; ++n) {
        Key k = key[n];
        bool zero = true;
        for (size_t i = 0; i < nd; ++i) {
            zero = zero && k[i] == 0;
            if (k[i] == end[i])
                k[i] = 0;
        }
        if (zero)
            origin = n;
        if (k != key[n]) {
            c.expect("every node of the far boundary has an image", at.count(k) == 1);
            image[n] = at[k];
        }
    }
    c.eq("nodesOrigin", m.nodesOrigin(), origin);
    U2 p = m.nodesPeriodic();
    c.shape("number of pairs", p, std::vector<size_t>{image.size(), 2});
    std::set<size_t> dep;
    for (size_t r = 0; r < p.shape(0); ++r) {
        c.expect("a dependent node is on the far boundary", image.count(p(r, 1)) == 1, "node " + str(p(r, 1)));
        c.eq("image of node " + str(p(r, 1)), p(r, 0), image[p(r, 1)]);
        c.expect("every dependent node occurs once", dep.insert(p(r, 1)).second, "node " + str(p(r, 1)));
    }
    U2 d = m.dofsPeriodic();
    c.shape("shape of the DOFs", d, std::vector<size_t>{nn, nd});
    std::map<size_t, std::pair<size_t, size_t>> owner;
    for (size_t n = 0; n < nn; ++n) {
        size_t o = image.count(n) ? image[n] : n;
        for (size_t i = 0; i < nd; ++i) {
            c.eq("tied nodes share their DOFs", d(n, i), d(o, i));
            auto f = owner.emplace(d(n, i), std::make_pair(o, i));
            c.expect("other nodes have other DOFs", f.first->second == std::make_pair(o, i), "node " + str(n) + " and node " + str(f.first->second.first));
        }
    }
    c.eq("number of DOFs", owner.size(), (nn - image.size()) * nd);
    c.eq("consecutive DOFs", owner.rbegin()->first + 1, owner.size());
}

static void body(Case& c)
{
    int k = (int)c.i(0, 4);
    size_t mx = k == 2 ? 5 : 9;
    auto one = [&]() { return c.coin(4) ? size_t(1) : c.i(1, mx); };
    size_t nx = one(), ny = one(), nz = k == 2 ? one() : 0;
    if (k == 3) {
        nx = c.i(1, 30);
        ny = c.i(1, 30);
    }
    if (k == 4) {
        nx = c.i(1, 12);
        nz = c.i(1, 12);
        ny = c.i(1, 16);
    }
    double h = c.real(0.1, 3);
    c.input("type", k), c.input("nelx", nx), c.input("nely", ny), c.input("nelz", nz), c.input("h", h);
    using namespace GooseFEM::Mesh;
    if (k == 0)
        periodic(c, Quad4::Regular(nx, ny, h), h);
    else if (k == 1)
        periodic(c, Tri3::Regular(nx, ny, h), h);
    else if (k == 2)
        periodic(c, Hex8::Regular(nx, ny, nz, h), h);
    else if (k == 3)
        periodic(c, Quad4::FineLayer(nx, ny, h), h);
    else
        periodic(c, Hex8::FineLayer(nx, ny, nz, h), h);
}

GFVH_MAIN(body, "uniformly random numbers of elements (with an excess of one): regular meshes of quadrilaterals, triangles, hexahedra; fine-layer meshes of quadrilaterals and hexahedra; non-trivial: always")
