#include <harness.h>
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshTri3.h>
#include "sets.inc"
using namespace gfvh;

/// nodes of the named part of the boundary, from its definition
static std::vector<size_t> expected(const std::vector<size_t>& n, std::string name)
{
    static const std::map<std::string, std::pair<size_t, bool>> face{{"Left", {0, false}}, {"Right", {0, true}}, {"Bottom", {1, false}}, {"Top", {1, true}}, {"Front", {2, false}}, {"Back", {2, true}}};
    std::map<size_t, bool> fix;
    for (bool go = true; go;) {
        go = false;
        for (auto& f : face) {
            if (name.rfind(f.first, 0) == 0) {
                fix[f.second.first] = f.second.second;
                name = name.substr(f.first.size());
                go = true;
            }
        }
    }
    bool open = name == "OpenEdge" || name == "Face";
    size_t nd = n.size(), nnode = 1;
    for (auto i : n)
        nnode *= i + 1;
    std::vector<size_t> ret;
    for (size_t p = 0; p < nnode; ++p) {
        size_t r = p;
        bool in = true;
        for (size_t i = 0; i < nd; ++i) {
            size_t v = r % (n[i] + 1);
            r /= n[i] + 1;
            auto f = fix.find(i);
            if (f != fix.end())
                in = in && v == (f->second ? n[i] : 0);
            else if (open)
                in = in && v != 0 && v != n[i];
        }
        if (in)
            ret.push_back(p);
    }
    return ret;
}

static void set(Case& c, const std::vector<size_t>& n, const std::string& name, const U1& got)
{
    auto e = expected(n, name);
    U1 r = xt::zeros<size_t>({e.size()});
    std::copy(e.begin(), e.end(), r.begin());
    c.same("nodes" + name, got, r);
}

static void one(Case& c, const std::vector<size_t>& n, const std::string& name, size_t got)
{
    c.eq("nodes" + name, got, expected(n, name).at(0));
}

static void body(Case& c)
{
    int k = (int)c.i(0, 2);
    size_t mx = k == 2 ? 5 : 9;
    std::vector<size_t> n{c.coin(4) ? 1 : c.i(1, mx), c.coin(4) ? 1 : c.i(1, mx)};
    if (k == 2)
        n.push_back(c.coin(4) ? 1 : c.i(1, mx));
    double h = c.real(0.1, 3);
    c.input("type", k);
    for (auto i : n)
        c.input("number of elements", i);
    c.input("h", h);
    using namespace GooseFEM::Mesh;
#define X(name) set(c, n, #name, m.nodes##name());
#define Y(name) one(c, n, #name, m.nodes##name());
    if (k == 0) {
        Quad4::Regular m(n[0], n[1], h);
        SETS2(X)
        CORNERS2(Y)
        c.eq("nodesOrigin", m.nodesOrigin(), size_t(0));
    }
    else if (k == 1) {
        Tri3::Regular m(n[0], n[1], h);
        SETS2(X)
        CORNERS2(Y)
        c.eq("nodesOrigin", m.nodesOrigin(), size_t(0));
    }
    else {
        Hex8::Regular m(n[0], n[1], n[2], h);
        SETS3(X)
        CORNERS3(Y)
        c.eq("nodesOrigin", m.nodesOrigin(), size_t(0));
    }
}

GFVH_MAIN(body, "uniformly random numbers of elements (with an excess of one); all named node sets and corners of the regular meshes of quadrilaterals, triangles, hexahedra; non-trivial: always")
