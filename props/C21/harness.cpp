#include <harness.h>
using namespace gfvh;
namespace M = GooseFEM::Mesh;

struct Part {
    D2 x;
    U2 e;
};

/// regular grid (1, 2 or 3 dimensions), its nodes and elements in random order
static Part grid(Case& c, const std::vector<size_t>& n, const std::vector<double>& at, const std::vector<double>& h, bool shuffle)
{
    size_t d = n.size(), nnode = 1, nelem = 1, nne = 1;
    for (size_t j = 0; j < d; ++j) {
        nnode *= n[j] + 1;
        nelem *= n[j];
        nne *= 2;
    }
    std::vector<size_t> pn(nnode), pe(nelem);
    for (size_t i = 0; i < nnode; ++i)
        pn[i] = i;
    for (size_t i = 0; i < nelem; ++i)
        pe[i] = i;
    if (shuffle) {
        for (size_t i = nnode; i-- > 1;)
            std::swap(pn[i], pn[c.i(0, i)]);
        for (size_t i = nelem; i-- > 1;)
            std::swap(pe[i], pe[c.i(0, i)]);
    }
    Part r;
    r.x = D2::from_shape({nnode, d});
    r.e = U2::from_shape({nelem, nne});
    for (size_t i = 0; i < nnode; ++i) {
        size_t k = i;
        for (size_t j = 0; j < d; ++j) {
            r.x(pn[i], j) = at[j] + h[j] * (k % (n[j] + 1));
            k /= n[j] + 1;
        }
    }
    for (size_t i = 0; i < nelem; ++i)
        for (size_t m = 0; m < nne; ++m) {
            size_t k = i, node = 0, f = 1;
            for (size_t j = 0; j < d; ++j) {
                node += f * (k % n[j] + ((m >> j) & 1));
                f *= n[j] + 1;
                k /= n[j];
            }
            r.e(pe[i], m) = pn[node];
        }
    return r;
}

static bool at_same(const D2& a, size_t i, const D2& b, size_t k, double tol = 0)
{
    for (size_t j = 0; j < a.shape(1); ++j)
        if (std::abs(a(i, j) - b(k, j)) > tol)
            return false;
    return true;
}

static U1 some(Case& c, size_t n, size_t lo)
{
    std::vector<size_t> s;
    for (size_t i = 0; i < n; ++i)
        if (c.coin())
            s.push_back(i);
    if (s.size() < lo)
        s.push_back(c.i(0, n - 1));
    for (size_t i = s.size(); i-- > 1;)
        std::swap(s[i], s[c.i(0, i)]);
    U1 r = U1::from_shape({s.size()});
    std::copy(s.begin(), s.end(), r.begin());
    return r;
}

template <class S>
static void result(Case& c, const std::string& at, const S& s, const std::vector<Part>& p, double tol, bool merged)
{
    D2 x = s.coor();
    U2 e = s.conn();
    size_t K = p.size(), nelem = 0, d = p[0].x.shape(1), nne = p[0].e.shape(1);
    for (auto& q : p)
        nelem += q.e.shape(0);
    c.eq(at + ": nmesh", s.nmesh(), K);
    c.eq(at + ": nelem", s.nelem(), nelem);
    c.eq(at + ": nnode", s.nnode(), x.shape(0));
    c.eq(at + ": nne", s.nne(), nne);
    c.eq(at + ": ndim", s.ndim(), d);
    c.shape(at + ": coor", x, std::vector<size_t>{x.shape(0), d});
    c.shape(at + ": conn", e, std::vector<size_t>{nelem, nne});
    std::vector<bool> used(x.shape(0), false);
    for (size_t n : e) {
        c.expect(at + ": node numbers", n < x.shape(0));
        used[n] = true;
    }
    if (merged) {
        for (size_t i = 0; i < x.shape(0); ++i) {
            c.expect(at + ": no unused node", used[i], "node " + str(i));
            for (size_t j = 0; j < i; ++j)
                c.expect(at + ": no duplicate node", !at_same(x, i, x, j, tol), "nodes " + str(i) + " and " + str(j));
        }
    }
    U2 dofs = s.dofs();
    c.shape(at + ": dofs", dofs, std::vector<size_t>{x.shape(0), d});
    for (size_t i = 0; i < x.shape(0); ++i)
        for (size_t j = 0; j < d; ++j)
            c.eq(at + ": dofs", dofs(i, j), i * d + j);
    auto nm = s.nodemap();
    auto em = s.elemmap();
    c.eq(at + ": number of node maps", nm.size(), K);
    c.eq(at + ": number of element maps", em.size(), K);
    size_t off = 0;
    std::vector<bool> hit(x.shape(0), false);
    for (size_t k = 0; k < K; ++k) {
        U1 a = s.nodemap(k), b = s.elemmap(k);
        c.same(at + ": list of node maps", nm[k], a);
        c.same(at + ": list of element maps", em[k], b);
        c.eq(at + ": size of the node map", a.size(), p[k].x.shape(0));
        c.eq(at + ": size of the element map", b.size(), p[k].e.shape(0));
        for (size_t i = 0; i < a.size(); ++i) {
            c.expect(at + ": node map", a(i) < x.shape(0) && at_same(x, a(i), p[k].x, i, tol), "mesh " + str(k) + " node " + str(i));
            hit[a(i)] = true;
        }
        for (size_t i = 0; i < b.size(); ++i) {
            c.eq(at + ": element map", b(i), off + i);
            for (size_t m = 0; m < nne; ++m)
                c.eq(at + ": element", e(b(i), m), a(p[k].e(i, m)));
        }
        off += b.size();
        U1 ns = some(c, a.size(), 1), es = some(c, b.size(), 1);
        U1 ns_ = s.nodeset(ns, k), es_ = s.elemset(es, k);
        c.eq(at + ": size of a node set", ns_.size(), ns.size());
        c.eq(at + ": size of an element set", es_.size(), es.size());
        for (size_t i = 0; i < ns.size(); ++i)
            c.eq(at + ": node set", ns_(i), a(ns(i)));
        for (size_t i = 0; i < es.size(); ++i)
            c.eq(at + ": element set", es_(i), b(es(i)));
    }
    for (size_t i = 0; i < hit.size(); ++i)
        c.expect(at + ": every node comes from a mesh", hit[i]);
}

/// sets of all meshes together
template <class S>
static void sets(Case& c, const std::string& at, const S& s, const std::vector<Part>& p)
{
    std::vector<U1> ns, es;
    std::set<size_t> n;
    std::vector<size_t> e;
    for (size_t k = 0; k < p.size(); ++k) {
        ns.push_back(some(c, p[k].x.shape(0), 1));
        es.push_back(some(c, p[k].e.shape(0), 1));
        U1 a = s.nodemap(k), b = s.elemmap(k);
        for (size_t i : ns[k])
            n.insert(a(i));
        for (size_t i : es[k])
            e.push_back(b(i));
    }
    U1 r = s.nodeset(ns), q = s.elemset(es);
    c.eq(at + ": size of the combined node set", r.size(), n.size());
    c.expect(at + ": combined node set", std::equal(r.begin(), r.end(), n.begin()));
    c.eq(at + ": size of the combined element set", q.size(), e.size());
    c.expect(at + ": combined element set", std::equal(q.begin(), q.end(), e.begin()));
    if (p.size() == 2) {
        c.same(at + ": braced node sets", U1(s.nodeset({ns[0], ns[1]})), r);
        c.same(at + ": braced element sets", U1(s.elemset({es[0], es[1]})), q);
    }
}

static void stitch(Case& c)
{
    size_t d = c.i(1, 3);
    // blocks of a grid
    std::vector<std::vector<size_t>> div(d);
    std::vector<double> h(d);
    size_t nb = 1;
    for (size_t j = 0; j < d; ++j) {
        h[j] = c.coin() ? 1.0 : (double)c.i(1, 3) * 0.5;
        size_t m = d == 3 ? c.i(1, 2) : c.i(1, 3);
        for (size_t i = 0; i < m; ++i)
            div[j].push_back(c.i(1, d == 3 ? 2 : 3));
        nb *= m;
    }
    double noise = c.coin(3) ? 1e-10 : 0.0;
    std::vector<Part> p;
    std::vector<size_t> order(nb);
    for (size_t i = 0; i < nb; ++i)
        order[i] = i;
    for (size_t i = nb; i-- > 1;)
        std::swap(order[i], order[c.i(0, i)]);
    if (c.coin(3))
        order.resize(c.i(1, nb));
    c.input("dimensions", d);
    M::Stitch s;
    std::vector<size_t> seen;
    for (size_t k : order) {
        std::vector<size_t> n(d);
        std::vector<double> at(d);
        size_t q = k;
        for (size_t j = 0; j < d; ++j) {
            size_t b = q % div[j].size();
            q /= div[j].size();
            n[j] = div[j][b];
            size_t pos = 0;
            for (size_t i = 0; i < b; ++i)
                pos += div[j][i];
            at[j] = h[j] * pos;
        }
        Part x = grid(c, n, at, h, c.coin());
        for (auto& v : x.x)
            v += noise * c.real();
        p.push_back(x);
        c.inputa("coor", x.x);
        c.inputa("conn", x.e);
        D2 before = p.size() > 1 ? D2(s.coor()) : D2();
        if (p.size() > 1) {
            U2 o = M::overlapping(before, x.x);
            std::vector<std::pair<size_t, size_t>> e;
            for (size_t i = 0; i < before.shape(0); ++i)
                for (size_t j = 0; j < x.x.shape(0); ++j)
                    if (at_same(before, i, x.x, j, 1e-8))
                        e.push_back({i, j});
            c.shape("overlapping", o, std::vector<size_t>{2, e.size()});
            for (size_t i = 0; i < e.size(); ++i) {
                c.eq("overlapping, first mesh", o(0, i), e[i].first);
                c.eq("overlapping, second mesh", o(1, i), e[i].second);
            }
        }
        s.push_back(x.x, x.e);
        seen.push_back(k);
        if (c.coin(3) || p.size() == order.size()) {
            result(c, "Stitch", s, p, 1e-8, true);
            sets(c, "Stitch", s, p);
        }
    }
    std::set<std::vector<long>> pos;
    for (auto& q : p)
        for (size_t i = 0; i < q.x.shape(0); ++i) {
            std::vector<long> v;
            for (size_t j = 0; j < d; ++j)
                v.push_back(std::lround(q.x(i, j) * 1e3));
            pos.insert(v);
        }
    c.eq("Stitch: number of nodes", s.nnode(), pos.size());
    M::Stitch cp = s;
    c.same("Stitch: copy", cp.conn(), s.conn());
    c.nontrivial = p.size() > 1;
}

static void manual(Case& c)
{
    size_t d = c.i(1, 3);
    std::vector<size_t> na, nbn;
    std::vector<double> at(d, 0.0), bt(d, 0.0), h(d, 1.0);
    for (size_t j = 0; j < d; ++j) {
        na.push_back(c.i(1, d == 3 ? 2 : 3));
        nbn.push_back(j == 0 ? c.i(1, 3) : na[j]);
    }
    bt[0] = (double)na[0];
    Part a = grid(c, na, at, h, c.coin()), b = grid(c, nbn, bt, h, c.coin());
    std::vector<std::pair<size_t, size_t>> o;
    for (size_t i = 0; i < a.x.shape(0); ++i)
        for (size_t j = 0; j < b.x.shape(0); ++j)
            if (at_same(a.x, i, b.x, j))
                o.push_back({i, j});
    for (size_t i = o.size(); i-- > 1;)
        std::swap(o[i], o[c.i(0, i)]);
    bool all = c.coin();
    if (!all)
        o.resize(c.i(1, o.size()));
    U1 oa = U1::from_shape({o.size()}), ob = oa;
    for (size_t i = 0; i < o.size(); ++i) {
        oa(i) = o[i].first;
        ob(i) = o[i].second;
    }
    c.inputa("coor_a", a.x);
    c.inputa("conn_a", a.e);
    c.inputa("over_a", oa);
    c.inputa("coor_b", b.x);
    c.inputa("conn_b", b.e);
    c.inputa("over_b", ob);
    M::ManualStitch s(a.x, a.e, oa, b.x, b.e, ob);
    result(c, "ManualStitch", s, {a, b}, 0.0, all || o.size() == 0);
    c.eq("ManualStitch: number of nodes", s.nnode(), a.x.shape(0) + b.x.shape(0) - o.size());
    U1 ma = s.nodemap(0), mb = s.nodemap(1);
    for (size_t i = 0; i < o.size(); ++i)
        c.eq("ManualStitch: one node", ma(oa(i)), mb(ob(i)));
    std::set<size_t> im(mb.begin(), mb.end());
    c.eq("ManualStitch: distinct nodes", im.size(), mb.size());
    // positions that differ are refused, unless asked for
    D2 y = b.x;
    xt::view(y, xt::all(), d - 1) += 0.5;
    bool refused = false;
    try {
        M::ManualStitch t(a.x, a.e, oa, y, b.e, ob);
    }
    catch (const std::exception&) {
        refused = true;
    }
    c.expect("ManualStitch: nodes at different positions are refused", refused);
    M::ManualStitch t(a.x, a.e, oa, y, b.e, ob, false);
    c.same("ManualStitch: same connectivity without check", t.conn(), s.conn());
    D2 z = t.coor();
    U1 m1 = t.nodemap(1);
    for (size_t i = 0; i < y.shape(0); ++i)
        if (m1(i) >= a.x.shape(0))
            c.expect("ManualStitch: positions without check", at_same(z, m1(i), y, i));
        else
            c.expect("ManualStitch: positions of the first mesh without check", at_same(z, m1(i), a.x, m1(i)));
}

static void vstack(Case& c)
{
    size_t d = c.i(2, 3), K = c.i(1, 5);
    std::vector<size_t> n(d);
    std::vector<double> at(d, 0.0), h(d);
    for (size_t j = 0; j < d; ++j) {
        n[j] = c.i(1, 3);
        h[j] = c.coin() ? 1.0 : 0.5;
    }
    M::Vstack s(c.coin());
    std::vector<Part> p;
    double y = 0;
    for (size_t k = 0; k < K; ++k) {
        n[1] = c.i(1, 3);
        h[1] = c.coin() ? 1.0 : 0.25;
        Part q = grid(c, n, at, h, c.coin());
        auto side = [&](double v) {
            std::vector<std::pair<std::vector<double>, size_t>> f;
            for (size_t i = 0; i < q.x.shape(0); ++i)
                if (q.x(i, 1) == v) {
                    std::vector<double> key;
                    for (size_t j = 0; j < d; ++j)
                        key.push_back(q.x(i, j));
                    f.push_back({key, i});
                }
            std::sort(f.begin(), f.end());
            U1 r = U1::from_shape({f.size()});
            for (size_t i = 0; i < f.size(); ++i)
                r(i) = f[i].second;
            return r;
        };
        U1 bot = side(0.0), top = side(h[1] * n[1]);
        c.inputa("coor", q.x);
        c.inputa("conn", q.e);
        c.inputa("bot", bot);
        c.inputa("top", top);
        s.push_back(q.x, q.e, bot, top);
        Part moved = q;
        xt::view(moved.x, xt::all(), 1) += y;
        p.push_back(moved);
        y += h[1] * n[1];
        if (c.coin() || k + 1 == K) {
            result(c, "Vstack", s, p, 0.0, true);
            sets(c, "Vstack", s, p);
        }
    }
}

static void body(Case& c)
{
    switch (c.i(0, 2)) {
    case 0: return stitch(c);
    case 1: return manual(c);
    default: return vstack(c);
    }
}

GFVH_MAIN(body, "grids of 1..12 blocks in 1, 2 or 3 dimensions with shuffled nodes and elements, in any order; manual lists; stacks of 1..5 meshes")
