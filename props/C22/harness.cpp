#include <harness.h>
using namespace gfvh;

template <class A, class R>
static void renumbered(Case& c, const std::string& at, const A& a, const std::map<size_t, size_t>& num, const R& r)
{
    A e = a;
    for (auto it = e.begin(); it != e.end(); ++it)
        *it = num.at(*it);
    c.same(at, r, e);
}

template <class A>
static A table(Case& c, const std::vector<size_t>& pool, std::vector<size_t> sh)
{
    typename A::shape_type s;
    std::copy(sh.begin(), sh.end(), s.begin());
    A a = A::from_shape(s);
    for (auto it = a.begin(); it != a.end(); ++it)
        *it = pool[c.i(0, pool.size() - 1)];
    return a;
}

static std::vector<size_t> sizes(Case& c, size_t d)
{
    std::vector<size_t> s;
    for (size_t i = 0; i < d; ++i)
        s.push_back(c.i(1, d == 1 ? 12 : 5));
    return s;
}

template <class A>
static void renumber(Case& c, size_t d)
{
    size_t mx = c.coin() ? 3 : (c.coin() ? 12 : 200);
    std::vector<size_t> pool;
    for (size_t n = c.i(1, 20); n-- > 0;)
        pool.push_back(c.i(0, mx));
    A a = table<A>(c, pool, sizes(c, d));
    c.inputa("dofs", a);
    A keep = a;
    std::set<size_t> u(a.begin(), a.end());
    std::map<size_t, size_t> num;
    std::vector<size_t> used(u.begin(), u.end());
    for (size_t v : used) {
        size_t n = num.size();
        num[v] = n;
    }
    renumbered(c, "renumber", a, num, GooseFEM::Mesh::renumber(a));
    GooseFEM::Mesh::Renumber R(a);
    renumbered(c, "apply to the same table", a, num, R.apply(a));
    c.same("the table is not changed", a, keep);
    U1 x = R.index();
    c.eq("size of the index", x.size(), *u.rbegin() + 1);
    for (auto& n : num)
        c.eq("index of DOF " + str(n.first), x(n.first), n.second);
    U1 b1 = table<U1>(c, used, sizes(c, 1));
    U2 b2 = table<U2>(c, used, sizes(c, 2));
    U3 b3 = table<U3>(c, used, sizes(c, 3));
    renumbered(c, "apply to another table (1d)", b1, num, R.apply(b1));
    renumbered(c, "apply to another table (2d)", b2, num, R.apply(b2));
    renumbered(c, "apply to another table (3d)", b3, num, R.apply(b3));
    A again = R.apply(a);
    std::map<size_t, size_t> id;
    for (size_t i = 0; i < num.size(); ++i)
        id[i] = i;
    renumbered(c, "renumber twice", again, id, GooseFEM::Mesh::renumber(again));
}

static void reorder(Case& c)
{
    size_t n = c.i(1, 3), mx = c.i(0, 20);
    std::vector<size_t> p(mx + 1);
    for (size_t i = 0; i <= mx; ++i)
        p[i] = i;
    for (size_t i = p.size(); i-- > 1;)
        std::swap(p[i], p[c.i(0, i)]);
    if (c.coin())
        p.resize(c.i(1, p.size()));
    std::vector<U1> L;
    std::map<size_t, size_t> num;
    size_t k = 0;
    for (size_t j = 0; j < n; ++j) {
        size_t m = j + 1 == n && c.coin() ? p.size() - k : c.i(0, p.size() - k);
        if (c.coin(6))
            m = 0;
        U1 l = xt::zeros<size_t>({m});
        for (size_t i = 0; i < m; ++i) {
            l(i) = p[k];
            num[p[k]] = k;
            ++k;
        }
        c.inputa("list", l);
        L.push_back(l);
    }
    if (k == 0) {
        c.nontrivial = false;
        return;
    }
    using GooseFEM::Mesh::Reorder;
    Reorder R = n == 1 ? Reorder({L[0]}) : (n == 2 ? Reorder({L[0], L[1]}) : Reorder({L[0], L[1], L[2]}));
    U1 x = R.index();
    c.eq("size of the index", x.size(), num.rbegin()->first + 1);
    for (auto& v : num)
        c.eq("index of DOF " + str(v.first), x(v.first), v.second);
    std::vector<size_t> used;
    for (auto& v : num)
        used.push_back(v.first);
    U1 b1 = table<U1>(c, used, sizes(c, 1));
    U2 b2 = table<U2>(c, used, sizes(c, 2));
    U3 b3 = table<U3>(c, used, sizes(c, 3));
    renumbered(c, "apply (1d)", b1, num, R.apply(b1));
    renumbered(c, "apply (2d)", b2, num, R.apply(b2));
    renumbered(c, "apply (3d)", b3, num, R.apply(b3));
    for (auto& l : L)
        if (l.size())
            renumbered(c, "apply to a list", l, num, R.apply(l));
}

static void body(Case& c)
{
    size_t k = c.i(0, 5);
    c.input("case", k);
    if (k == 0)
        renumber<U1>(c, 1);
    else if (k == 1)
        renumber<U2>(c, 2);
    else if (k == 2)
        renumber<U3>(c, 3);
    else if (k < 5)
        reorder(c);
    else {
        size_t nn = c.i(0, 9), nd = c.i(1, 4);
        c.input("nnode", nn), c.input("ndim", nd);
        U2 d = GooseFEM::Mesh::dofs(nn, nd);
        c.shape("dofs", d, std::vector<size_t>{nn, nd});
        for (size_t i = 0; i < nn; ++i)
            for (size_t j = 0; j < nd; ++j)
                c.eq("DOFs numbered per node", d(i, j), i * nd + j);
    }
}

GFVH_MAIN(body, "random tables (1d, 2d, 3d) of DOFs with holes and repetitions, random disjoint lists (also empty), random further tables; non-trivial: at least one DOF")
